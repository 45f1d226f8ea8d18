---------------------------- MODULE TV_Clipping ----------------------------
EXTENDS Clipping, TraceBase
Logic(e) ==
    LET P == NumSeq(e.p)
        R == IF e.R > 0 THEN e.R ELSE WindowOf(e.mount, e.f)
        x == TLCEval(Detect(e.t, e.mid, P, e.f, R, NP(e.cutoff)))
    IN IF x.amb THEN (IF e.strict THEN {"undetermined"} ELSE {})
       ELSE MaskClause("excluded exactly at the day's clipping levels", Tab(Len(P), LAMBDA i : TNot(x.excluded[i])), e.keep)
\* the model-based filter: per day, the excluded readings are a band of powers near the day's top
Learned(e) ==
    LET P == NumSeq(e.p)
        pmax == MaxV(P)  pmin == MinV(P)
        sc(x) == (x \ominus pmin) \oslash (pmax \ominus pmin)
        top == Tab(Len(e.mid), LAMBDA d : MaxV(Cut(P, DaySpan(e.t, e.mid, d))))
        frac == IF e.f < 5 THEN NQ(899, 1000) ELSE NQ(949, 1000)
        out == {i \in 1..Len(P) : ~e.keep[i]}
        bad == {i \in out : sc(P[i]) \prec (frac \otimes sc(top[DayOf(e.mid, e.t[i])]))}
        hole(d) == LET sp == DaySpan(e.t, e.mid, d)
                       o == {i \in sp[1]..sp[2] : ~e.keep[i]}
                       k == {i \in sp[1]..sp[2] : e.keep[i] /\ ~IsNaN(P[i])}
                   IN o # {} /\ LET s == TLCEval(Tab(Len(P), LAMBDA i : IF i \in o THEN P[i] ELSE NaN))
                                    hi == MaxV(s) lo == MinV(s)
                                IN \E i \in k : lo \prec P[i] /\ P[i] \prec hi
    IN Clause("length", Len(e.keep) = Len(P))
       \cup Clause("excludes a reading far below its day's maximum", bad = {})
       \cup Clause("excluded readings of a day form a band of powers", \A d \in 1..Len(e.mid) : ~hole(d))
       \cup Clause("missing readings are not judged clipped", \A i \in out : ~IsNaN(P[i]))
Verdict(e) ==
    IF e.refuse # "" THEN Clause(e.op \o " must be refused: " \o e.why, e.err = e.refuse)
    ELSE IF e.err # "" THEN {e.op \o " raised " \o e.err}
    ELSE Clause("boolean mask on exactly the input's index", e.index)
         \cup Clause("same mask when called again", e.again)
         \cup Clause("same mask for rescaled power", e.scaled)
         \cup Clause("same mask whatever the time zone label", e.zone)
         \cup Clause("each day is judged by its own levels: reordering days reorders the mask", e.perm)
         \cup (IF e.op = "logic" THEN Logic(e) ELSE Learned(e))
=============================================================================
