------------------------------ MODULE TV_Interp ------------------------------
EXTENDS Interp, TraceBase
(***************************************************************************)
(* record: t, v (columns), target, g ("0" = default limit), outcome        *)
(***************************************************************************)
Lim(e, T, V) == IF e.g = "0" THEN DefaultGap(VT(T, V)) ELSE NP(e.g)
Column(e, c) ==
    LET V == NumSeq(e.v[c])
        vt == VT(e.t, V)
    IN SeqClause("interpolated value", InterpSeq(e.t, V, e.target, Lim(e, e.t, V)), NumSeq(e.out[c]))
Verdict(e) ==
    IF e.refuse THEN Clause("zone-aware and naive indexes mixed must be refused", e.err = "ValueError")
    ELSE IF e.err # "" THEN {"raised " \o e.err}
    ELSE UNION {Column(e, c) : c \in 1..Len(e.v)}
         \cup Clause("result carries exactly the target index", e.index_ok)
         \cup Clause("result keeps the input's names", e.name_ok)
         \cup Clause("warning exactly when more than the threshold fraction of gaps is excluded",
                LET Frac(c) == LET V == NumSeq(e.v[c])
                                   s == Steps(VT(e.t, V))
                               IN NQ(Count(s, LAMBDA d : Lim(e, e.t, V) \prec d), Len(s) + 1)
                    want == \E c \in 1..Len(e.v) : NP(e.wthr) \prec Frac(c)
                IN e.warned = want)
=============================================================================
