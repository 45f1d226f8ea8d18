---------------------------- MODULE RescaleCheck ----------------------------
(* Judging a recorded rescaling: one factor, the least-squares factor of its own clear set. *)
EXTENDS Rescale, TraceBase
\* the optimizer of the implementation locates a factor only to about 1e-4
Slack0(f) == NQ(1, 2000) \otimes NMax(NAbs(f), NQ(1, 10))
Margin == NQ(1, 500)
\* exact run unambiguous up to step k: no point near a boundary under any iterate
Sharp(a, s, it) == \A j \in 1..Len(it) : \A i \in 1..Len(a) : ClearTF(a, s, it[j], i, NQ(1, 100)) # "?"
Settles(it, thr) == Len(it) >= 2 /\ NAbs(it[Len(it)] \ominus it[Len(it)-1]) \preceq thr
Jumps(it) == \A j \in 2..Len(it) : Slack0(it[j]) \otimes NI(20) \prec NAbs(it[j] \ominus it[j-1])
Rmse2(a, s, f) == LET S == TLCEval({i \in 1..Len(a) : LET c == a[i] \oslash (f \otimes s[i]) IN NQ(8, 10) \preceq c /\ c \preceq NQ(12, 10)})
                      d == Tab(Len(a), LAMBDA i : IF i \in S THEN (f \otimes s[i]) \ominus a[i] ELSE Zero)
                  IN IF S = {} THEN NaN ELSE NDot(d, d) \oslash NI(Cardinality(S))
OneFactor(s, out) == \* the common factor, NaN if there is none
    LET k == SelectSeq(Tab(Len(s), LAMBDA i : i), LAMBDA i : Fin(s[i]) /\ ~NEq(s[i], Zero))
        f == out[k[1]] \oslash s[k[1]]
    IN IF Len(out) = Len(s) /\ \A i \in 1..Len(s) : NClose(out[i], f \otimes s[i], NQ(1, 1000000000), NQ(1, 1000000000)) THEN f ELSE NaN
\* a: measured, s: modelled irradiance, e: the options and the outcome
IterativeOf(a, s, e) ==
    LET thr == NP(e.thr)
        Slack(x) == Slack0(x) \oplus (thr \otimes NI(2))
        it == TLCEval(Iterates(a, s, Guess(a, s), e.maxit + 1, thr))
        sharp == Sharp(a, s, it)
        empty == Clear(a, s, it[Len(it)]) = {}
    IN IF e.err = "ConvergenceError"
       THEN Clause("raises although the factors settle early", ~(sharp /\ Settles(it, thr) /\ Len(it) + 20 <= e.maxit))
       ELSE IF e.err # "" THEN {"irradiance_rescale raised " \o e.err}
       ELSE LET out == NumSeq(e.out)
                f == TLCEval(OneFactor(s, out))
                sure == TLCEval({i \in 1..Len(a) : ClearTF(a, s, f, i, Margin) = "T"})
                amb == TLCEval({i \in 1..Len(a) : ClearTF(a, s, f, i, Margin) = "?"})
                hi == sure \cup {i \in amb : f \prec Ratio(a, s, i)}
                lo == sure \cup {i \in amb : Ratio(a, s, i) \prec f}
            IN Clause("one positive factor times the modelled series", Fin(f) /\ Zero \prec f)
               \cup (IF ~Fin(f) \/ ~(Zero \prec f) THEN {} ELSE
                    Clause("factor is the least-squares factor of its own clear set",
                       sure = {} \/ ((LS(a, s, lo) \ominus Slack(f)) \preceq f /\ f \preceq (LS(a, s, hi) \oplus Slack(f))))
                    \cup Clause("factor is the limit of the iteration",
                       ~(sharp /\ Settles(it, thr)) \/ NAbs(f \ominus it[Len(it)]) \preceq Slack(f))
                    \cup Clause("returned although successive factors do not settle", ~(sharp /\ Len(it) = e.maxit + 2 /\ Jumps(it)))
                    \cup Clause("scaled copy is recovered", ~e.copy \/ NAbs(f \ominus NP(e.truth)) \preceq (NQ(1, 100000) \otimes f)))
Iterative(e) == IterativeOf(NumSeq(e.a), NumSeq(e.s), e)
=============================================================================
