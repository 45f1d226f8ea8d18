----------------------------- MODULE TV_Rescale -----------------------------
EXTENDS RescaleCheck
Single(e) ==
    IF e.err # "" THEN {"single_opt raised " \o e.err}
    ELSE LET a == NumSeq(e.a)  s == NumSeq(e.s)  out == NumSeq(e.out)
             f == TLCEval(OneFactor(s, out))
             r0 == TLCEval(Rmse2(a, s, Guess(a, s)))  r1 == TLCEval(Rmse2(a, s, f))
         IN Clause("one positive factor times the modelled series", Fin(f) /\ Zero \prec f)
            \cup Clause("factor fits at least as well as the initial guess",
                        IsNaN(r0) \/ IsNaN(r1) \/ r1 \preceq ((r0 \otimes NQ(1000001, 1000000)) \oplus NQ(1, 1000000)) \/ e.edge)
            \cup Clause("scaled copy is recovered", ~e.copy \/ NAbs(f \ominus NP(e.truth)) \preceq (NQ(1, 100000) \otimes f))
Verdict(e) ==
    IF e.refuse # "" THEN Clause("must be refused: " \o e.why, e.err = e.refuse)
    ELSE Clause("same index", e.index) \cup (IF e.method = "iterative" THEN Iterative(e) ELSE Single(e))
=============================================================================
