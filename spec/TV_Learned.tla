----------------------------- MODULE TV_Learned -----------------------------
EXTENDS Learned, TraceBase
Same(name, a, b) == NClose(a, b, NQ(1, 10000000), IF name = "deriv_backward_rolling_stdev" THEN NQ(1, 1000000) ELSE NQ(1, 100000000))
Shape(e, P) ==
    LET ft == TLCEval(Features(e.t, e.mid, P, e.f, e.mount))
        ks == TLCEval(Complete(ft))
        wrong(c, got) == {j \in 1..Len(ks) : ~Same(Names[c], ft.x[c][ks[j]], got[j])}
    IN IF e.rows # Tab(Len(ks), LAMBDA j : ft.t[ks[j]]) THEN {"the model is shown every interval whose features are known, and no other"}
       ELSE Clause("the model is shown the features it was trained on", e.cols = Names)
            \cup UNION {LET bad == TLCEval(wrong(c, NumSeq(e.x[c])))
                        IN IF bad = {} THEN {} ELSE {"feature " \o Names[c] \o " of interval " \o ToString(e.rows[IMin(bad)])} : c \in 1..Len(e.x)}
Judge0(e) ==
    LET P == NumSeq(e.p)
    IN Shape(e, P)
       \cup MaskClause("excluded exactly in the band of the answers near the day's top",
                       LET v == TLCEval(Verdicts(e.t, e.mid, P, e.f, e.rows, e.yes)) IN Tab(Len(P), LAMBDA i : TNot(v[i])), e.keep)
Verdict(e) ==
    IF e.err # "" THEN {"raised " \o e.err}
    ELSE Clause("boolean mask on exactly the input's index", e.index)
         \cup Clause("the trained model decides", e.asked)
         \cup Clause("the given record is left as it was", e.same)
         \cup (IF e.rows # <<>> THEN Judge0(e) ELSE {})
=============================================================================
