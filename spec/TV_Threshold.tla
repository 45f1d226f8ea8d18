---------------------------- MODULE TV_Threshold ----------------------------
EXTENDS Filters, TraceBase
Want(e) ==
    LET s == NumSeq(e.s)
    IN CASE e.op \in {"normalized", "poa", "tcell"} -> BandMask(s, NP(e.lo), NP(e.hi))
         [] e.op = "csi" -> CsiMask(s, NumSeq(e.c), NP(e.thr), e.ex)
         [] e.op = "quantile" -> QuantileClipMask(s, NP(e.q))
         [] e.op = "insolation" -> InsolationMask(s, NP(e.q), e.exact)
Rob(e) == LET s == NumSeq(e.s)  q == NP(e.q)
          IN CASE e.op = "robust_quantile" -> RobustQuantile(s, q)
               [] e.op = "robust_median" -> RobustMedian(s, q)
               [] e.op = "robust_mean" -> RobustMean(s, q)
Verdict(e) ==
    IF e.refuse # "" THEN Clause(e.op \o " must be refused", e.err = e.refuse)
    ELSE IF e.err # "" THEN {e.op \o " raised " \o e.err}
    ELSE IF e.op \in {"robust_quantile", "robust_median", "robust_mean"}
         THEN IF ~RobustSafe(NumSeq(e.s), NP(e.q)) THEN {} ELSE SeqClause(e.op, <<Rob(e)>>, <<NP(e.out)>>)
    ELSE MaskClause(e.op \o " filter", Want(e), e.mask)
         \cup Clause(e.op \o " filter: boolean mask on the input's index", e.shape_ok)
=============================================================================
