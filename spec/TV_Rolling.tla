----------------------------- MODULE TV_Rolling -----------------------------
EXTENDS Filters, TraceBase
Want(e) ==
    LET s == NumSeq(e.s)
    IN CASE e.op = "two_way" -> TwoWayMask(e.t, s, e.win, e.pts, NP(e.p), e.exact)
         [] e.op = "hampel"  -> HampelMask(e.t, s, e.win, e.pts, NP(e.p), e.exact)
         [] e.op = "tukey"   -> TukeyMask(e.t, s, e.win, e.pts, NP(e.p), e.exact)
Verdict(e) ==
    IF e.err # "" THEN {e.op \o " raised " \o e.err}
    ELSE MaskClause(e.op \o " filter", Want(e), e.mask)
         \cup Clause(e.op \o " filter: boolean mask on the input's index", e.shape_ok)
=============================================================================
