---------------------------- MODULE TV_Workflow ----------------------------
EXTENDS Workflow, TraceBase
(* kind "series": short records, the reported series against the whole composition *)
(* kind "result": long records, the reported results against the analysis of the   *)
(* reported series, and the two-year rule                                          *)
Fits(e, S) == /\ S.out.labels = e.labels
              /\ CloseSeq(S.out.perf, NumSeq(e.perf)) /\ CloseSeq(S.out.ins, NumSeq(e.ins))
Why(e, S) ==
    Clause("the PV energy has the documented intervals", S.energy.t = e.out_energy.t)
    \cup SeqClause("PV energy", S.energy.v, NumSeq(e.out_energy.v))
    \cup SeqClause("irradiance on the PV index", S.poa.v, NumSeq(e.out_poa))
    \cup (IF Given(S.tcell) THEN SeqClause("cell temperature", S.tcell.v, NumSeq(e.out_tcell)) ELSE {})
    \cup Clause("periods of the performance series", S.out.labels = e.labels)
    \cup SeqClause("performance", S.out.perf, NumSeq(e.perf))
    \cup SeqClause("aggregated insolation", S.out.ins, NumSeq(e.ins))
Series1(e) ==
    IF e.refuse # "" THEN Clause("must be refused: " \o e.refuse, e.err # "")
    ELSE IF e.err # "" THEN {"raised " \o e.err}
    ELSE LET a == Stages(e, FALSE)
         IN IF ~a.sure \/ (Fits(e, a) /\ a.coarse # "T") THEN (IF a.sure THEN Why(e, a) ELSE {})
            ELSE IF a.coarse = "F" THEN Why(e, a)
            ELSE LET b == Stages(e, TRUE) IN IF ~b.sure THEN {} ELSE Why(e, b)
Result(e) ==
    \* span of the reported series in minutes; e.own: the analysis itself accepts the series
    LET short == e.span < 730 * 1440
    IN Clause("less than two years of filtered data is refused", short /\ e.asks_yoy => e.err # "")
       \cup Clause("two years of filtered data are analysed", (~short \/ ~e.asks_yoy) /\ e.own => e.err = "")
       \cup Clause("reported results are those of the analysis of the reported series", e.err # "" \/ e.same)
       \cup Clause("the reported series has the aggregation frequency", e.regular)
Verdict(e) == IF e.kind = "series" THEN Series1(e) ELSE Result(e)
=============================================================================
