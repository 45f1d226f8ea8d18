---------------------------- MODULE TV_ClearSky ----------------------------
EXTENDS ClearSky, Workflow, RescaleCheck
(* A trend analysis whose clear sky is modelled, recorded after its last analysis. *)
(* e.flow: the record of TV_Workflow; minute values of sun and sky from the first  *)
(* to the last PV timestamp; "nan" where the orientation of the module is unknown. *)
Minutes(e) == Tab(Len(e.zen), LAMBDA k :
    IF e.tilt[k] = "nan" \/ e.azm[k] = "nan" THEN NaN
    ELSE Transposed(NP(e.zen[k]), NP(e.az[k]), NP(e.dni[k]), NP(e.ghi[k]), NP(e.dhi[k]), NP(e.tilt[k]), NP(e.azm[k]), NP(e.albedo)))
Compose(f) ==
    LET a == Stages(f, FALSE)
        Bad(S) == Clause("the PV energy has the documented intervals", S.energy.t = f.out_energy.t)
                  \cup (IF Given(S.tcell) THEN SeqClause("cell temperature", S.tcell.v, NumSeq(f.out_tcell)) ELSE {})
                  \cup Clause("periods of the performance series", S.out.labels = f.labels)
                  \cup SeqClause("performance", S.out.perf, NumSeq(f.perf))
                  \cup SeqClause("aggregated insolation", S.out.ins, NumSeq(f.ins))
    IN IF ~a.sure THEN {} ELSE IF a.coarse # "T" /\ Bad(a) = {} THEN {}
       ELSE IF a.coarse = "F" THEN Bad(a) ELSE LET b == Stages(f, TRUE) IN IF b.sure THEN Bad(b) ELSE {}
Modelled(e) ==
    LET f == e.flow
        pv == TLCEval(PVIndex(Ser(f.pv), f.interp, f.gap))
        meas == TLCEval(OnPV(Ser(f.poa), pv.t, f.gap).v)
        s == TLCEval(IntervalMeans(pv.t, TLCEval(Minutes(e))))
        known == \E i \in 1..Len(s) : Fin(s[i]) /\ ~NEq(s[i], Zero)
    IN IF f.cs_poa.t # pv.t THEN {"the modelled clear sky is on the PV index"}
       ELSE IF ~known THEN {}
       ELSE IterativeOf(meas, s, [out |-> f.cs_poa.v, thr |-> "1/1000000", maxit |-> 100, copy |-> FALSE, truth |-> "1", err |-> ""])
            \cup (IF e.climate = <<>> THEN {} ELSE SeqClause("ambient temperature of the climatology", NumSeq(e.climate), NumSeq(f.cs_tamb.v)))
Verdict(e) ==
    IF e.flow.refuse # "" THEN Clause("must be refused: " \o e.flow.refuse, e.flow.err # "")
    ELSE IF e.flow.err = "ConvergenceError" THEN {}
    ELSE IF e.flow.err # "" THEN {"raised " \o e.flow.err}
    ELSE Clause("what the user gave is kept", e.kept)
         \cup (IF e.flow.modelled THEN Modelled(e) ELSE {})
         \cup Compose(e.flow)
=============================================================================
