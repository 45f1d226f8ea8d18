---------------------------- MODULE TV_Normalize ----------------------------
EXTENDS Normalize, TraceBase
(***************************************************************************)
(* ops: "expected"  normalize_with_expected_power                          *)
(*      "pvwatts"   normalize_with_pvwatts (model built from poa, tcell)   *)
(*      "dc"        pvwatts_dc_power                                       *)
(***************************************************************************)
S(t, v) == [t |-> t, v |-> NumSeq(v)]
DC(e) == LET poa == NumSeq(e.poa)  tc == NumSeq(e.tcell)
         IN Tab(Len(poa), LAMBDA i : PVWatts(poa[i], NP(e.rated), NP(e.ref), e.hasT, IF e.hasT THEN tc[i] ELSE Zero, NP(e.tref), NP(e.gamma)))
Modelled(e) == IF e.op = "expected" THEN S(e.mt, e.model) ELSE [t |-> e.mt, v |-> DC(e)]
Agree(e, r) == /\ e.out_t = r.t
               /\ CloseSeq(r.norm, NumSeq(e.norm)) /\ CloseSeq(r.ins, NumSeq(e.ins))
Explain(e, r) == Clause("result index is the union of measured and modelled intervals", e.out_t = r.t)
                 \cup SeqClause("normalized energy", r.norm, NumSeq(e.norm))
                 \cup SeqClause("insolation", r.ins, NumSeq(e.ins))
Verdict(e) ==
    IF e.refuse # "" THEN Clause("must be refused with " \o e.refuse, e.err = e.refuse)
    ELSE IF e.err # "" THEN {"raised " \o e.err}
    ELSE IF e.op = "dc" THEN SeqClause("PVWatts power", DC(e), NumSeq(e.out))
    ELSE LET pv == S(e.t, e.v)
             model == Modelled(e)
             poa == S(e.it, e.poa)
             c == Coarser(pv, e.energy, model, e.w)
             R(b) == Expected(pv, e.energy, model, poa, e.w, e.per_hour, b)
         IN IF c # "?" THEN Explain(e, R(c = "T"))
            ELSE IF Agree(e, R(TRUE)) THEN {} ELSE Explain(e, R(FALSE))
=============================================================================
