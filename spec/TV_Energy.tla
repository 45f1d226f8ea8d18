------------------------------ MODULE TV_Energy ------------------------------
EXTENDS Energy, TraceBase
(***************************************************************************)
(* record: t, v, kind, w (0 = default: median step), g ("0" = default),    *)
(* per_hour; out_t, out: the returned intervals' right edges and energies  *)
(***************************************************************************)
Lim(e) == IF e.g = "0" THEN MedianStep(e.t) ELSE NP(e.g)
Width(e) == IF e.w = 0 THEN NFloor(MedianStep(e.t)) ELSE e.w
Whole(e, V) == EnergyFromPower(e.kind, e.t, V, Width(e), Lim(e), e.per_hour)
Single(e, V) == <<V[1] \otimes NQ(e.w, e.per_hour)>>
Verdict(e) ==
    LET V == NumSeq(e.v)
        edges == Edges(e.t, Width(e))
    IN IF e.refuse # "" THEN Clause("invalid request must be refused with " \o e.refuse, e.err = e.refuse)
       ELSE IF e.err # "" THEN {"raised " \o e.err}
       ELSE IF Len(e.t) = 1 THEN SeqClause("single-sample energy", Single(e, V), NumSeq(e.out))
       ELSE Clause("energy intervals: regular grid anchored at the first timestamp",
                   e.out_t = SubSeq(edges, 2, Len(edges)))
            \cup SeqClause("energy of interval", Whole(e, V), NumSeq(e.out))
            \cup Clause("series is named energy_Wh", e.name_ok)
=============================================================================
