------------------------------ MODULE MC_Energy ------------------------------
(***************************************************************************)
(* A meter records power samples (irregularly, some lost).  Invariants of  *)
(* the energy operator in every reachable record; complete records become  *)
(* conformance cases.                                                      *)
(***************************************************************************)
EXTENDS Energy, Json
CONSTANTS MaxSamples, Gaps, Values, GapLimits, Widths, Emit
VARIABLES T, raw, cfg, done
vars == <<T, raw, cfg, done>>
V == Numbers(raw)
Kinds == {"right_labeled", "instantaneous"}
Init == /\ T = <<0>> /\ \E v \in Values : raw = <<v>>
        /\ cfg \in [g : GapLimits, w : Widths, kind : Kinds] /\ done = FALSE
Record(d, v) == /\ ~done /\ Len(T) < MaxSamples
                /\ T' = Append(T, T[Len(T)] + d) /\ raw' = Append(raw, v)
                /\ UNCHANGED <<cfg, done>>
Stop == /\ ~done /\ Len(T) = MaxSamples /\ Len(VT(T, V)) >= 1
        /\ done' = TRUE /\ UNCHANGED <<T, raw, cfg>>
        /\ Emit => PrintT(<<"CASE", ToJson([t |-> T, v |-> raw, g |-> cfg.g, w |-> cfg.w, kind |-> cfg.kind])>>)
Next == Stop \/ \E d \in Gaps, v \in Values : Record(d, v)
Spec == Init /\ [][Next]_vars

vt == VT(T, V)
vv == VV(V)
Ready == Len(T) >= 2 /\ Len(vt) >= 1
Lim == IF cfg.g = 0 THEN MedianStep(T) ELSE NI(cfg.g)
Out(w, g) == EnergyFromPower(cfg.kind, T, V, w, g, 1)
Big == NI(1000)
\* the exact integral of the whole record
Whole == NSum(Tab(Len(vt) - 1, LAMBDA j : StretchIntegral(cfg.kind, vt[j], vv[j], vt[j+1], vv[j+1], vt[j], vt[j+1])))
Coarse(w) == ~Refines(T, w)
\* without over-long gaps energy is conserved at every coarser target width
Conserved == Ready /\ Len(vt) >= 2 /\ Coarse(cfg.w) => SumV(Out(cfg.w, Big)) = Whole
\* regridding: doubling the width merges pairs of intervals
Merges == Ready /\ Coarse(cfg.w) =>
    LET a == Out(cfg.w, Big)  b == Out(2 * cfg.w, Big)
    IN \A k \in 1..Len(b) : LET parts == SubSeq(a, 2*k - 1, IF 2*k <= Len(a) THEN 2*k ELSE Len(a))
                            IN IF Len(Valid(parts)) = 0 THEN IsNaN(b[k]) ELSE b[k] = SumV(parts)
\* gap limits only ever remove energy (values are non-negative here)
Removes == Ready => LET a == Out(cfg.w, Lim)  b == Out(cfg.w, Big)
                    IN Len(a) = Len(b) /\ \A k \in 1..Len(a) : ~IsNaN(a[k]) => a[k] \preceq b[k]
\* no energy before the first or after the last recorded sample
NoInvention == Ready => LET e == Edges(T, cfg.w)  a == Out(cfg.w, Lim)
    IN \A k \in 1..Len(a) : (e[k] >= vt[Len(vt)] \/ e[k+1] <= vt[1]) => IsNaN(a[k])
\* an interval whose end lies in an over-long sampling gap is missing
GapMissing == Ready => LET e == Edges(T, cfg.w)  a == Out(cfg.w, Lim)
    IN \A k \in 1..Len(a) : \A i \in 1..(Len(T)-1) :
         (T[i] < e[k+1] /\ e[k+1] <= T[i+1] /\ Lim \prec NI(T[i+1] - T[i])) => IsNaN(a[k])
\* the grid starts at the first timestamp and covers the record
Covers == Ready => LET e == Edges(T, cfg.w)
    IN e[1] = T[1] /\ (Coarse(cfg.w) => e[Len(e)] >= T[Len(T)] /\ e[Len(e)] < T[Len(T)] + cfg.w)
=============================================================================
