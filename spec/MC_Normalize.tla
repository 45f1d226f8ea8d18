---------------------------- MODULE MC_Normalize ----------------------------
(***************************************************************************)
(* A PV meter (spacing wp) and a model (spacing wm, phase off) record side *)
(* by side.                                                                *)
(***************************************************************************)
EXTENDS Normalize, Json
CONSTANTS WP, WM, Offsets, Values, NP_, NM_, Emit
VARIABLES wp, wm, off, pv, mod, isE, done
vars == <<wp, wm, off, pv, mod, isE, done>>
Init == /\ wp \in WP /\ wm \in WM /\ off \in Offsets /\ isE \in BOOLEAN
        /\ pv = <<>> /\ mod = <<>> /\ done = FALSE
MeterPV(v) == ~done /\ Len(pv) < NP_ /\ pv' = Append(pv, v) /\ UNCHANGED <<wp, wm, off, mod, isE, done>>
Model(v) == ~done /\ Len(pv) = NP_ /\ Len(mod) < NM_ /\ mod' = Append(mod, v) /\ UNCHANGED <<wp, wm, off, pv, isE, done>>
Grid(n, w, o) == Tab(n, LAMBDA k : o + (k - 1) * w)
Ser(w, o, raw) == [t |-> Grid(Len(raw), w, o), v |-> Numbers(raw)]
Complete == Len(pv) = NP_ /\ Len(mod) = NM_ /\ Len(Valid(Numbers(mod))) >= 2
Stop == /\ ~done /\ Complete /\ done' = TRUE /\ UNCHANGED <<wp, wm, off, pv, mod, isE>>
        /\ Emit => PrintT(<<"CASE", ToJson([wp |-> wp, wm |-> wm, off |-> off, pv |-> pv, mod |-> mod, energy |-> isE])>>)
Next == Stop \/ \E v \in Values : MeterPV(v) \/ Model(v)
Spec == Init /\ [][Next]_vars

PV(f) == LET s == Ser(wp, 0, pv) IN [s EXCEPT !.v = Tab(Len(s.v), LAMBDA i : s.v[i] \otimes NI(f))]
Mod == Ser(wm, off, mod)
Interp1 == Coarser(PV(1), isE, Mod, wp) = "T"
Res(f) == Expected(PV(f), isE, Mod, Mod, wp, 1, Interp1)
\* scaling the measurement scales the normalized values and nothing else
Scales == done => LET a == Res(1)  b == Res(3)
    IN a.t = b.t /\ a.ins = b.ins
       /\ \A k \in 1..Len(a.t) : LET x == a.norm[k] \otimes NI(3) IN (IsNaN(x) /\ IsNaN(b.norm[k])) \/ x = b.norm[k]
\* where both meters saw the same energy the ratio is one
Unity == done /\ isE = FALSE /\ pv = mod /\ wp = wm /\ off = 0 =>
         \A k \in 1..Len(Res(1).t) : LET x == Res(1).norm[k] IN IsNaN(x) \/ x = One
\* a ratio exists only where both sides have data
Support == done => LET a == Res(1)
                       m == EnergySeries(IF Interp1 THEN OnIndex(Mod, PV(1).t) ELSE Mod, wp, 1)
                   IN \A k \in 1..Len(a.t) : Fin(a.norm[k]) => Fin(At(m, a.t[k]))
=============================================================================
