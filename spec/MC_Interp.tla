------------------------------ MODULE MC_Interp ------------------------------
(***************************************************************************)
(* A data logger records samples one after the other (some missing, with   *)
(* arbitrary spacing).  In every reachable record the interpolation        *)
(* operator satisfies the guarantees of C01, and every complete record     *)
(* becomes a conformance case.                                             *)
(***************************************************************************)
EXTENDS Interp, Json
CONSTANTS MaxSamples, Gaps, Values, GapLimits, Emit
VARIABLES T, raw, G, done          \* raw: recorded integers, Missing for a lost sample
vars == <<T, raw, G, done>>
V == Numbers(raw)
Init == /\ T = <<0>> /\ \E v \in Values \cup {Missing} : raw = <<v>>
        /\ G \in GapLimits /\ done = FALSE
Record(d, v) == /\ ~done /\ Len(T) < MaxSamples
                /\ T' = Append(T, T[Len(T)] + d)
                /\ raw' = Append(raw, v)
                /\ UNCHANGED <<G, done>>
Stop == /\ ~done /\ Len(T) = MaxSamples /\ Len(VT(T, V)) >= 2
        /\ done' = TRUE /\ UNCHANGED <<T, raw, G>>
        /\ Emit => PrintT(<<"CASE", ToJson([t |-> T, v |-> raw, g |-> G])>>)
Next == Stop \/ \E d \in Gaps, v \in Values \cup {Missing} : Record(d, v)
Spec == Init /\ [][Next]_vars

Lim == IF G = 0 THEN DefaultGap(VT(T, V)) ELSE NI(G)
Targets == (T[1] - 1)..(T[Len(T)] + 1)
At(t) == InterpAt(VT(T, V), VV(V), t, Lim)
vt == VT(T, V)
Has2 == Len(vt) >= 2
\* recorded samples are returned unchanged
Faithful == Has2 => \A i \in 1..Len(T) : ~IsNaN(V[i]) => At(T[i]) = V[i]
\* nothing outside the record, nothing inside an over-long gap
NoInvention == Has2 =>
    /\ \A t \in Targets : (t < vt[1] \/ t > vt[Len(vt)]) => IsNaN(At(t))
    /\ \A i \in 1..(Len(vt)-1) : Lim \prec NI(vt[i+1] - vt[i]) =>
          \A t \in (vt[i]+1)..(vt[i+1]-1) : IsNaN(At(t))
\* bridged values lie between the neighbouring samples
Between == Has2 => \A t \in Targets : ~IsNaN(At(t)) =>
    \E i \in 1..Len(vt) : \E j \in 1..Len(vt) : /\ vt[i] <= t /\ t <= vt[j]
                                                /\ At(t) \preceq NMax(VV(V)[i], VV(V)[j])
                                                /\ NMin(VV(V)[i], VV(V)[j]) \preceq At(t)
\* a larger limit never loses a value and never changes one
Monotone == Has2 => \A t \in Targets : LET b == InterpAt(vt, VV(V), t, Lim \oplus One)
                                       IN ~IsNaN(At(t)) => b = At(t)
\* interpolating onto the recorded timestamps loses nothing
Idempotent == Has2 => VV(InterpSeq(T, V, vt, Lim)) = VV(V)
\* a recorded sample only ever changes the values between its neighbours
Local == [][Has2 /\ Len(T') > Len(T) /\ ~IsNaN(V'[Len(V')]) =>
            \A t \in T[1]..vt[Len(vt)] :
               InterpAt(VT(T', V'), VV(V'), t, NI(2)) = InterpAt(vt, VV(V), t, NI(2))]_vars
=============================================================================
