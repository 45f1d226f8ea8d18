----------------------------- MODULE MC_Rolling -----------------------------
EXTENDS Filters, Json
CONSTANTS MaxLen, Gaps, Values, Windows, Emit
VARIABLES T, raw, win, done
vars == <<T, raw, win, done>>
s == Numbers(raw)
Init == T = <<0>> /\ (\E v \in Values : raw = <<v>>) /\ win \in Windows /\ done = FALSE
Add(d, v) == /\ ~done /\ Len(T) < MaxLen /\ T' = Append(T, T[Len(T)] + d) /\ raw' = Append(raw, v) /\ UNCHANGED <<win, done>>
Stop == /\ ~done /\ Len(T) = MaxLen /\ done' = TRUE /\ UNCHANGED <<T, raw, win>>
        /\ Emit => PrintT(<<"CASE", ToJson([t |-> T, v |-> raw, win |-> win])>>)
Next == Stop \/ \E d \in Gaps, v \in Values : Add(d, v)
Spec == Init /\ [][Next]_vars
Thr == NQ(1, 32)
TW(x) == TwoWayMask(T, x, win, 0, Thr, TRUE)
HA(x) == HampelMask(T, x, win, 0, NI(3), TRUE)
TU(x) == TukeyMask(T, x, win, 0, NQ(3, 2), TRUE)
x3 == Tab(Len(s), LAMBDA i : s[i] \otimes NI(3))
Ready == done
ScaleFree == Ready => TW(x3) = TW(s) /\ HA(x3) = HA(s) /\ TU(x3) = TU(s)
\* reversing time swaps the two directions: the two-way and the Tukey decisions are mirrored
n == Len(T)
RT == Tab(n, LAMBDA i : T[n] - T[n + 1 - i])
Rev(q) == Tab(n, LAMBDA i : q[n + 1 - i])
Mirror == Ready => TwoWayMask(RT, Rev(s), win, 0, Thr, TRUE) = Rev(TW(s)) /\ TukeyMask(RT, Rev(s), win, 0, NQ(3, 2), TRUE) = Rev(TU(s))
\* larger tolerance keeps more
Widen == Ready => \A i \in 1..n : /\ TW(s)[i] = "T" => TwoWayMask(T, s, win, 0, NQ(1, 8), TRUE)[i] = "T"
                                  /\ TU(s)[i] = "T" => TukeyMask(T, s, win, 0, NI(3), TRUE)[i] = "T"
                                  /\ HA(s)[i] # "F" => HampelMask(T, s, win, 0, NI(9), TRUE)[i] # "F"
\* only the point's own window matters
Local == Ready => \A i \in 1..n : \A j \in 1..n : (T[j] - T[i] > win \/ T[i] - T[j] > win) /\ ~IsNaN(s[j]) =>
            LET b == [s EXCEPT ![j] = NI(40)]
            IN MedOf(b, Back(T, i, win, 0), 5) = MedOf(s, Back(T, i, win, 0), 5) /\ MedOf(b, Fwd(T, i, win, 0), 5) = MedOf(s, Fwd(T, i, win, 0), 5)
\* a sparse neighbourhood never excludes a point from the two-way filter
Sparse == Ready => \A i \in 1..n : Len(Slice(s, Back(T, i, win, 0))) < 5 => TW(s)[i] = "T"
=============================================================================
