---------------------------- MODULE MC_Aggregate ----------------------------
EXTENDS Aggregate, Json
CONSTANTS MaxPoints, Gaps, Values, Weights, Emit
VARIABLES t, rx, rw, done
vars == <<t, rx, rw, done>>
x == Numbers(rx)
w == Numbers(rw)
Init == t = <<0>> /\ \E v \in Values, u \in Weights : rx = <<v>> /\ rw = <<u>> /\ done = FALSE
Add(d, v, u) == /\ ~done /\ Len(t) < MaxPoints
                /\ t' = Append(t, t[Len(t)] + d) /\ rx' = Append(rx, v) /\ rw' = Append(rw, u) /\ UNCHANGED done
Stop == /\ ~done /\ Len(t) = MaxPoints /\ done' = TRUE /\ UNCHANGED <<t, rx, rw>>
        /\ Emit => PrintT(<<"CASE", ToJson([t |-> t, x |-> rx, w |-> rw])>>)
Next == Stop \/ \E d \in Gaps, v \in Values, u \in Weights : Add(d, v, u)
Spec == Init /\ [][Next]_vars
\* times are half-days; periods are days
Days == Tab(Len(t), LAMBDA i : t[i] \div 2)
Agg(xx, ww) == Aggregated(<<"D", 1>>, Days, t, 0, xx, ww).vals
A == Agg(x, w)
In(p) == {i \in 1..Len(t) : Days[i] - Days[1] = p - 1 /\ ~IsNaN(x[i]) /\ ~IsNaN(w[i])}
\* the mean lies between the contributing extremes
Bounded == \A p \in 1..Len(A) : Fin(A[p]) =>
    \E i, j \in In(p) : x[i] \preceq A[p] /\ A[p] \preceq x[j]
\* missing exactly when no weight falls in the period
MissingIff == \A p \in 1..Len(A) : IsNaN(A[p]) <=> \A i \in In(p) : NEq(w[i], Zero)
\* scaling all weights changes nothing; scaling the values scales the result
Scale == LET B == Agg(x, Tab(Len(w), LAMBDA i : w[i] \otimes NI(7)))  C == Agg(Tab(Len(x), LAMBDA i : x[i] \otimes NI(7)), w)
         IN B = A /\ \A p \in 1..Len(A) : IsNaN(A[p]) \/ C[p] = A[p] \otimes NI(7)
\* a point without a value is as good as absent
Absent == \A i \in 1..Len(x) : IsNaN(x[i]) =>
    Agg(x, [w EXCEPT ![i] = NaN]) = A
\* a constant series aggregates to the constant
Const == \A p \in 1..Len(A) : LET c == Agg(Tab(Len(x), LAMBDA i : NI(4)), w)[p] IN IsNaN(c) \/ c = NI(4)
=============================================================================
