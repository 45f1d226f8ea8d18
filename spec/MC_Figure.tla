----------------------------- MODULE MC_Figure -----------------------------
(* Rates are drawn one by one into bars and into the moving median.          *)
EXTENDS Figure, Json
CONSTANTS Vals, MaxLen, Gaps, MaxBars
VARIABLES w, ts
vars == <<w, ts>>
v == Tab(Len(w), LAMBDA i : NI(w[i] - 2))
Init == w = <<>> /\ ts = <<>>
Next == /\ Len(w) < MaxLen
        /\ \E x \in Vals, g \in Gaps : w' = Append(w, x) /\ ts' = Append(ts, (IF ts = <<>> THEN 0 ELSE ts[Len(ts)] + g * 86400))
        /\ PrintT(<<"CASE", ToJson([w |-> w', ts |-> ts'])>>)
Spec == Init /\ [][Next]_vars
\* every rate is in exactly one bar, whatever the number of bars
Mass == \A b \in 1..MaxBars : w = <<>> \/ LET e == Edges(v, b)  c == BarCounts(v, e) IN ISum(c) = Len(v) /\ CountsOk(v, e, c)
BarsInOrder == \A b \in 1..MaxBars : w = <<>> \/ LET e == Edges(v, b) IN \A k \in 1..b : e[k] \prec e[k + 1]
AtLeastOneBar == \A n \in 1..100 : Bars(0, n) >= 1 /\ Bars(0, n) <= n
\* the moving median lies within the rates, needs half a window, and over a long window is the median so far
Within == \A d \in 1..4 : LET m == Moving(ts, v, d) IN \A i \in 1..Len(v) : IsNaN(m[i]) \/ (MinV(v) \preceq m[i] /\ m[i] \preceq MaxV(v))
Half == \A d \in 2..6 : LET m == Moving(ts, v, d) IN \A i \in 1..Len(v) : IsNaN(m[i]) = (i - Window(ts, i, d) + 1 < d \div 2)
Recent == \A d \in 1..4, i \in 1..Len(v) : \A j \in 1..i : (j >= Window(ts, i, d)) = (ts[i] - ts[j] < d * 86400)
\* no degradation gives a flat line, and the line is linear in the rate
Flat == TrendEnd(Zero, 1000 * 86400) = One /\ \A y \in 1..4 : TrendEnd(NI(-1), 1461 * 86400 * y) = One \ominus NQ(4 * y, 100)
=============================================================================
