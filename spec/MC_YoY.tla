------------------------------- MODULE MC_YoY -------------------------------
(***************************************************************************)
(* A daily-or-coarser performance series grows point by point, around leap *)
(* days and eight-day limits.                                              *)
(***************************************************************************)
EXTENDS YoY, Json
CONSTANTS MaxLen, Starts, Gaps, Values, Emit
VARIABLES d, raw, done
vars == <<d, raw, done>>
Init == (\E x \in Starts, v \in Values : d = <<x>> /\ raw = <<v>>) /\ done = FALSE
Add(g, v) == /\ ~done /\ Len(d) < MaxLen /\ d' = Append(d, d[Len(d)] + g) /\ raw' = Append(raw, v) /\ UNCHANGED done
Stop == /\ ~done /\ Len(d) = MaxLen /\ done' = TRUE /\ UNCHANGED <<d, raw>>
        /\ Emit => PrintT(<<"CASE", ToJson([d |-> d, v |-> raw])>>)
Next == Stop \/ \E g \in Gaps, v \in Values : Add(g, v)
Spec == Init /\ [][Next]_vars
n == Len(d)
v == Numbers(raw)
P == [d |-> d, s |-> Tab(n, LAMBDA i : 0), o |-> Tab(n, LAMBDA i : 0), o1 |-> Tab(n, LAMBDA i : 0), o2 |-> 0, exactstep |-> TRUE]
A == AbsSeq(P)
N == AnnSeq(P)
part == Tab(n, LAMBDA j : Partners(A, N, j))
\* partners are a calendar year to a year and eight days older, and the best such
Paired == \A j \in 1..n : \A i \in part[j] :
    /\ PlusYears(d[i], 1) <= d[j] /\ d[j] <= PlusYears(d[i], 1) + 8
    /\ ~ \E k \in 1..n : PlusYears(d[k], 1) <= d[j] /\ PlusYears(d[k], 1) > PlusYears(d[i], 1)
NoneMissed == \A j \in 1..n : part[j] = {} => ~ \E k \in 1..n : PlusYears(d[k], 1) <= d[j] /\ d[j] <= PlusYears(d[k], 1) + 8
\* the same calendar day a year earlier, when present, is always the partner
SameDay == \A i, j \in 1..n : (d[j] = PlusYears(d[i], 1)) => i \in part[j]
Used == done => LET e == Ends(v, part)
                    start == {i \in 1..n : ~IsNaN(v[i]) /\ \E k \in 1..Len(e) : i \in part[e[k]]}
                IN /\ \A i \in 1..n : Usage(v, part, i) \in 0..2
                   /\ NSum(Tab(n, LAMBDA i : NI(Usage(v, part, i)))) = NI(Len(e) + Cardinality(start))
\* recentring removes the scale
ScaleFree == done => LET f == Renorm(A, v)
                         w == Tab(n, LAMBDA i : v[i] \otimes NI(9))
                     IN (~IsNaN(f) /\ Ends(v, part) # <<>>) => Rate(Centred(w, Renorm(A, w)), A, part) = Rate(Centred(v, f), A, part)
\* a missing value removes slopes but never re-pairs others
NoRepair == done => \A i \in 1..n : LET u == [v EXCEPT ![i] = NaN] IN
    \A k \in 1..Len(Ends(u, part)) : \E m \in 1..Len(Ends(v, part)) : Ends(v, part)[m] = Ends(u, part)[k]
=============================================================================
