---------------------------- MODULE MC_Clipping ----------------------------
(***************************************************************************)
(* Records of whole days, four readings a day (0:00, 6:00, 12:00, 18:00),  *)
(* the first of each day at night; a day is appended at a time.            *)
(***************************************************************************)
EXTENDS Clipping, Json
CONSTANTS Days, Powers, Fixed, Rs, Emit
VARIABLES rec, R, done
vars == <<rec, R, done>>
Pattern == {<<0, a, b, c>> : a \in Powers, b \in Powers, c \in Powers}
Init == R \in Rs /\ rec = <<>> /\ done = FALSE
AddDay(d) == ~done /\ Len(rec) < Days /\ rec' = Append(rec, d) /\ UNCHANGED <<R, done>>
Stop == /\ ~done /\ Len(rec) = Days /\ done' = TRUE /\ UNCHANGED <<rec, R>>
        /\ Emit => PrintT(<<"CASE", ToJson([rec |-> rec, R |-> R])>>)
Next == Stop \/ (\E d \in (IF Len(rec) < Fixed THEN {<<0, 310, 900, 420>>} ELSE Pattern) : AddDay(d))
Spec == Init /\ [][Next]_vars
Times(n) == Tab(4 * n, LAMBDA i : (i - 1) * 360)
Mids(n) == Tab(n, LAMBDA d : (d - 1) * 1440)
Flat(r) == Tab(4 * Len(r), LAMBDA i : NI(r[((i - 1) \div 4) + 1][((i - 1) % 4) + 1]))
Scale(s, k) == Tab(Len(s), LAMBDA i : s[i] \otimes k)
D(r, k) == Detect(Times(Len(r)), Mids(Len(r)), Scale(Flat(r), k), 360, R, NQ(2, 10))
X == D(rec, One)
\* rescaling power does not matter
ScaleFree == done => D(rec, NQ(17, 4)).excluded = X.excluded
\* the days are judged one by one: swapping two days (not the one with the record's first readings,
\* whose window is incomplete) swaps their verdicts
Swap(r, i, j) == [r EXCEPT ![i] = r[j], ![j] = r[i]]
Block(e, d) == SubSeq(e, 4 * d - 3, 4 * d)
DayLocal == (done /\ ~X.amb) => \A i, j \in 2..Days : i < j =>
    LET Y == D(Swap(rec, i, j), One)
    IN \A d \in 1..Days : Block(Y.excluded, d) = Block(X.excluded, IF d = i THEN j ELSE IF d = j THEN i ELSE d)
\* nothing is excluded in a record in which no three readings in a row agree
NoFalse == (done /\ ~X.amb) => ((\E i \in 1..(4*Days) : X.excluded[i] # "F") => \E i \in 1..(4*Days) : X.flag[i])
\* the points of a day in which plateau readings agree are excluded when the plateau is within 2.5 %
Plateaus == (done /\ ~X.amb) => \A i \in 1..(4*Days) :
    LET d == ((i - 1) \div 4) + 1 IN
    (X.flag[i] /\ (X.hi[d] \ominus X.lo[d]) \preceq (X.hi[d] \otimes NQ(25, 1000))) => X.excluded[i] # "F"
=============================================================================
