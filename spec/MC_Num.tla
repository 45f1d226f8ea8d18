------------------------------- MODULE MC_Num -------------------------------
(***************************************************************************)
(* The Java overrides of Num against its definitions (NumP is a copy of    *)
(* Num under another name, which has no overrides; tools/selftest.sh).     *)
(***************************************************************************)
EXTENDS Num, TLC
P == INSTANCE NumP
VARIABLES x, y, z
vars == <<x, y, z>>
Small == {P!NQ(n, d) : n \in -4..4, d \in {1, 2, 3, 8}} \cup {P!NaN, P!Inf, P!NInf}
Lift(p) == NQ(p[1], p[2])
LiftSeq(s) == [i \in 1..Len(s) |-> Lift(s[i])]
Same(p, v) == Lift(p) = v
SameSeq(s, v) == Len(s) = Len(v) /\ \A i \in 1..Len(s) : Same(s[i], v[i])
Init == x \in Small /\ y \in Small /\ z \in {P!NQ(1, 2), P!NQ(-3, 1), P!NaN}
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
X == Lift(x)
Y == Lift(y)
W == Lift(z)
Unary == /\ Same(P!NNeg(x), NNeg(X)) /\ Same(P!NAbs(x), NAbs(X)) /\ IsNaN(X) = P!IsNaN(x) /\ IsInf(X) = P!IsInf(x) /\ Fin(X) = P!Fin(x)
         /\ P!NSgn(x) = NSgn(X) /\ (Fin(X) => P!NFloor(x) = NFloor(X)) /\ \A b \in {0, 3} : Same(P!NRound(x, b), NRound(X, b))
         /\ Same(P!NPow(x, 3), NPow(X, 3))
Binary == /\ Same(P!NAdd(x, y), NAdd(X, Y)) /\ Same(P!NSub(x, y), NSub(X, Y)) /\ Same(P!NMul(x, y), NMul(X, Y)) /\ Same(P!NDiv(x, y), NDiv(X, Y))
          /\ P!NLt(x, y) = NLt(X, Y) /\ P!NLe(x, y) = NLe(X, Y) /\ P!NEq(x, y) = NEq(X, Y) /\ Same(P!NMin(x, y), NMin(X, Y)) /\ Same(P!NMax(x, y), NMax(X, Y))
          /\ (x = y) = (X = Y)
          /\ \A t \in {P!NQ(0, 1), P!NQ(1, 4)} : P!NClose(x, y, t, P!NQ(1, 4)) = NClose(X, Y, Lift(t), NQ(1, 4))
Seqs == LET s == <<x, y, z, x>>  S == LiftSeq(s)  t == <<y, z, x, z>>  T == LiftSeq(t)
        IN /\ Same(P!NSum(s), NSum(S)) /\ SameSeq(P!NPrefix(s), NPrefix(S)) /\ Same(P!NDot(s, t), NDot(S, T)) /\ SameSeq(P!NSort(s), NSort(S))
           /\ ((Fin(X) /\ Fin(Y) /\ Fin(W)) => SameSeq(P!NPairSlopes(<<0, 1, 4, 6>>, s), NPairSlopes(<<0, 1, 4, 6>>, S)))
Eps(a, b) == NAbs(a \ominus b) \preceq NQ(1, 1000000000)
Tails == \A n \in 1..5, m \in 0..5, p \in {1, 2, 3} : m > n \/ Eps(Lift(P!NBinTail(n, P!NQ(p, 4), m)), NBinTail(n, NQ(p, 4), m))
Functions == /\ \A n \in 0..30, d \in {1, 7, 1000} : Eps(NSqrt(NQ(n, d)) \otimes NSqrt(NQ(n, d)), NQ(n, d)) /\ NI(0) \preceq NSqrt(NQ(n, d))
             /\ Eps(NCos(NI(0)), NI(1)) /\ Eps(NCos(NQ(1, 6)), NQ(1, 2)) /\ Eps(NCos(NQ(1, 4)), NI(0)) /\ Eps(NCos(NQ(5, 2)), NI(-1)) /\ Eps(NCos(NQ(-1, 3)), NQ(-1, 2))
             /\ \A n \in -30..30 : Eps(NCos(NQ(n, 12)), (NI(2) \otimes NPow(NCos(NQ(n, 24)), 2)) \ominus NI(1))
             /\ Eps(NExp(NI(1)), NQ(271828182, 100000000) \oplus (NQ(8459, 1000000000) \otimes NQ(1, 1000)))
             /\ \A n \in -20..20 : Eps(NExp(NQ(n, 4)) \otimes NExp(NQ(-n, 4)), NI(1)) /\ Eps((NExp(NQ(n, 8)) \otimes NExp(NQ(n, 8))) \oslash NExp(NQ(n, 4)), NI(1))
             /\ NP("3/4") = NQ(3, 4) /\ NP("-7") = NI(-7) /\ NP("nan") = NaN /\ NP("inf") = Inf /\ NP("-inf") = NInf
Once == (x = y /\ z = P!NaN /\ x = P!NQ(1, 1)) => (Functions /\ Tails)
=============================================================================
