-------------------------------- MODULE Num --------------------------------
(***************************************************************************)
(* Extended rational numbers: the values carried by every time series.     *)
(* A number is a pair <<n, d>> in lowest terms with d > 0, or one of       *)
(*   NaN = <<0,0>>  (missing),  Inf = <<1,0>>,  NInf = <<-1,0>>.            *)
(* Arithmetic and comparisons follow IEEE-754 (without rounding): missing  *)
(* is contagious, comparisons with it are false, x/0 is infinite.          *)
(*                                                                         *)
(* TLC's integers are 32 bits, so for TLC the operators below are          *)
(* overridden by java/Num.java with unbounded integers; tools/selftest.sh  *)
(* compares the overrides with these definitions on all small values.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

RECURSIVE NGcd(_, _)
NGcd(a, b) == IF b = 0 THEN a ELSE NGcd(b, a % b)
NAbsI(a) == IF a < 0 THEN -a ELSE a

NaN == <<0, 0>>
Inf == <<1, 0>>
NInf == <<-1, 0>>

\* the rational n/d (n, d integers)
NQ(n, d) == IF d = 0 THEN (IF n = 0 THEN NaN ELSE IF n > 0 THEN Inf ELSE NInf)
            ELSE LET g == NGcd(NAbsI(n), NAbsI(d))
                     s == IF d < 0 THEN -1 ELSE 1
                 IN <<s * (n \div g), NAbsI(d) \div g>>
NI(n) == NQ(n, 1)
IsNaN(x) == x = NaN
IsInf(x) == x = Inf \/ x = NInf
Fin(x) == ~IsNaN(x) /\ ~IsInf(x)

NNeg(x) == IF IsNaN(x) THEN NaN ELSE <<-x[1], x[2]>>
NAdd(x, y) == IF IsNaN(x) \/ IsNaN(y) THEN NaN
              ELSE IF IsInf(x) THEN (IF IsInf(y) /\ x # y THEN NaN ELSE x)
              ELSE IF IsInf(y) THEN y
              ELSE NQ(x[1] * y[2] + y[1] * x[2], x[2] * y[2])
NSub(x, y) == NAdd(x, NNeg(y))
NSgn(x) == IF x[1] > 0 THEN 1 ELSE IF x[1] < 0 THEN -1 ELSE 0
NMul(x, y) == IF IsNaN(x) \/ IsNaN(y) THEN NaN
              ELSE IF IsInf(x) \/ IsInf(y) THEN NQ(NSgn(x) * NSgn(y), 0)
              ELSE NQ(x[1] * y[1], x[2] * y[2])
NDiv(x, y) == IF IsNaN(x) \/ IsNaN(y) THEN NaN
              ELSE IF IsInf(y) THEN (IF IsInf(x) THEN NaN ELSE NI(0))
              ELSE IF IsInf(x) THEN (IF NSgn(y) < 0 THEN NNeg(x) ELSE x)
              ELSE IF NSgn(y) = 0 THEN NQ(NSgn(x), 0)
              ELSE NQ(x[1] * y[2], x[2] * y[1])
NLt(x, y) == IF IsNaN(x) \/ IsNaN(y) THEN FALSE
             ELSE IF IsInf(x) \/ IsInf(y)
                  THEN LET rank(v) == IF v = Inf THEN 1 ELSE IF v = NInf THEN -1 ELSE 0
                       IN rank(x) < rank(y)
             ELSE x[1] * y[2] < y[1] * x[2]
NEq(x, y) == ~IsNaN(x) /\ ~IsNaN(y) /\ x = y
NLe(x, y) == NLt(x, y) \/ NEq(x, y)
NAbs(x) == IF NLt(x, NI(0)) THEN NNeg(x) ELSE x
NFloor(x) == x[1] \div x[2]          \* an integer; finite x only

a \oplus b   == NAdd(a, b)
a \ominus b  == NSub(a, b)
a \otimes b  == NMul(a, b)
a \oslash b  == NDiv(a, b)
a \prec b    == NLt(a, b)
a \preceq b  == NLe(a, b)
NMin(x, y) == IF NLt(y, x) THEN y ELSE x
NMax(x, y) == IF NLt(x, y) THEN y ELSE x

\* sum of a sequence (missing is contagious); the empty sum is 0
RECURSIVE NSum(_)
NSum(s) == IF s = <<>> THEN NI(0) ELSE NAdd(Head(s), NSum(Tail(s)))

\* partial sums: NPrefix(s)[i+1] is the sum of the first i values
NPrefix(s) == [i \in 1..(Len(s) + 1) |-> NSum(SubSeq(s, 1, i - 1))]
\* scalar product of two sequences of the same length
NDot(a, b) == NSum([i \in 1..Len(a) |-> NMul(a[i], b[i])])

\* the non-missing values of s in ascending order
RECURSIVE NInsert(_, _)
NInsert(x, s) == IF s = <<>> THEN <<x>>
                 ELSE IF NLt(x, Head(s)) THEN <<x>> \o s ELSE <<Head(s)>> \o NInsert(x, Tail(s))
RECURSIVE NSort(_)
NSort(s) == IF s = <<>> THEN <<>>
            ELSE IF IsNaN(Head(s)) THEN NSort(Tail(s)) ELSE NInsert(Head(s), NSort(Tail(s)))

\* slopes between all pairs of points (x ascending integers, y numbers), in ascending order
NPairSlopes(x, y) ==
    LET P == {<<i, j>> \in (1..Len(x)) \X (1..Len(x)) : i < j}
        RECURSIVE f(_)
        f(S) == IF S = {} THEN <<>> ELSE LET p == CHOOSE p \in S : TRUE
                IN <<NDiv(NSub(y[p[2]], y[p[1]]), NI(x[p[2]] - x[p[1]]))>> \o f(S \ {p})
    IN NSort(f(P))

\* values recorded from the implementation travel as text "n/d", "nan", "inf", "-inf";
\* defined only through its override
NP(s) == CHOOSE x \in Int \X Int : TRUE

\* agreement with a recorded double: exact missing/infinite pattern, and
\* |x - y| <= atol + rtol |y|
NClose(x, y, rtol, atol) ==
    IF IsNaN(x) \/ IsNaN(y) THEN IsNaN(x) /\ IsNaN(y)
    ELSE IF IsInf(x) \/ IsInf(y) THEN x = y
    ELSE NLe(NAbs(NSub(x, y)), NAdd(atol, NMul(rtol, NAbs(y))))

RECURSIVE NPow(_, _)
NPow(x, k) == IF k = 0 THEN NI(1) ELSE NMul(x, NPow(x, k - 1))
RECURSIVE NChoose(_, _)
NChoose(n, k) == IF k = 0 THEN NI(1) ELSE NMul(NChoose(n, k - 1), NQ(n - k + 1, k))
\* probability that at least m of n independent draws, each with probability p, succeed
\* (overridden; relative error below 10^-30)
NBinTail(n, p, m) == NSum([k \in 1..(n - m + 1) |->
    NMul(NChoose(n, m + k - 1), NMul(NPow(p, m + k - 1), NPow(NSub(NI(1), p), n - m - k + 1)))])

\* the multiple of 2^-b nearest to x (keeps the numbers of long recursions short)
NRound(x, b) == IF Fin(x) THEN NQ((2 * x[1] * 2^b + x[2]) \div (2 * x[2]), 2^b) ELSE x

\* transcendental functions: rationals within 10^-15 (relative), defined through their overrides
NSqrt(x) == CHOOSE y \in Int \X Int : TRUE
NCos(x) == CHOOSE y \in Int \X Int : TRUE     \* of x full turns
NExp(x) == CHOOSE y \in Int \X Int : TRUE

\* a readable decimal (for messages only; overridden)
NStr(x) == "number"
=============================================================================
