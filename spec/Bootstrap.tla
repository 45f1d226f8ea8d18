----------------------------- MODULE Bootstrap -----------------------------
(***************************************************************************)
(* Uncertainty of year-on-year rates.                                      *)
(***************************************************************************)
EXTENDS Series

Eps(x) == NQ(1, 1000000000) \otimes NMax(One, NAbs(x))
RECURSIVE DropTies(_, _)
DropTies(q, i) == IF i > Len(q) THEN <<>> ELSE
    (IF i = 1 \/ q[i-1] \prec q[i] THEN <<q[i]>> ELSE <<>>) \o DropTies(q, i + 1)
NDistinct(s) == LET q == TLCEval(NSort(s)) IN DropTies(q, 1)
\* exact distribution of the median of n draws (with replacement) from the n slopes s:
\* probability that it does not exceed x (Leq the order used to compare a draw with a bound)
MedianDist(s, x, Leq(_, _)) ==
    LET n == Len(s)  m == n \div 2
        F(b) == NQ(Count(s, LAMBDA y : Leq(y, b)), n)                 \* a draw is at most b
        F0(v) == NQ(Count(s, LAMBDA y : y \prec v), n)
        FE(v) == NQ(Count(s, LAMBDA y : y \preceq v), n)
        low == TLCEval(SelectSeq(NDistinct(s), LAMBDA v : Leq(v, x)))
        pair(v) == (NPow(FE(v), m) \ominus NPow(F0(v), m))
                   \otimes (NPow(One \ominus F(x), m) \ominus NPow(One \ominus F((x \oplus x) \ominus v), m))
    IN IF n % 2 = 1 THEN NBinTail(n, F(x), m + 1)
       ELSE NBinTail(n, F(x), m + 1) \oplus (NChoose(n, m) \otimes NSum([i \in 1..Len(low) |-> pair(low[i])]))
AtMost(s, x) == MedianDist(s, x, LAMBDA y, b : y \preceq (b \oplus Eps(x)))
Below(s, x) == MedianDist(s, x, LAMBDA y, b : y \prec (b \ominus Eps(x)))
\* x is a p-percentile of the bootstrap distribution up to the sampling error of reps replicates
Sampling(p, reps) == NI(6) \otimes NSqrt((p \otimes (One \ominus p)) \oslash NI(reps)) \oplus NQ(1, reps)
IsPercentile(s, x, p, reps) ==
    LET d == Sampling(p, reps)
    IN (p \ominus d) \preceq AtMost(s, x) /\ Below(s, x) \preceq (p \oplus d)

Lower(cl) == NQ(1, 2) \ominus (cl \oslash NI(200))
Upper(cl) == NQ(1, 2) \oplus (cl \oslash NI(200))
Exceed(ep) == One \ominus (ep \oslash Hundred)

\* a replicate (source positions 1..n) consists of circularly contiguous blocks of length L
Succ(i, n) == IF i = n THEN 1 ELSE i + 1
Blocks(idx, n, L) == /\ Len(idx) = n
                     /\ \A i \in 1..n : idx[i] \in 1..n
                     /\ \A i \in 2..n : ((i - 1) % L # 0) => idx[i] = Succ(idx[i-1], n)
Starts(idx, L) == {idx[i] : i \in {k \in 1..Len(idx) : (k - 1) % L = 0}}
=============================================================================
