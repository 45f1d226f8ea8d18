------------------------------ MODULE Regress ------------------------------
(***************************************************************************)
(* Least-squares trends, the centred annual moving average and the         *)
(* Mann-Kendall verdict.                                                   *)
(***************************************************************************)
EXTENDS Series
\* positions with a value
Idx(y) == SelectSeq(Tab(Len(y), LAMBDA i : i), LAMBDA i : ~IsNaN(y[i]))
\* least-squares line y = b + m x over the positions with a value
Fit(x, y) ==
    LET k  == TLCEval(Idx(y))
        n  == Len(k)
        xs == Tab(n, LAMBDA i : x[k[i]])
        ys == Tab(n, LAMBDA i : y[k[i]])
        xm == TLCEval(NSum(xs) \oslash NI(n))
        ym == TLCEval(NSum(ys) \oslash NI(n))
        dx == Tab(n, LAMBDA i : xs[i] \ominus xm)
        dy == Tab(n, LAMBDA i : ys[i] \ominus ym)
        sxx == TLCEval(NDot(dx, dx))
        sxy == TLCEval(NDot(dx, dy))
        m  == TLCEval(sxy \oslash sxx)
        b  == TLCEval(ym \ominus (m \otimes xm))
        res == Tab(n, LAMBDA i : dy[i] \ominus (m \otimes dx[i]))
        sse == TLCEval(NDot(res, res))
        mse == TLCEval(sse \oslash NI(n - 2))
    IN [n |-> n, m |-> m, b |-> b, sxx |-> sxx, sse |-> sse, mse |-> mse,
        varm |-> mse \oslash sxx,
        varb |-> mse \otimes (NQ(1, n) \oplus ((xm \otimes xm) \oslash sxx)),
        cov  |-> NNeg((mse \otimes xm) \oslash sxx)]
Rate(f) == (Hundred \otimes f.m) \oslash f.b
\* how many standard deviations the line's slope lies below x times its intercept
Score(f, x) == LET v == f.varm \ominus ((NI(2) \otimes x \otimes f.cov)) \oplus (x \otimes x \otimes f.varb)
               IN ((x \otimes f.b) \ominus f.m) \oslash NSqrt(v)

\* elapsed time in years of 365 days (t in hours since the first timestamp)
Years(t) == Tab(Len(t), LAMBDA i : NQ(t[i], 8760))
Half == 4380
\* mean over (t - half a year, t + half a year], where half a year exists on both sides
MovingAverage(t, y) ==
    LET P == NPrefix(y)  n == Len(t)
    IN Tab(n, LAMBDA i :
         IF t[i] - t[1] < Half \/ t[n] - t[i] < Half THEN NaN
         ELSE LET lo == LastLE(t, t[i] - Half) + 1  hi == LastLE(t, t[i] + Half)
              IN (P[hi + 1] \ominus P[lo]) \oslash NI(hi - lo + 1))

\* Mann-Kendall
Pairs(n) == (n * (n - 1)) \div 2
Ups(y, i) == Cardinality({j \in (i+1)..Len(y) : y[i] \prec y[j]})
Downs(y, i) == Cardinality({j \in (i+1)..Len(y) : y[j] \prec y[i]})
RECURSIVE ISum(_, _, _)
ISum(f(_), lo, hi) == IF hi < lo THEN 0 ELSE IF hi = lo THEN f(lo)
                      ELSE LET mid == (lo + hi) \div 2 IN ISum(f, lo, mid) + ISum(f, mid + 1, hi)
KendallS(y) == ISum(LAMBDA i : Ups(y, i) - Downs(y, i), 1, Len(y))
\* lengths of the runs of equal values, in ascending order of value
RECURSIVE Runs(_, _, _)
Runs(q, i, len) == IF i > Len(q) THEN (IF len = 0 THEN <<>> ELSE <<len>>)
                   ELSE IF i > 1 /\ len > 0 /\ NEq(q[i], q[i-1]) THEN Runs(q, i + 1, len + 1)
                   ELSE (IF len = 0 THEN <<>> ELSE <<len>>) \o Runs(q, i + 1, 1)
TieTerm(k) == NI(k) \otimes NI(k - 1) \otimes NI(2 * k + 5)
KendallVar(y) == LET q == TLCEval(NSort(y))  r == TLCEval(Runs(q, 1, 0))
                 IN (TieTerm(Len(y)) \ominus NSum(Tab(Len(r), LAMBDA i : TieTerm(r[i])))) \oslash NI(18)
\* 5 % two-sided critical value, squared
Crit == NQ(38414588, 10000000)
Trend(y) == LET s == KendallS(y)  v == TLCEval(KendallVar(y))
                z2 == IF s = 0 THEN Zero ELSE LET a == (IF s > 0 THEN s - 1 ELSE -s - 1) IN (NI(a) \otimes NI(a)) \oslash v
            IN IF NClose(z2, Crit, NQ(1, 100000), Zero) THEN "?"
               ELSE IF Crit \prec z2 THEN (IF s > 0 THEN "increasing" ELSE "decreasing")
               ELSE "no trend"
=============================================================================
