----------------------------- MODULE TV_Regress -----------------------------
EXTENDS Regress, TraceBase
\* critical value of the two-sided interval at the confidence level, and six standard errors of it
\* under 10000 draws (both in 1/10000)
Z(cl) == CASE cl = 682 -> 9986 [] cl = 900 -> 16449 [] cl = 500 -> 6745 [] cl = 950 -> 19600
ZTol(cl) == CASE cl = 682 -> 950 [] cl = 900 -> 1300 [] cl = 500 -> 850 [] cl = 950 -> 1650
Tight(a, b, s) == NAbs(a \ominus b) \preceq (NQ(1, 10000000) \otimes s)
Judged(e, f, y) ==
    LET scale == TLCEval(MaxV(Tab(Len(y), LAMBDA i : NAbs(y[i]))))
        m == NP(e.slope) b == NP(e.intercept) rd == NP(e.rate)
        lo == NP(e.lo) hi == NP(e.hi)
        rmse == NP(e.rmse)  sm == NP(e.serr) sb == NP(e.ierr)
        exact == f.mse \preceq (scale \otimes scale \otimes NQ(1, 1000000000))
        strong == (NI(64) \otimes f.varb) \prec (f.b \otimes f.b)
        sc == scale \otimes scale
        Rank(x) == IF f.b \prec Zero THEN NNeg(Score(f, x)) ELSE Score(f, x)
    IN Clause("slope is the least-squares slope", Tight(m, f.m, scale))
       \cup Clause("intercept is the least-squares intercept", Tight(b, f.b, scale))
       \cup Clause("rate is 100 x slope / intercept", Tight(NI(100) \otimes m, rd \otimes b, NMax(One, NAbs(rd)) \otimes scale))
       \cup Clause("rmse is the residual standard error", NAbs((rmse \otimes rmse) \ominus f.mse) \preceq (NQ(1, 1000000) \otimes (f.mse \oplus (NQ(1, 1000000) \otimes sc))))
       \cup Clause("slope standard error", NAbs((sm \otimes sm) \ominus f.varm) \preceq (NQ(1, 1000000) \otimes (f.varm \oplus (NQ(1, 1000000) \otimes sc))))
       \cup Clause("intercept standard error", NAbs((sb \otimes sb) \ominus f.varb) \preceq (NQ(1, 1000000) \otimes (f.varb \oplus (NQ(1, 1000000) \otimes sc))))
       \cup Clause("interval is ordered", lo \preceq (hi \oplus NQ(1, 1000000)))
       \cup (IF ~strong THEN {} ELSE
              Clause("interval brackets the rate", lo \preceq (rd \oplus NQ(1, 100000)) /\ (rd \ominus NQ(1, 100000)) \preceq hi)
              \cup (IF exact THEN {} ELSE
                 Clause("interval is at the requested confidence level",
                   /\ NAbs(Rank(lo \oslash Hundred) \oplus NQ(Z(e.cl), 10000)) \preceq NQ(ZTol(e.cl), 10000)
                   /\ NAbs(Rank(hi \oslash Hundred) \ominus NQ(Z(e.cl), 10000)) \preceq NQ(ZTol(e.cl), 10000))))
       \cup Clause("the rate does not change when the series is rescaled", Close(NP(e.rate2), rd))
Ols(e) == LET y == NumSeq(e.y) IN Judged(e, Fit(Years(e.t), y), y)
Classical(e) ==
    LET y == NumSeq(e.y)
        ma == MovingAverage(e.t, y)
        got == NumSeq(e.ma)
        v == TLCEval(Valid(got))
        w == IF e.mk = "" THEN "?" ELSE Trend(v)
    IN SeqClause("reported series is the centred one-year moving average", ma, got)
       \cup (IF CloseSeq(ma, got) THEN Judged(e, Fit(Years(e.t), got), y) ELSE {})
       \cup Clause("Mann-Kendall verdict of the moving average", w = "?" \/ w = e.mk)
Verdict(e) ==
    IF e.refuse # "" THEN Clause(e.op \o " must be refused: " \o e.why, e.err = e.refuse)
    ELSE IF e.err # "" THEN {e.op \o " raised " \o e.err}
    ELSE CASE e.op = "ols" -> Ols(e) [] e.op = "classical" -> Classical(e)
=============================================================================
