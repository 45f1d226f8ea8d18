------------------------------ MODULE TV_Cods ------------------------------
EXTENDS Cods, TraceBase
(* kinds: "signal" soiling as the only component, everything determined;       *)
(*        "decomposition" all components; "bootstrap"; "refusal"                *)
B(x) == IF x THEN "T" ELSE "F"

\* ---- what every decomposition satisfies, given its reported columns
Product(e) == Tab(Len(e.sr), LAMBDA i : (e.sr[i] \otimes e.sc[i]) \otimes e.trend[i])
Spread(s) == LET v == TLCEval(NSort(s)) IN SortedQuantile(v, NQ(9, 10)) \ominus SortedQuantile(v, NQ(1, 10))
FrameClauses(e) ==
    LET n == Len(e.pi)  p == TLCEval(Product(e))
    IN Clause("the index is the input's from its first value on", e.index)
       \cup SeqClause("residuals are data / (soiling x seasonal x trend)", Tab(n, LAMBDA i : e.pi[i] \oslash p[i]), e.resid)
       \cup Clause("residual shift is the mean residual", Close(Mean(e.resid), e.shift))
       \cup SeqClause("total model is the product of the components x residual shift", Tab(n, LAMBDA i : p[i] \otimes e.shift), e.total)
       \cup Clause("the trend starts at one", Close(e.trend[1], One))
       \cup (IF e.linear THEN SeqClause("the trend is the line of the reported rate",
                 Tab(n, LAMBDA i : One \oplus ((NI(i - 1) \otimes e.rate) \oslash NI(36500))), e.trend) ELSE {})
FitClauses(e) ==
    LET n == Len(e.pi)
        same == {i \in 2..n : e.sr[i] = e.sr[i-1]}
    IN Clause("soiling loss is the mean of 1 - soiling ratio in percent", Close(Hundred \otimes (One \ominus Mean(e.sr)), e.loss))
       \cup Clause("RMSE of the total model", Close(RmseOf(e.pi, e.total), e.rmse))
       \cup Clause("soiling ratio at most one", ~e.clip \/ \A i \in 1..n : e.sr[i] \preceq One)
       \cup Clause("soiling rate zero where the ratio does not change", \A i \in same : e.rates[i] = Zero)
       \cup Clause("soiling rates are reported", \A i \in 1..n : ~IsNaN(e.rates[i]))
       \cup LET f == GtT(e.signif \otimes Spread(e.resid), Spread(e.sr))
            IN Clause("small signal flag", f = "?" \/ (f = "T") = e.small)
Decode(e) == [e EXCEPT !.pi = NumSeq(e.pi), !.sr = NumSeq(e.sr), !.rates = NumSeq(e.rates), !.sc = NumSeq(e.sc), !.trend = NumSeq(e.trend), !.total = NumSeq(e.total),
                       !.resid = NumSeq(e.resid), !.shift = NP(e.shift), !.rate = NP(e.rate), !.loss = NP(e.loss), !.rmse = NP(e.rmse), !.signif = NP(e.signif)]

\* ---- the fitting cycle, from the progress report (RMSE to five decimals)
Half == NP("1/200000")
RECURSIVE Cycle(_, _, _)
Cycle(e, s, k) ==        \* k: next line of the report; messages: "", "relax", "converged", "maximum"
    IF k > Len(e.steps) THEN Clause("fitting stops at the maximum number of iterations or at convergence", s.stop # "")
    ELSE LET n == Len(e.order)
             st == e.steps[k]
             r(j) == IF j = 0 THEN NP(e.rmse0) ELSE NP(e.steps[j].rmse)
             lo == IF k < n THEN Zero ELSE One \ominus ((r(k) \oplus Half) \oslash (r(k-n) \ominus Half))
             hi == IF k < n THEN Zero ELSE One \ominus ((r(k) \ominus Half) \oslash (r(k-n) \oplus Half))
             crit == NP(e.crit)
             can == (IF lo \prec crit THEN {TRUE} ELSE {}) \cup (IF crit \preceq hi THEN {FALSE} ELSE {})
             msg(b) == LET x == FitStep(s, n, e.max, b)
                       IN IF s.perfect /\ ~x.perfect THEN "relax" ELSE IF k >= n /\ ~s.perfect /\ x.stop # "" THEN (IF b THEN "converged" ELSE "maximum") ELSE ""
             fit == {b \in can : msg(b) = st.msg}
         IN IF s.stop # "" THEN {"fitting goes on after its end"}
            ELSE IF st.step # e.order[s.pos] THEN {"step " \o ToString(k) \o " fits " \o st.step \o " instead of " \o e.order[s.pos]}
            ELSE IF fit = {} THEN {"step " \o ToString(k) \o " says '" \o st.msg \o "'"}
            ELSE Cycle(e, FitStep(s, n, e.max, CHOOSE b \in fit : TRUE), k + 1)
ReportClauses(e, d) ==
    IF ~e.reported THEN {}
    ELSE Cycle(e, FitInit, 1)
         \cup Clause("the report starts from a model of one", NAbs(NP(e.rmse0) \ominus RmseOf(d.pi, Tab(Len(d.pi), LAMBDA i : One))) \preceq (Half \otimes NQ(101, 100)))
         \cup Clause("the last reported RMSE is the result's", NAbs(NP(e.steps[Len(e.steps)].rmse) \ominus d.rmse) \preceq (Half \otimes NQ(101, 100)))
LastOf(e, c) == LET S == {k \in 1..Len(e.steps) : e.steps[k].step = c} IN IF S = {} THEN 0 ELSE IMax(S)

\* ---- components
\* day of year 1..365 (31 December of a leap year as the 30th)
Season(e, d) ==
    LET n == Len(d.sc)
        dy == TLCEval(e.doy)
        first == [y \in 1..365 |-> LET S == {i \in 1..n : dy[i] = y} IN IF S = {} THEN 0 ELSE IMin(S)]
        leap(i) == dy[i] = 366 /\ IsNaN(d.sc[i])
        ref == TLCEval(first)
        bad == {i \in 1..n : dy[i] <= 365 /\ ref[dy[i]] # 0 /\ d.sc[i] # d.sc[ref[dy[i]]]}
        bad2 == {i \in 2..n : dy[i] = 366 /\ ~IsNaN(d.sc[i]) /\ d.sc[i] # d.sc[i-1]}
    IN Clause("the seasonal component repeats by day of year", bad = {} /\ bad2 = {})
       \cup Clause("the seasonal component is defined", \A i \in 1..n : dy[i] = 366 \/ ~IsNaN(d.sc[i]))
Others(d) == Tab(Len(d.pi), LAMBDA i : (d.pi[i] \oslash d.sc[i]) \oslash d.sr[i])
RateOf(days, v) ==
    LET z == Tab(Len(v), LAMBDA i : 0)
        p == [d |-> days, s |-> z, o |-> z, o1 |-> z]
        A == TLCEval(AbsSeq(p))  N == TLCEval(AnnSeq(p))
        c == TLCEval(Centred(v, Renorm(A, v)))
        part == Tab(Len(v), LAMBDA j : Partners(A, N, j))
    IN Rate(c, A, part)
RateSafe(days, v) == RobustSafe(RenormSet([i \in 1..Len(v) |-> days[i] * DAY], v), NQ(99, 100))
RateClause(name, days, v, rate) == IF ~RateSafe(days, v) THEN {} ELSE Clause(name, Close(RateOf(days, v), rate))
Options(e) == [sens |-> NP(e.sens), prune |-> NP(e.prune), prunes |-> e.prunes, q |-> NP(e.noise) \otimes NP(e.noise), renorm |-> NP(e.renorm),
               clip |-> e.clip, forward |-> e.forward, crit |-> NP(e.crit), max |-> e.max]
\* a soiling signal fitted once follows from the components fitted before it (each of them once)
Times(e, c) == Cardinality({k \in 1..Len(e.steps) : e.steps[k].step = c})
OnceSignal(e, d) ==
    LET n == Len(d.pi)  k == LastOf(e, "SR")  o == Options(e)
        before(c) == LastOf(e, c) > 0 /\ LastOf(e, c) < k
        z0 == TLCEval(Tab(n, LAMBDA i : R_((d.pi[i] \oslash (IF before("SC") THEN d.sc[i] ELSE One)) \oslash (IF before("Rd") \/ (~e.linear /\ before("SC")) THEN d.trend[i] ELSE One))))
        shift == IF k = 1 THEN One ELSE R_(Mean(z0))
        c0 == TLCEval(Cleanings(d.pi, o.forward, o.sens))
        s == TLCEval(SoilingSignal(Tab(n, LAMBDA i : R_(z0[i] \oslash shift)),
                 [pce |-> c0.ev, prunes |-> o.prunes, prune |-> o.prune, perfect |-> TRUE, q |-> o.q, renorm |-> o.renorm, clip |-> o.clip]))
    IN IF ~(c0.sure /\ s.sure) \/ (\E i \in 1..n : IsNaN(d.sc[i])) THEN {}
       ELSE SeqClause("soiling ratio of the data over the components fitted before", s.sr, d.sr)
            \cup SeqClause("soiling rates of the data over the components fitted before", Tab(n, LAMBDA i : IF i > 1 /\ d.sr[i] = d.sr[i-1] THEN Zero ELSE s.rates[i]), d.rates)
            \cup Clause("cleaning events of the data over the components fitted before", s.ev = {e.events[j] : j \in 1..Len(e.events)})
Once(e) == e.reported /\ Times(e, "SR") = 1 /\ LastOf(e, "SR") <= Len(e.order) /\ \A c \in {"SC", "Rd"} : Times(e, c) <= 1 \/ LastOf(e, "SR") = 1
ComponentClauses(e, d) ==
    LET n == Len(d.pi)  r == LastOf(e, "Rd")
    IN (IF Once(e) THEN OnceSignal(e, d) ELSE {})
       \cup Clause("the seasonal component is that of the data over the soiling ratio", e.sc2 = "" \/ e.sc2 = "same")
       \cup (IF LastOf(e, "SC") > 0 THEN Season(e, d) ELSE Clause("no seasonal component was fitted", \A i \in 1..n : d.sc[i] = One))
       \cup (IF e.linear /\ r = 0 THEN Clause("no trend was fitted", d.rate = Zero) ELSE {})
       \cup (IF e.linear /\ r > LastOf(e, "SC") /\ r > LastOf(e, "SR")
             THEN RateClause("the rate is the year-on-year rate of the data over the other components", e.days, Others(d), d.rate) ELSE {})
       \cup (IF ~e.linear /\ LastOf(e, "SC") > 0 THEN RateClause("the rate is the year-on-year rate of the trend", e.days, d.trend, d.rate) ELSE {})
       \cup (IF e.renorm = "nan" /\ e.reported /\ (\A k \in 1..(LastOf(e, "SR") - 1) : e.steps[k].msg # "relax")
             THEN Clause("soiling ratio is one at cleanings after the first while cleaning is assumed perfect",
                         \A k \in 2..Len(e.events) : Close(d.sr[e.events[k]], One)) ELSE {})
\* ---- soiling only: everything follows from the data
Signal(e, d) ==
    LET s == TLCEval(Decompose(d.pi, Options(e)))
        n == Len(d.pi)
    IN IF ~s.sure THEN {}
       ELSE SeqClause("soiling ratio", s.last.sr, d.sr)
            \cup SeqClause("soiling rates", Tab(n, LAMBDA i : IF i > 1 /\ d.sr[i] = d.sr[i-1] THEN Zero ELSE s.last.rates[i]), d.rates)
            \cup Clause("cleaning events", s.last.ev = {e.events[k] : k \in 1..Len(e.events)})
Refusable(e) ==   \* renormalizing to cleanings that are not there
    e.kind = "signal" /\ e.renorm # "nan" /\
    LET s == Decompose(NumSeq(e.pi), Options(e)) IN ~s.sure \/ \A i \in 1..Len(s.last.sr) : IsNaN(s.last.sr[i])

\* ---- bootstrap: e.fits are the initial fits [sr, total], e.low/e.high pairs of bounds
Best(e, d) ==      \* the fit with the largest 1 / RMSE / (1 + share of days with ratio one); 0 when not clear-cut
    LET n == Len(d.pi)
        w == Tab(Len(e.fits), LAMBDA k : LET f == e.fits[k]  one == Cardinality({i \in 1..n : f.sr[i] = "1"})
                                         IN One \oslash (RmseOf(d.pi, NumSeq(f.total)) \otimes (One \oplus NQ(one, n))))
        m == ArgMax(w, 1, Len(w))
    IN IF \A k \in 1..Len(w) : k = m \/ ~Tie(w[k], w[m]) THEN m ELSE 0
Clip01(x) == NMax(Zero, NMin(One, x))
Ordered(lo, hi) == \A i \in 1..Len(lo) : IsNaN(lo[i]) \/ lo[i] \preceq hi[i]
Bounded(lo, x, hi) == \A i \in 1..Len(x) : IsNaN(x[i]) \/ IsNaN(lo[i]) \/ ((lo[i] \preceq x[i] \/ Close(lo[i], x[i])) /\ (x[i] \preceq hi[i] \/ Close(hi[i], x[i])))
Boot(e, d) ==
    LET b == Best(e, d)  n == Len(d.pi)
        dg == NumSeq(e.degradation)  sl == NumSeq(e.soiling)
        pair(k) == [lo |-> NumSeq(e[k \o "_low"]), hi |-> NumSeq(e[k \o "_high"])]
        wide == e.level = 100
    IN Clause("every combination of the alternatives is fitted once", Len(e.fits) = e.combinations)
       \cup (IF b = 0 THEN {} ELSE SeqClause("the soiling ratio is that of the best initial fit", Tab(n, LAMBDA i : Clip01(NP(e.fits[b].sr[i]))), d.sr))
       \cup Clause("reported components are those of the wrapper", e.wrapper)
       \cup Clause("the same seeds give the same central results whatever the level, and wider intervals for a higher level", e.nested)
       \cup (IF e.flat        \* too little soiling
             THEN Clause("no soiling loss is claimed", sl[1] = Zero /\ sl[2] = Zero) \cup Clause("upper bound of the loss in percent", Close(sl[3], Hundred \otimes (One \ominus Mean(d.sr))))
                  \cup RateClause("the rate is the year-on-year rate of the data", e.days, d.pi, dg[1])
                  \cup Clause("interval of the rate", dg[2] \preceq dg[3])
             ELSE FrameClauses(d) \cup Clause("RMSE of the total model", Close(RmseOf(d.pi, d.total), d.rmse))
                  \cup Clause("soiling ratio within zero and one", \A i \in 1..n : Zero \preceq d.sr[i] /\ d.sr[i] \preceq One)
                  \cup Clause("bounds are ordered", Ordered(pair("sr").lo, pair("sr").hi) /\ Ordered(pair("rates").lo, pair("rates").hi)
                                                     /\ Ordered(pair("season").lo, pair("season").hi) /\ Ordered(pair("model").lo, pair("model").hi)
                                                     /\ dg[2] \preceq dg[3] /\ sl[2] \preceq sl[3])
                  \cup Clause("the estimate of the rate and loss lie between the extremes of the realizations", ~wide \/ (Bounded(<<dg[2]>>, <<dg[1]>>, <<dg[3]>>) /\ Bounded(<<sl[2]>>, <<sl[1]>>, <<sl[3]>>)))
                  \cup Clause("bootstrapped ratio and rates lie between the extremes of the realizations",
                              ~wide \/ (Bounded(pair("sr").lo, NumSeq(e.bt_sr), pair("sr").hi) /\ Bounded(pair("rates").lo, NumSeq(e.bt_rates), pair("rates").hi)
                                         /\ Bounded(pair("season").lo, d.sc, pair("season").hi)))
                  \cup Clause("cleaning events are shares", \A i \in 1..n : Zero \preceq NP(e.cleaning[i]) /\ (NP(e.cleaning[i]) \preceq One \/ Close(NP(e.cleaning[i]), One))))
Verdict(e) ==
    IF e.kind = "refusal" THEN Clause("refused: " \o e.why, e.err # "")
    ELSE IF e.kind = "leap" THEN Clause("the seasonal component is defined on 31 December of leap years", e.defined)
    ELSE IF e.err # "" THEN (IF Refusable(e) THEN {} ELSE {"raised " \o e.err})
    ELSE LET d == TLCEval(Decode(e))
         IN IF e.kind = "bootstrap" THEN Boot(e, d)
            ELSE IF e.kind = "signal" THEN FrameClauses(d) \cup FitClauses(d) \cup ReportClauses(e, d) \cup Signal(e, d)
            ELSE FrameClauses(d) \cup FitClauses(d) \cup ReportClauses(e, d) \cup ComponentClauses(e, d)
=============================================================================
