-------------------------- MODULE TV_SoilSummary --------------------------
EXTENDS SoilSummary, TraceBase
Annual(e) ==
    LET day(i) == e.day0 + e.off[i]
        n == Len(e.off)
        insol == Tab(n, LAMBDA i : LET v == NP(e.insol[i]) IN IF IsNaN(v) THEN Zero ELSE v)
        prof == Tab(Len(e.prof), LAMBDA k : NumSeq(e.prof[k]))
        years == {Civil(day(i))[1] : i \in 1..n}
        sel == [y \in years |-> TLCEval(SelectSeq(Tab(n, LAMBDA i : i), LAMBDA i : Civil(day(i))[1] = y))]
        half == NP(e.cl) \oslash NI(200)
        judge(y, g) ==
            LET v == Tab(Len(prof), LAMBDA k : Weighted(prof[k], insol, sel[y]))
                t == "year " \o ToString(y) \o ": "
            IN Clause(t \o "median of the insolation-weighted means", Close(Quantile(v, NQ(1, 2)), NP(g.median)))
               \cup Clause(t \o "lower percentile", Close(Quantile(v, NQ(1, 2) \ominus half), NP(g.low)))
               \cup Clause(t \o "upper percentile", Close(Quantile(v, NQ(1, 2) \oplus half), NP(g.high)))
    IN Clause("exactly one row per calendar year, ascending",
              Len(e.rows) = Cardinality(years) /\ {e.rows[k].year : k \in 1..Len(e.rows)} = years
              /\ \A k \in 2..Len(e.rows) : e.rows[k-1].year < e.rows[k].year)
       \cup UNION {IF e.rows[k].year \in years THEN judge(e.rows[k].year, e.rows[k]) ELSE {} : k \in 1..Len(e.rows)}
Monthly(e) ==
    LET iv == Tab(Len(e.iv), LAMBDA k : [first |-> e.iv[k].first, last |-> e.iv[k].last, length |-> e.iv[k].length, valid |-> e.iv[k].valid,
                                         rate |-> NP(e.iv[k].rate), low |-> NP(e.iv[k].low), high |-> NP(e.iv[k].high)])
        q == Tab(Len(iv), LAMBDA k : Qualifies(iv[k], e.minlen, NP(e.maxerr)))
        sure == \A k \in 1..Len(iv) : q[k] # "?"
        use == TLCEval(SelectSeq(Tab(Len(iv), LAMBDA k : k), LAMBDA k : q[k] = "T"))
        u == Tab(Len(use), LAMBDA j : iv[use[j]])
        mon == Tab(Len(u), LAMBDA j : Tab(u[j].last - u[j].first + 1, LAMBDA i : Civil(u[j].first + i - 1)[2]))
        half == NP(e.cl) \oslash NI(200)
        \* six standard errors of a quantile's level, plus the rounding of the sample counts
        judge(m) ==
            LET w == Tab(Len(u), LAMBDA j : NI(Count(mon[j], LAMBDA x : x = m)))
                cnt == Count(w, LAMBDA x : Zero \prec x)
                g == e.rows[m]
                t == "month " \o ToString(m) \o ": "
                at(level, got) == LET dev == NAbs(MixCdf(got, u, w) \ominus level)
                                      slack == NQ(3 * Len(u) + 4, e.reps)
                                      x == IF dev \preceq slack THEN Zero ELSE dev \ominus slack
                                  IN (x \otimes x \otimes NI(e.reps)) \preceq (NI(36) \otimes level \otimes (One \ominus level))
                lo == NP(g.low) md == NP(g.median) hi == NP(g.high)
            IN Clause(t \o "interval_count must be " \o ToString(cnt), g.count = cnt)
               \cup (IF cnt = 0 THEN Clause(t \o "rates are missing when no interval touches it", IsNaN(lo) /\ IsNaN(md) /\ IsNaN(hi))
                     ELSE Clause(t \o "low <= median <= high", lo \preceq md /\ md \preceq hi)
                          \cup Clause(t \o "rates lie in the hull of the intervals' bounds",
                                 LET S == TLCEval(SelectSeq(Tab(Len(u), LAMBDA j : j), LAMBDA j : Zero \prec w[j]))
                                 IN /\ MinV(Tab(Len(S), LAMBDA j : u[S[j]].low)) \preceq (lo \oplus ATol)
                                    /\ hi \preceq (MaxV(Tab(Len(S), LAMBDA j : u[S[j]].high)) \oplus ATol))
                          \cup Clause(t \o "median of the day-weighted mixture", at(NQ(1, 2), md))
                          \cup Clause(t \o "lower percentile of the day-weighted mixture", at(NQ(1, 2) \ominus half, lo))
                          \cup Clause(t \o "upper percentile of the day-weighted mixture", at(NQ(1, 2) \oplus half, hi)))
    IN Clause("twelve months in order", Len(e.rows) = 12 /\ \A m \in 1..12 : e.rows[m].month = m)
       \cup (IF ~sure \/ Len(e.rows) # 12 THEN {} ELSE UNION {judge(m) : m \in 1..12})
Verdict(e) == IF e.err # "" THEN {e.op \o " raised " \o e.err}
              ELSE CASE e.op = "annual" -> Annual(e) [] e.op = "monthly" -> Monthly(e)
=============================================================================
