----------------------------- MODULE Aggregate -----------------------------
(***************************************************************************)
(* Insolation-weighted aggregation (rdtools.aggregation_insol).            *)
(* Each point carries its local calendar day and its absolute time.        *)
(***************************************************************************)
EXTENDS Series, Cal

\* the weighted mean of the points ix; a missing value has no weight
Weighted(x, w, ix) ==
    LET use == SelectSeq(ix, LAMBDA i : ~IsNaN(x[i] \otimes w[i]))
    IN NSum(Tab(Len(use), LAMBDA k : x[use[k]] \otimes w[use[k]]))
       \oslash NSum(Tab(Len(use), LAMBDA k : w[use[k]]))

\* number of the aggregation period of a point; freq = <<kind, multiple>>
PeriodNo(freq, day, sec, day0, sec0) ==
    CASE freq[1] = "D"  -> (day - day0) \div freq[2]
      [] freq[1] = "S"  -> (sec - sec0) \div freq[2]
      [] freq[1] \in {"MS", "ME"} -> MonthIdx(day) - MonthIdx(day0)
      [] freq[1] = "W"  -> (day + 3) \div 7 - (day0 + 3) \div 7       \* weeks end on Sunday
      [] freq[1] = "YS" -> Civil(day)[1] - Civil(day0)[1]
\* label of period p: a local day number, or (for "S") seconds after the first midnight
PeriodLabel(freq, p, day0) ==
    CASE freq[1] = "D"  -> day0 + p * freq[2]
      [] freq[1] = "S"  -> p * freq[2]
      [] freq[1] = "MS" -> MonthStart(MonthIdx(day0) + p)
      [] freq[1] = "ME" -> MonthEnd(MonthIdx(day0) + p)
      [] freq[1] = "W"  -> 7 * ((day0 + 3) \div 7 + p) + 3
      [] freq[1] = "YS" -> DayNo(Civil(day0)[1] + p, 1, 1)

\* all periods from the first to the last
Aggregated(freq, days, secs, sec0, x, w) ==
    LET n == Len(days)
        no == Tab(n, LAMBDA i : PeriodNo(freq, days[i], secs[i], days[1], sec0))
        p0 == no[1]
        k == no[n] - p0 + 1
        all == [i \in 1..n |-> i]
    IN [labels |-> Tab(k, LAMBDA p : PeriodLabel(freq, p0 + p - 1, days[1])),
        vals   |-> Tab(k, LAMBDA p : Weighted(x, w, SelectSeq(all, LAMBDA i : no[i] = p0 + p - 1)))]
=============================================================================
