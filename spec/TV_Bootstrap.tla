---------------------------- MODULE TV_Bootstrap ----------------------------
EXTENDS Bootstrap, TraceBase
Simple(e) ==
    LET s == NumSeq(e.slopes)
        lo == NP(e.lo)  hi == NP(e.hi)  pl == NP(e.plevel)
        cl == NP(e.cl)  reps == 10000
    IN Clause("interval bounds are ordered", lo \preceq (hi \oplus Eps(hi)))
       \cup Clause("interval lies inside the range of observed slopes", (MinV(s) \ominus Eps(lo)) \preceq lo /\ hi \preceq (MaxV(s) \oplus Eps(hi)))
       \cup Clause("lower bound is the requested percentile of the bootstrap medians", IsPercentile(s, lo, Lower(cl), reps))
       \cup Clause("upper bound is the requested percentile of the bootstrap medians", IsPercentile(s, hi, Upper(cl), reps))
       \cup Clause("exceedance level is at 100 minus the exceedance probability", IsPercentile(s, pl, Exceed(NP(e.ep)), reps))
Circular(e) ==
    LET r == NumSeq(e.rates)
    IN SeqClause("circular-block interval is the requested percentiles of the bootstrap rates",
                 <<Quantile(r, Lower(NP(e.cl))), Quantile(r, Upper(NP(e.cl)))>>, <<NP(e.lo), NP(e.hi)>>)
       \cup SeqClause("circular-block exceedance level", <<Quantile(r, Exceed(NP(e.ep)))>>, <<NP(e.plevel)>>)
       \cup Clause("replicates scatter around the fitted trend",
                   ~e.clean \/ NAbs(Median(r) \ominus NP(e.rate)) \preceq NQ(3, 10))
Nested(e) == LET lo == NumSeq(e.los)  hi == NumSeq(e.his)
             IN Clause("interval widens with the confidence level",
                       \A i \in 1..(Len(lo)-1) : lo[i+1] \preceq (lo[i] \oplus Eps(lo[i])) /\ (hi[i] \ominus Eps(hi[i])) \preceq hi[i+1])
SameRate(e) == Clause("the rate does not depend on uncertainty method or random state",
                      LET r == NumSeq(e.rates) IN \A i \in 2..Len(r) : Close(r[1], r[i]))
               \cup Clause("without uncertainty only the rate is returned", e.bare)
Block(e) == Clause("replicates are circularly contiguous residual blocks re-applied to the fit",
                   \A k \in 1..Len(e.idx) : Blocks(e.idx[k], e.n, e.L))
            \cup Clause("every residual can start a block",
                   Len(e.idx) * e.n < 60 * e.n * e.L \/ UNION {Starts(e.idx[k], e.L) : k \in 1..Len(e.idx)} = 1..e.n)
Verdict(e) ==
    IF e.refuse # "" THEN Clause(e.op \o " must be refused: " \o e.why, e.err = e.refuse)
    ELSE IF e.err # "" THEN {e.op \o " raised " \o e.err}
    ELSE CASE e.op = "simple" -> Simple(e)
           [] e.op = "circular" -> Circular(e)
           [] e.op = "nested" -> Nested(e)
           [] e.op = "rate" -> SameRate(e)
           [] e.op = "blocks" -> Block(e)
=============================================================================
