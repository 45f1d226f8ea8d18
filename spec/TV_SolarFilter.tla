--------------------------- MODULE TV_SolarFilter ---------------------------
EXTENDS SolarFilter, TraceBase
Hour(e) ==
    IF e.err # "" THEN {"raised " \o e.err}
    ELSE LET lon == NP(e.lon)  lo == NP(e.lo)  hi == NP(e.hi)  eot == NumSeq(e.eot)
         IN Clause("mask on the series' index", e.index)
            \cup Clause("equation of time of the date", \A k \in 1..Len(eot) : NAbs(eot[k] \ominus Spencer(e.doy[k])) \prec NQ(3, 2))
            \cup MaskClause("hour angle in the closed range", Tab(Len(eot), LAMBDA k : Within(HourAngle(e.utc[k], lon, eot[k]), lo, hi)), e.mask)
Param(e, name, tab, given) == IF e.lookup /\ e.minutes # "0" THEN Lookup(tab, NP(e.minutes)) ELSE NP(given)
Detect(e) ==
    LET want == [window_length |-> Param(e, "window", Windows, e.given.window_length),
                 max_diff |-> Param(e, "max", MaxDiffs, e.given.max_diff),
                 var_diff |-> Param(e, "var", VarDiffs, e.given.var_diff),
                 slope_dev |-> Param(e, "slope", SlopeDevs, e.given.slope_dev),
                 mean_diff |-> NP(e.given.mean_diff),
                 lower_line_length |-> NP(e.given.lower_line_length),
                 upper_line_length |-> NP(e.given.upper_line_length)]
    IN \* the reference detection was run with the specified thresholds (checks the harness itself)
       UNION {Clause("reference threshold " \o n, Close(NP(e.claim[n]), want[n])) : n \in DOMAIN want}
       \cup (IF e.err # "" THEN Clause("raised " \o e.err, e.referr # "")
             ELSE Clause("refused by the detection but returned", e.referr = "")
                  \cup Clause("mask on the union of both indexes", e.index)
                  \cup Clause("mask is the detection result for the documented thresholds", e.same)
                  \cup (IF ~e.seen THEN {} ELSE
                        UNION {Clause("threshold " \o n \o " used: " \o e.used[n], Close(NP(e.used[n]), want[n])) : n \in DOMAIN want}))
Verdict(e) == IF e.kind = "hour" THEN Hour(e) ELSE Detect(e)
=============================================================================
