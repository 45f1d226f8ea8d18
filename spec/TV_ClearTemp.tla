---------------------------- MODULE TV_ClearTemp ----------------------------
EXTENDS ClearTemp, TraceBase
\* e.day[k]: local day number, e.into[k]: seconds since that day began, e.len[k]: length of that day,
\* e.utc[k]: seconds of the UTC day
Verdict(e) ==
    IF e.err # "" THEN {"raised " \o e.err}
    ELSE LET lat == NP(e.lat)  lon == NP(e.lon)  got == NumSeq(e.out)
             i == LonCell(lon)  j == LatCell(lat)
             empty == ~OnGrid(lat) \/ Hole(i, j)
             D == TLCEval(Tab(12, LAMBDA k : DayTable(i, j, k - 1)))
             N == TLCEval(Tab(12, LAMBDA k : NightTable(i, j, k - 1)))
             wt == TLCEval(GaussW(e.window, NP(e.std)))
             days == TLCEval({e.day[k] : k \in 1..Len(e.day)} \cup {e.day[k] + 1 : k \in 1..Len(e.day)})
             SD == TLCEval([d \in days |-> Smooth(D, e.window, wt, d)])
             SN == TLCEval([d \in days |-> Smooth(N, e.window, wt, d)])
             At(S, k) == LET d == e.day[k] IN S[d] \oplus ((S[d+1] \ominus S[d]) \otimes NQ(e.into[k], e.len[k]))
             Want(k) == Curve(At(SD, k), At(SN, k), SolarTurns(e.utc[k], lon))
             Slack(k) == NQ(1, 1000000)
         IN Clause("result on exactly the requested timestamps", e.index)
            \cup (IF Tie(lat, lon) THEN {} ELSE
            IF empty THEN Clause("coordinates without data give missing values", \A k \in 1..Len(got) : IsNaN(got[k]))
                          \cup Clause("coordinates without data give a warning", e.warned)
            ELSE LET bad == TLCEval({k \in 1..Len(got) : ~Fin(got[k]) \/ Slack(k) \prec NAbs(got[k] \ominus Want(k))})
                 IN IF bad = {} THEN Clause("no warning when there is data", ~e.warned)
                    ELSE LET k == IMin(bad) IN {"temperature at position " \o ToString(k) \o " is " \o NStr(got[k]) \o ", specification " \o NStr(Want(k))})
=============================================================================
