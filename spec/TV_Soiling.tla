----------------------------- MODULE TV_Soiling -----------------------------
EXTENDS Soiling, TraceBase
\* renormalisation: median performance of the first 365 days
Renorm(e, p) == IF e.recenter THEN Median(SubSeq(p, 1, IF Len(p) < 365 THEN Len(p) ELSE 365)) ELSE One
Nz(s) == Tab(Len(s), LAMBDA i : IF IsNaN(s[i]) THEN Zero ELSE s[i])
\* one reported interval against what its own data says
Reported(e, q, d, iv, g, k) ==
    LET r == TLCEval(Judge1(q, d, iv, e.minlen, NP(e.maxerr), NP(e.maxneg)))
        t == "interval " \o ToString(k) \o " of days " \o ToString(iv[1]) \o ".." \o ToString(iv[2]) \o ": "
    IN Clause(t \o "start", g.start = iv[1]) \cup Clause(t \o "end", g.end = iv[2])
       \cup Clause(t \o "length", g.length = iv[2] - iv[1])
       \cup (IF r.valid = "?" THEN {} ELSE
              Clause(t \o "valid must be " \o r.valid, g.valid = (r.valid = "T"))
              \cup Clause(t \o "rate " \o g.rate \o " must be " \o NStr(r.slope), Close(r.slope, NP(g.rate)))
              \cup Clause(t \o "rate low bound must be " \o NStr(r.low), Close(r.low, NP(g.low)))
              \cup Clause(t \o "rate high bound must be " \o NStr(r.high), Close(r.high, NP(g.high)))
              \cup Clause(t \o "inferred start loss must be " \o NStr(r.start), Close(r.start, NP(g.isl)))
              \cup Clause(t \o "inferred end loss must be " \o NStr(r.end), Close(r.end, NP(g.iel))))
\* statements that hold whatever the cleaning days
Always(e, n) ==
    LET s == e.iv m == Len(s) IN
    Clause("intervals are consecutive", \A k \in 2..m : s[k].start = s[k-1].end + 1)
    \cup Clause("intervals cover the record", m > 0 => e.trim \/ (s[1].start = 1 /\ s[m].end = n))
    \cup Clause("rates are ordered and not positive", \A k \in 1..m :
           NP(s[k].low) \preceq NP(s[k].rate) /\ NP(s[k].rate) \preceq NP(s[k].high) /\ NP(s[k].high) \preceq Zero)
    \cup Clause("invalid intervals have zero rates", \A k \in 1..m : s[k].valid \/ (NEq(NP(s[k].low), Zero) /\ NEq(NP(s[k].rate), Zero) /\ NEq(NP(s[k].high), Zero)))
Srr(e) ==
    LET p == NumSeq(e.p)  rain == NumSeq(e.rain)  n == Len(p)
        rn == TLCEval(Renorm(e, p))
        q == Tab(n, LAMBDA i : p[i] \oslash rn)
        d == TLCEval(Deltas(q, e.w))
        thr == TLCEval(IF e.thr = "infer" THEN Fence(d, NP(e.factor)) ELSE NP(e.thr))
        tf == Tab(n, LAMBDA i : CleanTF(q, rain, e.w, d, thr, e.criterion, NP(e.rthr), i))
        sure == \A i \in 1..n : tf[i] # "?"
        iv == TLCEval(Trimmed(TLCEval(Intervals(n, {i \in 1..n : tf[i] = "T"})), e.trim))
        q0 == Nz(q)  d0 == Nz(d)
        some == TLCEval({Judge1(q0, d0, iv[k], e.minlen, NP(e.maxerr), NP(e.maxneg)).valid : k \in 1..Len(iv)})
    IN IF e.err # ""
       THEN IF e.err # "NoValidIntervalError" THEN {"raised " \o e.err}
            ELSE Clause("a record with a valid interval is analysed", ~sure \/ "T" \notin some)
       ELSE Clause("renormalising factor must be " \o NStr(rn), Close(rn, NP(e.renorm)))
            \cup Always(e, n)
            \cup (IF ~sure THEN {}
                  ELSE IF Len(iv) # Len(e.iv) THEN {"there must be " \o ToString(Len(iv)) \o " intervals, not " \o ToString(Len(e.iv))}
                  ELSE UNION {Reported(e, q0, d0, iv[k], e.iv[k], k) : k \in 1..Len(iv)}
                       \cup Clause("a record without a valid interval is an error", "T" \in some \/ "?" \in some)
                       \cup SeqClause("perfect-clean soiling ratio of the days of valid intervals",
                              LET days == TLCEval(SelectSeq(Tab(n, LAMBDA i : i), LAMBDA i : \E k \in 1..Len(iv) : e.iv[k].valid /\ i \in iv[k][1]..iv[k][2]))
                                  of(i) == CHOOSE k \in 1..Len(iv) : i \in iv[k][1]..iv[k][2]
                              IN Tab(Len(days), LAMBDA j : LET k == of(days[j]) IN One \oplus (NI(days[j] - iv[k][1]) \otimes NP(e.iv[k].rate))),
                              NumSeq(e.perfect)))
Verdict(e) == IF e.refuse # "" THEN Clause("must be refused: " \o e.why, e.err = e.refuse) ELSE Srr(e)
=============================================================================
