---------------------------- MODULE TV_Aggregate ----------------------------
EXTENDS Aggregate, TraceBase
Verdict(e) ==
    IF e.err # "" THEN {"raised " \o e.err}
    ELSE LET r == Aggregated(<<e.freq, e.mult>>, e.days, e.secs, 0, NumSeq(e.x), NumSeq(e.w))
         IN Clause("periods are calendar-aligned and consecutive", e.labels = r.labels)
            \cup SeqClause("aggregated value", r.vals, NumSeq(e.out))
=============================================================================
