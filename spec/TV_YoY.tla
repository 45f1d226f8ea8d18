------------------------------- MODULE TV_YoY -------------------------------
EXTENDS YoY, TraceBase
(***************************************************************************)
(* record: d, s, o, o1 per point (already in time order), v, recenter,     *)
(* rate, renorm, yoy_t (index of labelled point), yoy, usage               *)
(***************************************************************************)
Range(q) == {q[k] : k \in 1..Len(q)}
Full(e, A, N, v0) ==
    LET part == Tab(Len(A), LAMBDA j : Partners(A, N, j))
        f    == IF e.recenter THEN Renorm(A, v0) ELSE One
        v    == Centred(v0, f)
        ends == TLCEval(Ends(v, part))
        got  == NumSeq(e.yoy)
        SlopeOk(k) == \E i \in part[ends[k]] : Close(Slope(v, A, i, ends[k]), got[k])
        tied == {i \in 1..Len(A) : \E j \in 1..Len(A) : Cardinality(part[j]) > 1 /\ i \in part[j]}
        starts == TLCEval(UNION {part[ends[k]] : k \in 1..Len(ends)})
        use(i) == (IF i \in Range(ends) THEN 1 ELSE 0) + (IF i \in starts /\ ~IsNaN(v[i]) THEN 1 ELSE 0)
    IN IF \E j \in 1..Len(A) : Cardinality(part[j]) > 1 /\ \E i \in part[j] : IsNaN(v[i])
       THEN {}                       \* tied partners, one of them missing: either reading is allowed
       ELSE IF e.err # "" THEN (IF ends = <<>> THEN Clause("no pair: refused", e.err = "ValueError") ELSE {"raised " \o e.err})
       ELSE IF ends = <<>> THEN {"a series without any pair must be refused"}
       ELSE (IF e.full
             THEN Clause("slopes are labelled at exactly the points with a valid partner", e.yoy_t = ends)
                  \cup (IF e.yoy_t = ends
                        THEN LET bad == {k \in 1..Len(ends) : ~SlopeOk(k)}
                             IN IF bad = {} THEN {} ELSE {"slope of point " \o ToString(ends[IMin(bad)]) \o " is " \o NStr(got[IMin(bad)]) \o ", specification " \o NStr(Slope(v, A, IMax(part[ends[IMin(bad)]]), ends[IMin(bad)]))}
                        ELSE {})
                  \cup Clause("rate is the median slope", Close(Median(got), NP(e.rate)))
                  \cup Clause("renormalizing factor", Close(f, NP(e.renorm)))
                  \cup LET bad == {i \in 1..Len(A) : i \notin tied /\ e.usage[i] # use(i)}
                       IN IF bad = {} THEN {} ELSE {"usage of point " \o ToString(IMin(bad)) \o " is " \o ToString(e.usage[IMin(bad)])}
             ELSE Clause("rate is the median slope", tied # {} \/ Close(Rate(v, A, part), NP(e.rate))))
Verdict(e) ==
    LET p == [d |-> e.d, s |-> e.s, o |-> e.o, o1 |-> e.o1, o2 |-> e.o2, exactstep |-> e.exactstep]
        A == AbsSeq(p)
        N == AnnSeq(p)
        v0 == NumSeq(e.v)
        enough == Enough(p, A)
    IN IF enough = "F" THEN Clause("less than two years must be refused", e.err = "ValueError")
       ELSE IF enough = "?" /\ e.err = "ValueError" THEN {}
       ELSE IF e.recenter /\ ~RobustSafe(RenormSet(A, v0), NQ(99, 100)) THEN {}
       ELSE Full(e, A, N, v0)
=============================================================================
