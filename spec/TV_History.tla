----------------------------- MODULE TV_History -----------------------------
EXTENDS History, TraceBase
Ok(name, b) == IF b THEN {} ELSE {name}
\* fingerprint a fresh object gives for a key
Expect(e, key) == IF key = None THEN "" ELSE
    LET m == {i \in 1..Len(e.fresh) : e.fresh[i].key = key} IN IF m = {} THEN "?" ELSE e.fresh[CHOOSE i \in m : TRUE].print
Perf(e, key) == LET m == {i \in 1..Len(e.fresh) : e.fresh[i].key = key} IN IF m = {} THEN "?" ELSE e.fresh[CHOOSE i \in m : TRUE].perf
Here(i, o) == "step " \o ToString(i) \o " (" \o o.op \o "): "
RECURSIVE Walk(_, _, _, _)
Walk(e, s, prev, i) ==
    IF i > Len(e.steps) THEN {}
    ELSE LET o == e.steps[i]
             t == TLCEval(Perform(e.data, s, o))
             other == IF o.op = "sensor" THEN "clearsky" ELSE "sensor"
             ranOk == o.op \in {"sensor", "clearsky"} /\ ~Errs(e.data, s, o)
             bad == Ok(Here(i, o) \o "refused exactly when its prerequisites are missing", (o.err # "") = Errs(e.data, s, o))
                    \cup Ok(Here(i, o) \o "sensor result is that of a fresh object with this configuration", o.sensor = Expect(e, t.sensor))
                    \cup Ok(Here(i, o) \o "clear-sky result is that of a fresh object with this configuration", o.clearsky = Expect(e, t.clearsky))
                    \cup Ok(Here(i, o) \o "results only for completed workflows",
                            {o.workflows[j] : j \in 1..Len(o.workflows)} = {w \in {"sensor", "clearsky"} : (IF w = "sensor" THEN t.sensor ELSE t.clearsky) # None})
                    \cup Ok(Here(i, o) \o "the other workflow's series are untouched",
                            IF o.op \in {"sensor", "clearsky"} THEN o.series[other] = prev[other]
                            ELSE o.series.sensor = prev.sensor /\ o.series.clearsky = prev.clearsky)
                    \cup (IF ~ranOk THEN {} ELSE Ok(Here(i, o) \o "series are those of a fresh object", o.series[o.op] = Perf(e, Key(s.c, o.op, o.arg))))
                    \cup Ok(Here(i, o) \o "only the requested analyses", ~ranOk \/ {o.names[j] : j \in 1..Len(o.names)} = {o.arg[j] : j \in 1..Len(o.arg)})
         IN IF bad # {} THEN bad ELSE Walk(e, t, o.series, i + 1)
Verdict(e) == Walk(e, Fresh, [sensor |-> "", clearsky |-> ""], 1)
=============================================================================
