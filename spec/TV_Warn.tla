------------------------------- MODULE TV_Warn -------------------------------
EXTENDS Warn, TraceBase
SetOf(s) == {s[i] : i \in 1..Len(s)}
Known == {"excluded", "local", "variable", "temperature", "expected", "point holes", "point index", "period holes", "period index",
          "even", "invalid", "insolation", "levels", "coordinates", "deprecated"}
Called(e) ==
    CASE e.op = "interp" -> UNION {LET V == NumSeq(e.v[c])  G == IF e.g = 0 THEN DefaultGap(VT(e.t, V)) ELSE NI(e.g)
                                   IN Bridging(e.t, V, G, NQ(e.thr[1], e.thr[2])) : c \in 1..Len(e.v)}
      [] e.op = "clip" -> Sampling(e.t, e.zone)
      [] e.op = "trend" -> Trend(e.wf, e.opt, e.points, e.periods)
      [] e.op = "srr" -> Even(e.w, e.criterion) \cup Unusable(e.valid, e.method)
      [] e.op = "annual" -> Covered(SetOf(e.days), SetOf(e.insol))
      [] e.op = "avail" -> Levels(NumSeq(e.sys), NumSeq(e.sub))
      [] e.op = "place" -> Absent(NumSeq(e.out))
      [] e.op \in {"delta", "freq"} -> {"deprecated"}
Listed(s) == IF s = {} THEN "nothing" ELSE ToString(s)
\* what the deprecated helpers still return
Deltas(e) == Tab(Len(e.t), LAMBDA i : IF i = 1 THEN (IF e.step = 0 THEN NaN ELSE NQ(e.step, 3600)) ELSE NQ(e.t[i] - e.t[i-1], 3600))
Helper(e) ==
    IF e.op = "delta" THEN SeqClause("interval lengths in hours", Deltas(e), NumSeq(e.out))
                           \cup Clause("their mean", LET d == Valid(Deltas(e)) IN NClose(Mean(d), NP(e.mean), NQ(1, 1000000000), NQ(1, 1000000000)))
    ELSE IF e.op = "freq" THEN Clause("a regular series has its frequency, another is refused", IF e.regular THEN e.err = "" /\ e.same ELSE e.err = "ValueError")
    ELSE {}
Verdict(e) ==
    IF e.err # "" /\ e.op # "freq" THEN {"raised " \o e.err}
    ELSE LET said == SetOf(e.said) \cap (IF e.op = "interp" THEN Known ELSE Known \ {"excluded"})      \* (interpolation may be a step of other calls)
             due == TLCEval(Called(e))
         IN Helper(e)
            \cup Clause("no warning of this kind was due: " \o Listed(said \ due), said \subseteq due)
            \cup Clause("the user was not warned: " \o Listed(due \ said), due \subseteq said)
            \cup (IF e.op = "interp" /\ e.pct # "" /\ Len(e.v) = 1
                  THEN LET V == NumSeq(e.v[1])  G == IF e.g = 0 THEN DefaultGap(VT(e.t, V)) ELSE NI(e.g)
                       IN Clause("the share reported in the warning", NClose(NP(e.pct), Share(e.t, V, G) \otimes NI(100), NQ(6, 1000), NI(0)))
                  ELSE {})
=============================================================================
