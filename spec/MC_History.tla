----------------------------- MODULE MC_History -----------------------------
EXTENDS History, Json
CONSTANTS FPs, APs, Freqs, CSs, Analyses, Depth, Emit
VARIABLES data, s, done, hist
vars == <<data, s, done, hist>>
QuickAnalyses == {<<>>, <<"yoy">>, <<"srr">>, <<"yoy", "bad_srr">>}
NoAnalyses == {<<>>}
Runs == {[op |-> w, arg |-> a] : w \in {"sensor", "clearsky"}, a \in Analyses}
Sets == {[op |-> "fp", arg |-> x] : x \in FPs} \cup {[op |-> "ap", arg |-> x] : x \in APs}
        \cup {[op |-> "freq", arg |-> x] : x \in Freqs} \cup {[op |-> "cs", arg |-> x] : x \in CSs}
        \cup {[op |-> x, arg |-> "-"] : x \in {"csbad", "plot"}}
Init == data \in {[long |-> TRUE], [long |-> FALSE]} /\ s = Fresh /\ done = {} /\ hist = <<>>
Step(o) == /\ Len(hist) < Depth
           /\ s' = Perform(data, s, o)
           /\ hist' = Append(hist, o)
           /\ done' = IF o.op \in {"sensor", "clearsky"} /\ ~Errs(data, s, o) THEN done \cup {Key(s.c, o.op, o.arg)} ELSE done
           /\ data' = data
           /\ (Emit /\ Len(hist') = Depth /\ o.op \in {"sensor", "clearsky"}) =>
                PrintT(<<"CASE", ToJson([long |-> data.long, hist |-> hist'])>>)
Next == \E o \in Runs \cup Sets : Step(o)
Spec == Init /\ [][Next]_vars
\* a stored result is one that an analysis with its configuration completed
FromARun == (s.sensor # None => s.sensor \in done) /\ (s.clearsky # None => s.clearsky \in done)
\* running one workflow, or configuring, leaves the other workflow's result alone
Isolated == [][ LET o == hist'[Len(hist')]
                IN /\ (o.op # "sensor" => s'.sensor = s.sensor)
                   /\ (o.op # "clearsky" => s'.clearsky = s.clearsky)
                   /\ (Errs(data, s, o) => s' = s) ]_vars
\* repeating an analysis at once reproduces it
Repeatable == \A o \in Runs : LET t == Perform(data, s, o) IN Perform(data, t, o) = t
\* the same configuration gives the same key on any other history
HistoryFree == \A o \in Runs : ~Errs(data, s, o) =>
                  LET t == Perform(data, s, o)
                      f == Perform(data, [Fresh EXCEPT !.c = s.c], o)
                  IN IF o.op = "sensor" THEN t.sensor = f.sensor ELSE t.clearsky = f.clearsky
=============================================================================
