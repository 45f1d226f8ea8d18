------------------------------ MODULE History -------------------------------
(***************************************************************************)
(* The life of one trend-analysis object.  Its state: the configuration    *)
(* (point filters, period filters, aggregation frequency, clear-sky set-up)*)
(* and, per workflow, the result stored last.  A result is identified by   *)
(* its key: everything it may depend on.                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* facts about the object's data that decide refusals: long (two years), sensor (has POA)
None == <<"none">>
\* what the point-filter configurations need / do
UsesClearskyInSensor(fp) == fp = "sensorcs"
Starves(fp) == fp = "starve"                     \* leaves less than two years of data

Asks(an, what) == \E i \in 1..Len(an) : an[i] = what
Fails(an) == Asks(an, "bad_yoy") \/ Asks(an, "bad_srr")   \* called with options the analysis refuses

SensorKey(c, an) == <<"sensor", c.fp, c.ap, c.freq, IF UsesClearskyInSensor(c.fp) THEN c.cs ELSE "any", an>>
ClearKey(c, an) == <<"clearsky", c.fp, c.ap, c.freq, c.cs, an>>
Key(c, workflow, an) == IF workflow = "sensor" THEN SensorKey(c, an) ELSE ClearKey(c, an)

\* the reasons for which an analysis is refused
Refused(data, c, workflow, an) ==
    \/ workflow = "sensor" /\ UsesClearskyInSensor(c.fp) /\ c.cs = "unset"
    \/ workflow = "clearsky" /\ c.cs = "unset"
    \/ Asks(an, "yoy") /\ (~data.long \/ Starves(c.fp))
    \/ Asks(an, "srr") /\ c.freq # "D"
    \/ Fails(an)

\* one operation o on the object state s = [c, sensor, clearsky]
Perform(data, s, o) ==
    CASE o.op = "fp"   -> [s EXCEPT !.c.fp = o.arg]
      [] o.op = "ap"   -> [s EXCEPT !.c.ap = o.arg]
      [] o.op = "freq" -> [s EXCEPT !.c.freq = o.arg]
      [] o.op = "cs"   -> [s EXCEPT !.c.cs = o.arg]
      [] o.op \in {"csbad", "fpbad", "plot", "clone"} -> s       \* refused set-up, plots and copies change nothing
      [] o.op = "sensor"   -> IF Refused(data, s.c, "sensor", o.arg) THEN s ELSE [s EXCEPT !.sensor = SensorKey(s.c, o.arg)]
      [] o.op = "clearsky" -> IF Refused(data, s.c, "clearsky", o.arg) THEN s ELSE [s EXCEPT !.clearsky = ClearKey(s.c, o.arg)]
Errs(data, s, o) ==
    CASE o.op \in {"sensor", "clearsky"} -> Refused(data, s.c, o.op, o.arg)
      [] o.op \in {"csbad", "fpbad"} -> TRUE
      [] OTHER -> FALSE
Fresh == [c |-> [fp |-> "default", ap |-> "default", freq |-> "D", cs |-> "unset"], sensor |-> None, clearsky |-> None]
=============================================================================
