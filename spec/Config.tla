------------------------------- MODULE Config -------------------------------
(***************************************************************************)
(* The filter configuration of a trend analysis and the way configured     *)
(* filters combine.                                                        *)
(* A configuration is a set of <<name, value>> pairs, one per name.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

PointFilters == {"normalized_filter", "poa_filter", "tcell_filter", "clip_filter", "hour_angle_filter",
                 "clearsky_filter", "sensor_clearsky_filter", "ad_hoc_filter"}
PeriodFilters == {"two_way_window_filter", "insolation_filter", "hampel_filter", "directional_tukey_filter",
                  "ad_hoc_filter"}
NamesOf(cfg) == {p[1] : p \in cfg}
Put(cfg, k, v) == {p \in cfg : p[1] # k} \cup {<<k, v>>}
RECURSIVE PutAll(_, _)
PutAll(cfg, items) == IF items = <<>> THEN cfg
                      ELSE PutAll(Put(cfg, items[1][1], items[1][2]), Tail(items))
Drop(cfg, k) == {p \in cfg : p[1] # k}
ItemNames(items) == {items[i][1] : i \in 1..Len(items)}
Done(c) == [cfg |-> {c}, err |-> ""]
Refuse(cfg, e) == [cfg |-> {cfg}, err |-> e]

(* The outcome of one configuration operation: the possible configurations *)
(* afterwards and the error, "" if none.                                   *)
Apply(valid, cfg, op, items) ==
    CASE op \in {"set", "update", "ior"} ->
            IF ItemNames(items) \subseteq valid THEN Done(PutAll(cfg, items)) ELSE Refuse(cfg, "KeyError")
      [] op = "assign" ->
            IF ItemNames(items) \subseteq valid THEN Done(PutAll({}, items)) ELSE Refuse(cfg, "KeyError")
      [] op = "assign_other" -> Refuse(cfg, "ValueError")
      [] op = "setdefault" ->
            LET k == items[1][1]
            IN IF k \notin valid THEN Refuse(cfg, "KeyError")
               ELSE Done(IF k \in NamesOf(cfg) THEN cfg ELSE PutAll(cfg, items))
      [] op \in {"del", "pop"} ->
            LET k == items[1][1]
            IN IF k \in NamesOf(cfg) THEN Done(Drop(cfg, k)) ELSE Refuse(cfg, "KeyError")
      [] op = "discard" -> Done(Drop(cfg, items[1][1]))
      [] op = "popitem" -> IF cfg = {} THEN Refuse(cfg, "KeyError")
                           ELSE [cfg |-> {cfg \ {p} : p \in cfg}, err |-> ""]
      [] op = "clear" -> Done({})
      [] op = "clone" -> Done(cfg)         \* copies, deep copies, pickles of the dictionary or the analysis

(* Combination.  A filter is a set of pairs <<time, "T"/"F"/"U">> (U: undefined);
   the times it does not mention are excluded, except for the user's own mask.  *)
ValueAt(f, t) == LET s == {p \in f : p[1] = t} IN IF s = {} THEN "-" ELSE (CHOOSE p \in s : TRUE)[2]
Keeps(name, f, t) == LET v == ValueAt(f, t)
                     IN IF name = "ad_hoc_filter" THEN v \in {"T", "-"} ELSE v = "T"
\* which configured names have a say in a workflow
InForce(workflow, name) == ~(name = "clearsky_filter" /\ workflow = "sensor")
                           /\ ~(name = "sensor_clearsky_filter" /\ workflow = "clearsky")
\* filters: a set of <<name, mask>>; base: the times that can be analysed at all
Combined(base, filters, t) == t \in base /\ \A f \in filters : Keeps(f[1], f[2], t)
=============================================================================
