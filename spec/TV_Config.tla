------------------------------ MODULE TV_Config ------------------------------
EXTENDS Config, TraceBase, FiniteSets
Ok(name, b) == IF b THEN {} ELSE {name}
SetOf(s) == {s[i] : i \in 1..Len(s)}
\* ---- operation histories of the configuration dictionaries
Defaults(which) == IF which = "point"
    THEN {<<n, "{}">> : n \in {"normalized_filter", "poa_filter", "tcell_filter", "clip_filter", "clearsky_filter"}}
         \cup {<<"ad_hoc_filter", "None">>}
    ELSE {<<"two_way_window_filter", "{}">>, <<"ad_hoc_filter", "None">>}
RECURSIVE Walk(_, _, _, _)
Walk(valid, cfg, steps, i) ==
    IF i > Len(steps) THEN {}
    ELSE LET s == steps[i]
             r == TLCEval(Apply(valid, cfg, s.op, s.items))
             after == SetOf(s.after)
         IN IF s.err # r.err THEN {"step " \o ToString(i) \o " " \o s.op \o ": raised " \o s.err \o " instead of " \o r.err}
            ELSE IF after \notin r.cfg THEN {"step " \o ToString(i) \o " " \o s.op \o ": configuration afterwards"}
            ELSE Walk(valid, after, steps, i + 1)
History(e) ==
    LET valid == IF e.which = "point" THEN PointFilters ELSE PeriodFilters
        start == SetOf(e.start)
    IN Ok("documented default configuration",
          start = IF e.tcell THEN Defaults(e.which) ELSE {p \in Defaults(e.which) : p[1] # "tcell_filter"})
       \cup Walk(valid, start, e.steps, 1)
\* ---- combination of the configured filters on data
Impossible(e) ==
    LET conf == SetOf(e.conf)
    IN IF e.workflow = "sensor"
       THEN \/ ~e.poa
            \/ (~e.expected /\ ~e.temp)
            \/ (e.expected /\ ~e.tcell /\ "tcell_filter" \in conf)
            \/ ("clip_filter" \in conf /\ ~e.power)
            \/ ("hour_angle_filter" \in conf /\ ~e.location)
            \/ ("sensor_clearsky_filter" \in conf /\ ~e.clearsky)
       ELSE \/ ~e.clearsky
            \/ ("clearsky_filter" \in conf /\ ~e.poa)
            \/ ("clip_filter" \in conf /\ ~e.power)
            \/ ("hour_angle_filter" \in conf /\ ~e.location)
Stage(e, s, names) ==
    LET refs == SetOf(s.refs)
        fs == {<<r.name, {<<r.t[i], r.v[i]>> : i \in 1..Len(r.t)}>> : r \in refs}
        cols == {c.name : c \in SetOf(s.comp)}
        times == SetOf(s.base) \cup UNION {SetOf(r.t) : r \in {q \in refs : q.name # "ad_hoc_filter"}}
        Cell(c) == \A i \in 1..Len(s.idx) : c.v[i] = LET f == CHOOSE g \in fs : g[1] = c.name IN Keeps(c.name, f[2], s.idx[i])
    IN Ok(s.stage \o ": one component per configured filter in force", cols = names /\ Len(s.comp) = Cardinality(cols))
       \cup Ok(s.stage \o ": filter index", SetOf(s.idx) = times /\ Len(s.idx) = Cardinality(times))
       \cup (IF cols # names THEN {} ELSE
             UNION {Ok(s.stage \o ": component " \o c.name \o " is the named filter with the configured parameters", Cell(c)) : c \in SetOf(s.comp)})
       \cup Ok(s.stage \o ": kept exactly when every filter keeps it",
               \A i \in 1..Len(s.idx) : s.mask[i] = Combined(SetOf(s.base), fs, s.idx[i]))
Combine(e) ==
    IF Impossible(e) THEN Ok("a workflow whose prerequisites are missing is refused", e.err # "")
    ELSE IF e.err # "" THEN {"raised " \o e.err}
    ELSE UNION {Stage(e, e.stages[i], {n \in SetOf(e.stages[i].conf) : InForce(e.workflow, n)}) : i \in 1..Len(e.stages)}
Verdict(e) == IF e.kind = "history" THEN History(e) ELSE Combine(e)
=============================================================================
