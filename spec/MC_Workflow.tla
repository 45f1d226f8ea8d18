---------------------------- MODULE MC_Workflow ----------------------------
(* One plant is recorded; options are chosen; the composition is checked for *)
(* what every user relies on, and every choice is replayed in the library.   *)
EXTENDS Workflow, Json
CONSTANTS Points, Patterns, Emit
VARIABLES cfg, pv, hole, done
vars == <<cfg, pv, hole, done>>
W == 360                                   \* minutes between points
P1 == {<<100, 220, 150, 300, 260, 90, 310, 240, 180>>}
P2 == P1 \cup {<<0, 0, 250, 260, 0, 0, 240, 255, 0>>, <<50, 400, 20, 350, 60, 390, 10, 333, 70>>}
Txt(x) == IF x = Missing THEN "nan" ELSE ToString(x)
Times == [i \in 1..Points |-> 120 + (i - 1) * W]
S(vals) == [t |-> Times, v |-> Tab(Points, LAMBDA i : Txt(vals[i]))]
Empty == [t |-> <<>>, v |-> <<>>]
Irr == Tab(Points, LAMBDA i : 400 + 150 * (i % 4))
Temp == Tab(Points, LAMBDA i : 20 + 5 * (i % 3))
Options == [workflow : {"sensor", "clearsky"}, energy : BOOLEAN, temp : {"cell", "ambient", "none"}, wind : BOOLEAN,
            rated : {"", "2"}, gamma : {"", "-1/250"}, expected : BOOLEAN, interp : {0, 180, 720}, gap : {0, 800},
            freq : {<<"D", 1>>, <<"S", 720>>}, filt : {"none", "band", "clip"}, period : {"none", "insolation"}]
\* options that no workflow can serve
Refused(o) == CASE o.filt = "clip" /\ o.energy -> "no power to clip"
                [] ~o.expected /\ o.temp = "none" -> "no temperature"
                [] OTHER -> ""
Sensible(o) == /\ (o.temp = "none" => o.expected /\ o.workflow = "sensor")
               /\ (o.wind => o.temp = "ambient" /\ o.workflow = "sensor" /\ ~o.expected)
               /\ (o.expected => o.rated = "" /\ o.gamma = "")
               /\ (o.energy => o.interp = 0)
Scaled(vals, f) == Tab(Len(vals), LAMBDA i : IF vals[i] = Missing THEN Missing ELSE vals[i] * f)
Record(o, p, f) ==
    LET z == S(Scaled(p, f))
        temp == S(Temp)
        clear == o.workflow = "clearsky"
    IN [workflow |-> o.workflow, modelled |-> FALSE, climate |-> FALSE, energy |-> o.energy, pv |-> z, poa |-> S(Irr),
        tcell |-> IF o.temp = "cell" /\ ~clear THEN temp ELSE Empty, tamb |-> IF o.temp = "ambient" /\ ~clear THEN temp ELSE Empty,
        cs_poa |-> IF clear THEN S(Scaled(Irr, 1)) ELSE Empty, cs_tcell |-> IF clear /\ o.temp = "cell" THEN temp ELSE Empty,
        cs_tamb |-> IF clear /\ o.temp = "ambient" THEN temp ELSE Empty,
        wind |-> IF o.wind THEN S(Tab(Points, LAMBDA i : i % 3)) ELSE Empty, wind_const |-> "0",
        sapm |-> <<"-89/25", "-3/40", "3">>, rated |-> o.rated, gamma |-> o.gamma, expected |-> IF o.expected THEN S(Scaled(Irr, 2)) ELSE Empty,
        interp |-> o.interp, gap |-> o.gap, freq |-> o.freq[1], mult |-> o.freq[2], zone |-> << <<0, 0>> >>, adhoc |-> <<>>,
        filters |-> (CASE o.filt = "none" -> [x \in {} |-> 0] [] o.filt = "band" -> [normalized |-> <<"1/50", "9">>, poa |-> <<"300", "900">>] [] o.filt = "clip" -> [clip |-> <<"9/10">>])
                    @@ (IF o.period = "none" THEN [x \in {} |-> 0] ELSE [insolation |-> <<"1/4">>])]
Init == /\ cfg \in {o \in Options : Sensible(o)} /\ pv \in Patterns /\ hole \in 0..1 /\ done = FALSE
        /\ (hole > 0 => cfg.gap = 0 /\ cfg.freq[1] = "D")
PV == IF hole = 0 THEN pv ELSE [pv EXCEPT ![3] = Missing]
Finish == /\ ~done /\ done' = TRUE /\ UNCHANGED <<cfg, pv, hole>>
          /\ Emit => PrintT(<<"CASE", ToJson([cfg |-> cfg, pv |-> PV])>>)
Next == Finish
Spec == Init /\ [][Next]_vars
Out(f) == Stages(Record(cfg, PV, f), FALSE)
\* without a rating the performance does not depend on the scale of the PV signal; with one it is proportional
Scale == done => LET a == TLCEval(Out(1))  b == TLCEval(Out(4))
                     free == ~cfg.expected /\ cfg.rated = ""
                     banded == cfg.filt = "band"
                 IN ~(a.sure /\ b.sure) \/ (banded /\ ~free) \/
                    (/\ a.out.labels = b.out.labels /\ a.out.ins = b.out.ins
                     /\ \A k \in 1..Len(a.out.perf) : LET x == IF free THEN a.out.perf[k] ELSE a.out.perf[k] \otimes NI(4)
                                                      IN (IsNaN(x) /\ IsNaN(b.out.perf[k])) \/ NClose(x, b.out.perf[k], NQ(1, 1000000000), Zero))
\* consecutive periods; energy is never created by the composition
Calendar == done => LET a == TLCEval(Out(1)) IN \A k \in 2..Len(a.out.labels) : a.out.labels[k] - a.out.labels[k-1] = cfg.freq[2]
Ordered == done => LET a == TLCEval(Out(1)) IN \A k \in 1..Len(a.out.ins) : IsNaN(a.out.ins[k]) \/ Zero \preceq a.out.ins[k]
=============================================================================
