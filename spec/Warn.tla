-------------------------------- MODULE Warn --------------------------------
(***************************************************************************)
(* What the user is told: for every call, the set of warnings that its     *)
(* inputs call for - no fewer, and no others of those known here.          *)
(***************************************************************************)
EXTENDS Interp, FiniteSets
If(b, w) == IF b THEN {w} ELSE {}
Gaps(T) == Tab(Len(T) - 1, LAMBDA i : T[i+1] - T[i])
\* interpolation: the share of recorded values that follow an unbridged gap exceeds the threshold
Share(T, V, G) == LET s == Steps(VT(T, V)) IN NQ(Count(s, LAMBDA d : G \prec d), Len(s) + 1)
Bridging(T, V, G, thr) == If(thr \prec Share(T, V, G), "excluded")
\* clipping detection: no zone, or no interval between readings makes up 95% of the record
Reaches(T, d) == NQ(95, 100) \preceq NQ(Cardinality({i \in 1..(Len(T)-1) : T[i+1] - T[i] = d}), Len(T))
Variable(T) == ~\E i \in 1..(Len(T)-1) : Reaches(T, T[i+1] - T[i])
Sampling(T, zone) == If(~zone, "local") \cup If(Variable(T), "variable")
\* a trend analysis: opt.gamma, opt.expected: given; opt.point, opt.period: the user's own masks [given, holes, t]; points, periods: what they are matched with
Mask(m, times, hole, mismatch) == IF ~m.given THEN {} ELSE If(m.holes, hole) \cup If(m.t # times, mismatch)
Trend(wf, opt, points, periods) ==
    If(~opt.gamma /\ ~opt.expected, "temperature")
    \cup If(opt.expected /\ wf = "clearsky", "expected")
    \cup Mask(opt.point, points, "point holes", "point index") \cup Mask(opt.period, periods, "period holes", "period index")
\* soiling: even window for shift detection; a fifth of the days or more without a usable rate, when recoveries are drawn from it
RECURSIVE Ones(_, _)
Ones(v, i) == IF i = 0 THEN 0 ELSE Ones(v, i - 1) + (IF v[i] THEN 1 ELSE 0)
Even(w, criterion) == If(w % 2 = 0 /\ criterion \in {"shift", "precip_and_shift", "precip_or_shift"}, "even")
Unusable(valid, method) == If(method \in {"half_norm_clean", "random_clean"} /\ NQ(Ones(valid, Len(valid)), Len(valid)) \preceq NQ(8, 10), "invalid")
Covered(days, insol) == If(~(days \subseteq insol), "insolation")
Levels(sys, sub) == If(\E i \in 1..Len(sys) : NI(0) \prec sys[i] /\ NI(0) \prec sub[i], "levels")
Absent(v) == If(\E i \in 1..Len(v) : IsNaN(v[i]), "coordinates")
=============================================================================
