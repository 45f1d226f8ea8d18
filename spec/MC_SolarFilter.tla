--------------------------- MODULE MC_SolarFilter ---------------------------
(* The sun over a site, sampled every Step minutes; eot in quarter minutes. *)
EXTENDS SolarFilter, Json
CONSTANTS Sites, Eots, Los, His, Step, Emit
QuickSites == {-155, -105, 0, 13, 134, 174, 180}
QuickEots == {-14, 0, 16}
QuickLos == {-180, -90, -30, 10}
QuickHis == {-10, 30, 90, 179}
DeepSites == {12 * k - 180 : k \in 0..29}
VARIABLES lon, eot, lo, hi, utc, kept
vars == <<lon, eot, lo, hi, utc, kept>>
H(u) == HourAngle(60 * u, NI(lon), NI(eot))
Init == lon \in Sites /\ eot \in Eots /\ lo \in Los /\ hi \in His /\ lo <= hi /\ utc = 0 /\ kept = 0
Tick == /\ utc < 1440 /\ utc' = utc + Step
        /\ kept' = kept + (IF NI(lo) \preceq H(utc) /\ H(utc) \preceq NI(hi) THEN 1 ELSE 0)
        /\ UNCHANGED <<lon, eot, lo, hi>>
        /\ (Emit /\ utc = 0) => PrintT(<<"CASE", ToJson([lon |-> lon, eot |-> eot, lo |-> lo, hi |-> hi])>>)
Spec == Init /\ [][Tick]_vars
InRange == NI(-180) \preceq H(utc) /\ H(utc) \prec NI(180)
Advances == LET d == Wrap(H(utc + Step) \ominus H(utc)) IN NEq(d, NQ(Step, 4))
Daily == NEq(H(utc + 1440), H(utc))
\* over a day the filter keeps the asked-for share of the circle, wherever the site is
Share == utc = 1440 => NAbs(NI(kept * Step) \ominus NI(4 * (hi - lo))) \preceq NI(Step)
\* the lookup is monotone, exact at the recommended rows and constant outside
Tabs == {Windows, MaxDiffs, VarDiffs, SlopeDevs}
Monotone == utc = 0 => \A t \in Tabs : \A m \in 0..39 : Lookup(t, NQ(m, 1)) \preceq Lookup(t, NQ(m + 1, 1))
AtKnots == utc = 0 => \A t \in Tabs : \A k \in 1..4 : NEq(Lookup(t, NI(Knots[k])), t[k])
=============================================================================
