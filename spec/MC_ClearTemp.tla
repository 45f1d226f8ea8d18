---------------------------- MODULE MC_ClearTemp ----------------------------
(* A place observed hour by hour over three days; its clock may run on any zone. *)
EXTENDS ClearTemp, Json
CONSTANTS Longitudes, Zones, Days, Emit
VARIABLES lon, zone, day, utc
vars == <<lon, zone, day, utc>>
D == NI(30)
N == NI(10)
Init == lon \in Longitudes /\ zone \in Zones /\ day \in Days /\ utc = 0
Tick == /\ utc < 48 /\ utc' = utc + 1 /\ UNCHANGED <<lon, zone, day>>
        /\ (Emit /\ utc = 0) => PrintT(<<"CASE", ToJson([lon |-> lon, zone |-> zone, day |-> day])>>)
Spec == Init /\ [][Tick]_vars
Temp(u, l) == Curve(D, N, SolarTurns(3600 * u, NI(l)))
\* the value computed from the local clock (hour of day, utc offset) is the same
Clock == (utc + zone) % 24
FromClock == Curve(D, N, (NI(Clock) \oplus NI(8) \oplus (NQ(lon, 15) \ominus NI(zone))) \oslash NI(24))
ZoneFree == NClose(FromClock, Temp(utc, lon), NQ(1, 1000000000), NQ(1, 1000000000))
Bounded == NAbs(Temp(utc, lon) \ominus NI(20)) \preceq (NI(7) \oplus NQ(1, 1000000000))
Daily == NClose(Temp(utc + 24, lon), Temp(utc, lon), NQ(1, 1000000000), NQ(1, 1000000000))
\* fifteen degrees further east the same temperature comes an hour earlier
Eastward == NClose(Temp(utc, lon + 15), Temp(utc + 1, lon), NQ(1, 1000000000), NQ(1, 1000000000))
\* smoothing a constant climatology changes nothing; smoothing stays within the yearly extremes
Const == Tab(12, LAMBDA k : NI(7))
Saw == Tab(12, LAMBDA k : NI(k))
SmoothInside == LET w == GaussW(9, NI(4))
                    c == Smooth(Const, 9, w, day)  s == Smooth(Saw, 9, w, day)
                IN NClose(c, NI(7), NQ(1, 1000000000), NQ(1, 1000000000)) /\ One \preceq s /\ s \preceq NI(12)
=============================================================================
