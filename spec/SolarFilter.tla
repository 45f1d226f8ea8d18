---------------------------- MODULE SolarFilter -----------------------------
(***************************************************************************)
(* The hour-angle filter and the parameters of clear-sky detection.        *)
(***************************************************************************)
EXTENDS Series

\* ---- hour angle (degrees, zero at solar noon, in [-180, 180))
Wrap(x) == LET y == x \oplus NI(180) IN (y \ominus (NI(360) \otimes NI(NFloor(y \oslash NI(360))))) \ominus NI(180)
HourAngle(utcSec, lon, eotMin) == Wrap((NQ(utcSec, 240) \ominus NI(180)) \oplus lon \oplus (eotMin \oslash NI(4)))
\* "?" when the angle is at a bound to within the precision of the ephemeris arithmetic
Within(h, lo, hi) == LET T(a, b) == IF NAbs(a \ominus b) \prec NQ(1, 10000000) THEN "?" ELSE TF(a \preceq b)
                     IN TAnd(T(lo, h), T(h, hi))
\* equation of time in minutes by Spencer's series (independent of the ephemeris; within a minute)
Sine(t) == NCos(t \ominus NQ(1, 4))
Spencer(doy) == LET b == NQ(doy - 1, 365)
                IN NQ(22918, 100) \otimes (NQ(75, 1000000) \oplus (NQ(1868, 1000000) \otimes NCos(b))
                     \ominus (NQ(32077, 1000000) \otimes Sine(b)) \ominus (NQ(14615, 1000000) \otimes NCos(b \otimes NI(2)))
                     \ominus (NQ(4089, 100000) \otimes Sine(b \otimes NI(2))))

\* ---- recommended detection parameters by sampling interval (minutes)
Knots == <<1, 5, 15, 30>>
Windows == <<NI(50), NI(60), NI(90), NI(120)>>
MaxDiffs == <<NI(60), NI(65), NI(75), NI(90)>>
VarDiffs == <<NQ(5, 1000), NQ(10, 1000), NQ(32, 1000), NQ(70, 1000)>>
SlopeDevs == <<NI(50), NI(60), NI(75), NI(96)>>
Lookup(tab, m) ==
    IF m \preceq NI(Knots[1]) THEN tab[1]
    ELSE IF NI(Knots[4]) \preceq m THEN tab[4]
    ELSE LET k == CHOOSE k \in 1..3 : NI(Knots[k]) \preceq m /\ m \prec NI(Knots[k+1])
         IN tab[k] \oplus ((tab[k+1] \ominus tab[k]) \otimes ((m \ominus NI(Knots[k])) \oslash NI(Knots[k+1] - Knots[k])))
=============================================================================
