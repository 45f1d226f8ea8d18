----------------------------- MODULE ClearTemp ------------------------------
(***************************************************************************)
(* Clear-sky ambient temperature (rdtools.clearsky_temperature).           *)
(* The climatology of a place is a pair of monthly tables (day, night).    *)
(***************************************************************************)
EXTENDS Series, Cal

Lons == 36
Lats == 18
\* the synthetic grid written by harness/climate.py (i, j, k from 0)
Hole(i, j) == i # 0 /\ (5 * i + 3 * j) % 7 = 0
DayTable(i, j, k) == IF Hole(i, j) THEN NaN ELSE NQ(((7 * i + 11 * j + 3 * k * k + i * j) % 41) * 4 - 20 + k, 4)
NightTable(i, j, k) == IF Hole(i, j) THEN NaN ELSE DayTable(i, j, k) \ominus NQ(8 + ((i + 3 * j + 5 * k) % 60), 4)

\* nearest grid column and row of a coordinate (numbers); -1 when outside the grid
RoundN(x) == NFloor(x \oplus NQ(1, 2))
LonCell(lon) == LET x == (lon \oplus NI(180)) \otimes NQ(Lons, 360) IN RoundN(x) % Lons     \* lon - 180 modulo 360
LatCell(lat) == RoundN((NI(90) \ominus lat) \otimes NQ(Lats, 180))
OnGrid(lat) == LatCell(lat) \in 0..(Lats - 1)
\* a coordinate half-way between two cells belongs to either
Halfway(x) == NAbs((x \ominus NI(NFloor(x))) \ominus NQ(1, 2)) \prec NQ(1, 1000000)
Tie(lat, lon) == Halfway((lon \oplus NI(180)) \otimes NQ(Lons, 360)) \/ Halfway((NI(90) \ominus lat) \otimes NQ(Lats, 180))

\* Gaussian weights of a window of w days
GaussW(w, std) == Tab(w, LAMBDA m : LET z == (NI(m - 1) \ominus NQ(w - 1, 2)) \oslash std
                                    IN NExp(NNeg((z \otimes z) \oslash NI(2))))
\* smoothed value of day d: the window ends (w-1)/2 days after it
Smooth(months, w, wt, d) ==
    LET off == (w - 1) \div 2
        x == Tab(w, LAMBDA m : months[Civil(d + off - w + m)[2]])
    IN NDot(x, wt) \oslash NSum(wt)

\* temperature: mean plus 0.35 x range x cosine of the solar time (16 h is the maximum)
Curve(day, night, turns) == (NQ(7, 20) \otimes (day \ominus night) \otimes NCos(turns)) \oplus ((day \oplus night) \oslash NI(2))
SolarTurns(utcSec, lon) == NQ(utcSec, 86400) \oplus (lon \oslash NI(360)) \oplus NQ(8, 24)
=============================================================================
