-------------------------------- MODULE Cal --------------------------------
(***************************************************************************)
(* Proleptic Gregorian calendar on day numbers (day 0 = 1970-01-01).       *)
(***************************************************************************)
EXTENDS Integers, Sequences

IsLeap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
DaysIn(y, m) == IF m = 2 THEN (IF IsLeap(y) THEN 29 ELSE 28)
                ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
\* days from 1970-01-01 to y-m-d
DayNo(y, m, d) ==
    LET yy == IF m <= 2 THEN y - 1 ELSE y
        era == yy \div 400
        yoe == yy - era * 400
        mp == (m + 9) % 12
        doy == (153 * mp + 2) \div 5 + d - 1
        doe == yoe * 365 + yoe \div 4 - yoe \div 100 + doy
    IN era * 146097 + doe - 719468
\* <<year, month, day>> of a day number
Civil(n) ==
    LET z == n + 719468
        era == z \div 146097
        doe == z - era * 146097
        yoe == (doe - doe \div 1460 + doe \div 36524 - doe \div 146096) \div 365
        doy == doe - (365 * yoe + yoe \div 4 - yoe \div 100)
        mp == (5 * doy + 2) \div 153
        d == doy - (153 * mp + 2) \div 5 + 1
        m == IF mp < 10 THEN mp + 3 ELSE mp - 9
        y == yoe + era * 400
    IN <<IF m <= 2 THEN y + 1 ELSE y, m, d>>
Weekday(n) == (n + 3) % 7                       \* 0 = Monday
\* the same calendar day k years later (29 February becomes 28 February)
PlusYears(n, k) == LET c == Civil(n)
                       md == DaysIn(c[1] + k, c[2])
                   IN DayNo(c[1] + k, c[2], IF c[3] > md THEN md ELSE c[3])
MonthIdx(n) == LET c == Civil(n) IN 12 * c[1] + c[2] - 1
MonthStart(i) == DayNo(i \div 12, (i % 12) + 1, 1)
MonthEnd(i) == DayNo(i \div 12, (i % 12) + 1, DaysIn(i \div 12, (i % 12) + 1))
DayOfYear(n) == n - DayNo(Civil(n)[1], 1, 1) + 1
=============================================================================
