------------------------------ MODULE MC_Cal ------------------------------
\* a clock ticking day by day through 1968-01-01 .. 2104-12-31
EXTENDS Cal, TLC
VARIABLES n, y, m, d
Init == n = -731 /\ y = 1968 /\ m = 1 /\ d = 1
Next == /\ y < 2105 /\ n' = n + 1
        /\ IF d < DaysIn(y, m) THEN d' = d + 1 /\ UNCHANGED <<y, m>>
           ELSE d' = 1 /\ IF m < 12 THEN m' = m + 1 /\ y' = y ELSE m' = 1 /\ y' = y + 1
Spec == Init /\ [][Next]_<<n, y, m, d>>
RoundTrip == Civil(n) = <<y, m, d>> /\ DayNo(y, m, d) = n
Epoch == (n = 0) => y = 1970 /\ m = 1 /\ d = 1 /\ Weekday(n) = 3
Year == LET p == PlusYears(n, 1) IN p - n \in {365, 366} /\ (Civil(p)[2] = m)
Months == MonthStart(MonthIdx(n)) <= n /\ n <= MonthEnd(MonthIdx(n)) /\ DayOfYear(n) \in 1..366
=============================================================================
