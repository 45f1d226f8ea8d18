------------------------------- MODULE Figure -------------------------------
(* What the figures show.  A figure is a set of marks: points, curves, bars, *)
(* lines and a caption, each a function of the reported results.             *)
EXTENDS Series, FiniteSets
\* renormalized points
Renormalized(v, f) == Tab(Len(v), LAMBDA i : v[i] \oslash f)
\* end of the trend line that starts at one: whole days between the first and the last point, in years of 365.25
TrendEnd(rd, seconds) == One \oplus ((rd \otimes NQ((seconds \div 86400) * 4, 1461)) \oslash Hundred)
\* number of bars when none is asked for, and never more bars than rates
Bars(asked, n) == LET b == IF asked = 0 THEN (IF n \div 40 < 1 THEN 1 ELSE n \div 40) ELSE asked IN IF b < n THEN b ELSE n
\* bars of equal width from the least to the largest value (half a unit each side of a single value)
Edges(v, bars) ==
    LET a == MinV(v)  b == MaxV(v)
        lo == IF a = b THEN a \ominus NQ(1, 2) ELSE a
        hi == IF a = b THEN b \oplus NQ(1, 2) ELSE b
    IN Tab(bars + 1, LAMBDA k : lo \oplus ((hi \ominus lo) \otimes NQ(k - 1, bars)))
\* values belong to the bar they lie in, the largest to the last bar; a value next to an edge may be in either
InBar(x, e, k) == IF e[k] \preceq x /\ (x \prec e[k + 1] \/ (k + 1 = Len(e) /\ x \preceq e[k + 1])) THEN "T" ELSE "F"
Fuzzy(x, e) == \E k \in 2..(Len(e) - 1) : Near(x, e[k])
BarCounts(v, e) == Tab(Len(e) - 1, LAMBDA k : Cardinality({i \in 1..Len(v) : InBar(v[i], e, k) = "T"}))
CountsOk(v, e, got) ==
    /\ Len(got) = Len(e) - 1
    /\ LET sure == {i \in 1..Len(v) : ~Fuzzy(v[i], e)}
           vague == Len(v) - Cardinality(sure)
       IN \A k \in 1..Len(got) : LET c == Cardinality({i \in sure : InBar(v[i], e, k) = "T"}) IN c <= got[k] /\ got[k] <= c + vague
RECURSIVE ISum(_)
ISum(s) == IF s = <<>> THEN 0 ELSE Head(s) + ISum(Tail(s))
\* moving medians: the rates of the last `days` days, if there are at least half as many
Window(ts, i, days) == LastLE(ts, ts[i] - days * 86400) + 1
Moving(ts, v, days) ==
    Tab(Len(v), LAMBDA i : LET w == Valid(SubSeq(v, Window(ts, i, days), i)) IN IF Len(w) < days \div 2 \/ Len(w) = 0 THEN NaN ELSE Median(w))
\* a number shown with two decimals
Shown(x, text) == NAbs(x \ominus text) \preceq NQ(5001, 1000000)
\* expected production during an outage <<a, b>>, from the meter at its start
Expected(xe, a, b, from) == LET s == NPrefix(SubSeq(xe, a, b)) IN Tab(b - a + 1, LAMBDA k : s[k + 1] \oplus from)
=============================================================================
