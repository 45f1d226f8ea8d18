------------------------------ MODULE Soiling ------------------------------
(***************************************************************************)
(* Stochastic rate and recovery: from a daily performance series to        *)
(* soiling intervals.  p: performance by day (first and last not missing), *)
(* rain: precipitation by day, w: smoothing window in days.                *)
(***************************************************************************)
EXTENDS Series
\* day of the last / next value at or before / after i (0: none)
RECURSIVE PrevVal(_, _)
PrevVal(p, i) == IF i < 1 THEN 0 ELSE IF ~IsNaN(p[i]) THEN i ELSE PrevVal(p, i - 1)
RECURSIVE NextVal(_, _)
NextVal(p, i) == IF i > Len(p) THEN 0 ELSE IF ~IsNaN(p[i]) THEN i ELSE NextVal(p, i + 1)
\* the days at the two edges of a gap of more than w missing days
GapEdge(p, w, i) ==
    ~IsNaN(p[i]) /\ \/ i < Len(p) /\ NextVal(p, i + 1) - i - 1 > w
                    \/ i > 1 /\ i - PrevVal(p, i - 1) - 1 > w
Held(p, w) == Tab(Len(p), LAMBDA i : LET j == PrevVal(p, i) IN IF j > 0 /\ i - j <= w THEN p[j] ELSE NaN)
\* centred rolling median over w days; missing unless the window is complete
Smooth(p, w) ==
    LET h == Held(p, w)  off == (w - 1) \div 2
    IN Tab(Len(p), LAMBDA i :
         LET hi == i + off  lo == hi - w + 1
         IN IF lo < 1 \/ hi > Len(p) \/ \E k \in lo..hi : IsNaN(h[k]) THEN NaN ELSE Median(SubSeq(h, lo, hi)))
Deltas(p, w) == LET m == Smooth(p, w) IN Tab(Len(p), LAMBDA i : IF i = 1 THEN NaN ELSE m[i] \ominus m[i-1])
\* default cleaning threshold: upper outlier fence of the absolute steps
Fence(d, factor) == LET a == Tab(Len(d), LAMBDA i : NAbs(d[i]))
                        q1 == Quantile(a, NQ(1, 4)) q3 == Quantile(a, NQ(3, 4))
                    IN q3 \oplus (factor \otimes (q3 \ominus q1))
Rain(rain, thr, i) == i \in 1..Len(rain) /\ thr \prec rain[i]
\* the days on which a new interval starts: "T", "F", or "?" at the edge of double precision
CleanTF(p, rain, w, d, thr, criterion, rthr, i) ==
    LET shift == IF IsNaN(d[i]) THEN "F" ELSE IF Near(d[i], thr) THEN "?" ELSE TF(thr \prec d[i])
        wet == TF(Rain(rain, rthr, i))
        wet3 == TF(\E k \in (i-1)..(i+1) : Rain(rain, rthr, k))
        ev == CASE criterion = "shift" -> shift
                [] criterion = "precip" -> wet
                [] criterion = "precip_or_shift" -> TOr(shift, wet)
                [] criterion = "precip_and_shift" -> TAnd(shift, wet3)
    IN TOr(ev, TF(GapEdge(p, w, i)))

\* intervals as <<first day, last day>>, from the set of cleaning days
Intervals(n, clean) ==
    LET starts == {1} \cup clean
        s == TLCEval(SelectSeq(Tab(n, LAMBDA i : i), LAMBDA i : i \in starts))
    IN Tab(Len(s), LAMBDA k : <<s[k], IF k = Len(s) THEN n ELSE s[k+1] - 1>>)
Trimmed(iv, trim) == IF trim THEN SubSeq(iv, 2, Len(iv) - 1) ELSE iv

\* Theil-Sen slope with Sen's 95 % bounds; x ascending days, y values
TieSum(y) == LET q == TLCEval(NSort(y))
                 RECURSIVE run(_, _)
                 tie(k) == NI(k) \otimes NI(k - 1) \otimes NI(2 * k + 5)
                 run(i, len) == IF i > Len(q) THEN tie(len)
                                ELSE IF NEq(q[i], q[i-1]) THEN run(i + 1, len + 1)
                                ELSE tie(len) \oplus run(i + 1, 1)
             IN IF Len(q) = 0 THEN Zero ELSE run(2, 1)
Z95 == NQ(195996398, 100000000)
HalfUp(x) == NFloor(x \oplus NQ(1, 2))
TheilSen(x, y) ==
    LET n == Len(x)
        s == TLCEval(NPairSlopes(x, y))
        nt == Len(s)
        sig == TLCEval(NSqrt((((NI(n) \otimes NI(n-1) \otimes NI(2*n+5)) \ominus TieSum(y)) \oslash NI(18))))
        ru0 == (NI(nt) \oplus (Z95 \otimes sig)) \oslash NI(2)
        rl0 == (NI(nt) \ominus (Z95 \otimes sig)) \oslash NI(2)
        ru == IF HalfUp(ru0) < nt - 1 THEN HalfUp(ru0) ELSE nt - 1
        rl == IF HalfUp(rl0) - 1 > 0 THEN HalfUp(rl0) - 1 ELSE 0
        edge(v) == LET f == v \ominus NI(NFloor(v)) IN NAbs(f \ominus NQ(1, 2)) \prec NQ(1, 100000)
        m == SortedQuantile(s, NQ(1, 2))
    IN [slope |-> m, low |-> s[rl + 1], high |-> s[ru + 1], amb |-> edge(ru0) \/ edge(rl0),
        icept |-> Median(y) \ominus (m \otimes Median(Tab(n, LAMBDA i : NI(x[i]))))]

\* what an interval <<a, b>> must report; q: normalized performance, missing as zero;
\* d: smoothed steps, missing as zero
Judge1(q, d, iv, minlen, maxerr, maxneg) ==
    LET a == iv[1]  b == iv[2]
        all == Tab(b - a + 1, LAMBDA k : a + k - 1)
        pos == TLCEval(SelectSeq(all, LAMBDA i : Zero \prec q[i]))
        use == IF Len(pos) > 0 THEN pos ELSE all
        vals == Tab(Len(use), LAMBDA k : q[use[k]])
        mean == NSum(vals) \oslash NI(Len(vals))
        neg == MinV(Tab(Len(use), LAMBDA k : d[use[k]]))
        long == Len(use) > minlen /\ Len(pos) > 0
        none == [valid |-> "F", slope |-> Zero, low |-> Zero, high |-> Zero, start |-> mean, end |-> mean]
    IN IF ~long THEN none
       ELSE LET f == TLCEval(TheilSen(use, vals))
                hi == NMin(Zero, f.high)
                err == (hi \ominus f.low) \oslash NAbs(f.slope)
                bad == TOr(IF Near(f.slope, Zero) /\ ~NEq(f.slope, Zero) THEN "?" ELSE TF(Zero \prec f.slope),
                       TOr(IF IsNaN(err) THEN "F" ELSE TLe(maxerr \oslash Hundred, err), TLe(neg, NNeg(maxneg))))
                at(t) == f.icept \oplus (f.slope \otimes NI(t))
                v == IF f.amb THEN "?" ELSE TNot(bad)
            IN IF v = "T" THEN [valid |-> "T", slope |-> f.slope, low |-> f.low, high |-> hi, start |-> at(a), end |-> at(b)]
               ELSE [none EXCEPT !.valid = v, !.start = at(a), !.end = at(b)]
=============================================================================
