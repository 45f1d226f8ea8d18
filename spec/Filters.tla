------------------------------ MODULE Filters ------------------------------
(***************************************************************************)
(* Point filters.  A filter maps a series to a mask of "T" (keep), "F"     *)
(* (exclude) or "?" (the documented comparison is between two numbers that *)
(* agree to double precision, so either answer is conforming).             *)
(* ex = TRUE: the comparison is computed exactly by the implementation     *)
(* (small dyadic inputs), so boundary inclusion is binding.                *)
(***************************************************************************)
EXTENDS Interp

Lt(ex, a, b) == IF ex THEN TF(a \prec b) ELSE IF Near(a, b) THEN "?" ELSE TF(a \prec b)
Le(ex, a, b) == IF ex THEN TF(a \preceq b) ELSE IF Near(a, b) THEN "?" ELSE TF(a \preceq b)

---------------------------------------------------------------------------
\* robust statistics: values above a thousandth of the threshold quantile
FillZero(s) == Tab(Len(s), LAMBDA i : IF IsNaN(s[i]) THEN Zero ELSE s[i])
Small(s, q) == Quantile(FillZero(s), q) \oslash NI(1000)
Robust(s, q) == LET c == Small(s, q) IN SelectSeq(s, LAMBDA x : c \prec x)
RobustQuantile(s, q) == Quantile(Robust(s, q), q)
RobustMedian(s, q) == Median(Robust(s, q))
RobustMean(s, q) == Mean(Robust(s, q))
\* no value is so close to the cut that double rounding could decide differently
RobustSafe(s, q) == LET c == Small(s, q) IN \A i \in 1..Len(s) : IsNaN(s[i]) \/ NEq(c, Zero) \/ ~Near(c, s[i])

---------------------------------------------------------------------------
\* threshold filters
Inside(x, lo, hi) == TF(lo \prec x /\ x \prec hi)
BandMask(s, lo, hi) == Tab(Len(s), LAMBDA i : Inside(s[i], lo, hi))
CsiKeep(m, c, thr, ex) == LET r == m \oslash c
                          IN IF IsNaN(r) THEN "F"
                             ELSE TAnd(Le(ex, One \ominus thr, r), Le(ex, r, One \oplus thr))
CsiMask(m, c, thr, ex) == Tab(Len(m), LAMBDA i : CsiKeep(m[i], c[i], thr, ex[i]))
QuantileClipMask(s, q) == LET v == RobustQuantile(s, q) \otimes NQ(99, 100)
                          IN Tab(Len(s), LAMBDA i : IF IsNaN(s[i]) \/ IsNaN(v) THEN "F" ELSE TLt(s[i], v))
InsolationMask(s, q, ex) == LET v == Quantile(s, q)
                            IN Tab(Len(s), LAMBDA i : IF IsNaN(s[i]) THEN "F" ELSE Le(ex, v, s[i]))

---------------------------------------------------------------------------
\* windows: indices of the points in the window of point i.
\* win > 0: a time span; pts > 0 (win = 0): a number of points
Back(T, i, win, pts) == LET lo == IF win > 0 THEN FirstGE(T, T[i] - win) ELSE (IF i - pts < 1 THEN 1 ELSE i - pts) IN lo..i
Fwd(T, i, win, pts)  == LET hi == IF win > 0 THEN LastLE(T, T[i] + win) ELSE (IF i + pts > Len(T) THEN Len(T) ELSE i + pts) IN i..hi
\* centred: (t - win/2, t + win/2]; times are doubled to stay integral
Centre(T, i, win, pts) ==
    IF win > 0 THEN (LastLE(T, (2 * T[i] - win) \div 2) + 1)..LastLE(T, (2 * T[i] + win) \div 2)
    ELSE LET off == (pts - 1) \div 2   \* trailing window of pts points shifted back by off
             hi == IF i + off > Len(T) THEN Len(T) ELSE i + off
             lo == IF i + off - pts + 1 < 1 THEN 1 ELSE i + off - pts + 1
         IN lo..hi
Slice(s, iv) == Valid(SubSeq(s, IMin(iv), IMax(iv)))
\* median of at least k recorded values, else missing
MedOf(s, iv, k) == LET v == TLCEval(Slice(s, iv)) IN IF Len(v) < k THEN NaN ELSE Median(v)

TwoWayMask(T, s0, win, pts, thr, ex) ==
    LET q == Quantile(s0, NQ(99, 100))
        s == Tab(Len(s0), LAMBDA i : s0[i] \oslash q)
        Dif(i, iv) == LET d == NAbs(s[i] \ominus MedOf(s, iv, 5)) IN IF IsNaN(d) THEN Zero ELSE d
    IN Tab(Len(s), LAMBDA i : TOr(Lt(ex, Dif(i, Back(T, i, win, pts)), thr), Lt(ex, Dif(i, Fwd(T, i, win, pts)), thr)))

HampelMask(T, s, win, pts, t0, ex) ==
    LET med == Tab(Len(s), LAMBDA i : MedOf(s, Centre(T, i, win, pts), 1))
        dif == Tab(Len(s), LAMBDA i : NAbs(med[i] \ominus s[i]))
        mad == Tab(Len(s), LAMBDA i : MedOf(dif, Centre(T, i, win, pts), 1))
        lim(i) == (t0 \otimes NQ(14826, 10000)) \otimes mad[i]
    IN Tab(Len(s), LAMBDA i : IF IsNaN(dif[i]) \/ IsNaN(mad[i]) THEN "F"
                              ELSE Le(ex /\ (NEq(dif[i], Zero) \/ NEq(mad[i], Zero)), dif[i], lim(i)))

TukeyMask(T, s, win, pts, k, ex) ==
    LET b == Tab(Len(s), LAMBDA i : s[i] \ominus MedOf(s, Back(T, i, win, pts), 5))
        f == Tab(Len(s), LAMBDA i : s[i] \ominus MedOf(s, Fwd(T, i, win, pts), 5))
        P25(x) == Quantile(x, NQ(1, 4))
        P75(x) == Quantile(x, NQ(3, 4))
        InFence(x, i) == LET lo == P25(x) \ominus (k \otimes (P75(x) \ominus P25(x)))
                             hi == P75(x) \oplus (k \otimes (P75(x) \ominus P25(x)))
                         IN IF IsNaN(x[i]) THEN "F" ELSE TAnd(Lt(ex, lo, x[i]), Lt(ex, x[i], hi))
    IN Tab(Len(s), LAMBDA i : TOr(InFence(f, i), InFence(b, i)))
=============================================================================
