---------------------------- MODULE Availability ----------------------------
(***************************************************************************)
(* Availability analysis.  Regular record of n readings; S[j][i]: power of *)
(* subsystem j, P system power, X expected power, M cumulative meter;      *)
(* h: hours per interval.                                                  *)
(***************************************************************************)
EXTENDS Series
Nz(x) == IF IsNaN(x) THEN Zero ELSE x
\* energy of the interval ending at reading i (missing for the first reading, and next to missing power)
EnergyAt(p, i, h) == IF i = 1 THEN NaN ELSE IF IsNaN(p[i]) \/ IsNaN(p[i-1]) THEN NaN ELSE p[i] \otimes h
Energies(p, h) == Tab(Len(p), LAMBDA i : EnergyAt(p, i, h))

\* --- which subsystems report ---------------------------------------------------------
AutoThr(col) == Quantile(Tab(Len(col), LAMBDA i : Nz(col[i])), NQ(99, 100)) \oslash NI(1000)
\* sizes relative to the mean reporting subsystem, median over the record
AutoSizes(S, on) ==
    LET m == Len(S)  n == Len(S[1])
        mean(i) == LET v == SelectSeq([j \in 1..m |-> j], LAMBDA j : on[j][i])
                   IN NSum([k \in 1..Len(v) |-> Nz(S[v[k]][i])]) \oslash NI(Len(v))
        mu == Tab(n, LAMBDA i : mean(i))
    IN Tab(m, LAMBDA j : Median(Tab(n, LAMBDA i : IF on[j][i] THEN Nz(S[j][i]) \oslash mu[i] ELSE NaN)))

\* --- subsystem loss --------------------------------------------------------------------
\* loss at one reading: s[j] powers, on[j], z[j] sizes, p system power, cap power limit (Inf: none);
\* a set of admissible values (two when the comparison is at the edge of double precision)
SubLoss(s, on, z, p, cap) ==
    LET m == Len(s)
        J == {j \in 1..m : on[j]}
        idx == SelectSeq([j \in 1..m |-> j], LAMBDA j : on[j])
        off == SelectSeq([j \in 1..m |-> j], LAMBDA j : ~on[j])
        tot == SumV(z)
        P == NMax(p, Zero)
        full == NI(m) \otimes (NSum([k \in 1..Len(idx) |-> s[idx[k]] \oslash z[idx[k]]]) \oslash NI(Len(idx)))
        short == One \ominus (P \oslash full)
        \* (a subsystem of unknown size counts as the whole plant)
        least == LET v == MinV([k \in 1..Len(off) |-> z[off[k]] \oslash tot]) IN IF IsNaN(v) THEN One ELSE v
        share == NSum([k \in 1..Len(idx) |-> z[idx[k]] \oslash tot])
        f == NMin(One, NMax(share, P \oslash full))
        raw == ((One \ominus f) \oslash f) \otimes P
        capped(x) == IF cap \prec (x \oplus P) THEN NMax(Zero, cap \ominus P) ELSE x
    IN IF IsNaN(p) \/ J = {} \/ J = 1..m THEN {Zero}
       ELSE LET t == TLt(NQ(3, 4) \otimes least, short)
            IN CASE t = "T" -> {capped(raw)} [] t = "F" -> {Zero} [] t = "?" -> {Zero, capped(raw)}

\* --- expected production -----------------------------------------------------------------
\* readings of normal operation, and the factor between expected and metered power over them
Normal(loss, P, X) == SelectSeq([i \in 1..Len(P) |-> i], LAMBDA i : NEq(loss[i], Zero) /\ Zero \prec P[i] /\ Zero \prec X[i])
Scale(nrm, P, X) == NSum([k \in 1..Len(nrm) |-> X[nrm[k]]]) \oslash NSum([k \in 1..Len(nrm) |-> P[nrm[k]]])
\* relative errors of the expected energy over all runs of w normal readings
Errors(a, x, w) ==
    LET n == Len(a)
        bad == Tab(n, LAMBDA i : IF IsNaN(a[i]) \/ IsNaN(x[i]) THEN One ELSE Zero)
        pa == NPrefix(Tab(n, LAMBDA i : Nz(a[i])))  px == NPrefix(Tab(n, LAMBDA i : Nz(x[i])))  pb == NPrefix(bad)
    IN Tab(n - w + 1, LAMBDA k : IF Zero \prec (pb[k + w] \ominus pb[k]) THEN NaN
                                 ELSE ((pa[k + w] \ominus pa[k]) \oslash (px[k + w] \ominus px[k])) \ominus One)
RECURSIVE Log2(_)
Log2(n) == IF n < 2 THEN 0 ELSE 1 + Log2(n \div 2)
RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)
\* error quantile q for each window length 2, 4, 8, ... below half the normal readings
ErrorCurve(a, x, q) == Tab(Log2(Len(a)) - 1, LAMBDA k : Quantile(Errors(a, x, Pow2(k)), q))
\* ... interpolated linearly in the window length between the lengths of which some window is complete,
\* held constant outside
ErrorFor(curve, n) ==
    LET known == SelectSeq([k \in 1..Len(curve) |-> k], LAMBDA k : ~IsNaN(curve[k]))
        K == Len(known)
        below == Cardinality({j \in 1..K : Pow2(known[j]) <= n})
    IN IF K = 0 THEN NaN
       ELSE IF below = 0 THEN curve[known[1]]
       ELSE IF below = K THEN curve[known[K]]
       ELSE LET i == known[below]  j == known[below + 1]
            IN curve[i] \oplus ((curve[j] \ominus curve[i]) \otimes NQ(n - Pow2(i), Pow2(j) - Pow2(i)))

\* --- full outages ------------------------------------------------------------------------
\* dark readings belong to an outage when the last or the next daylight reading does
Down(day, off) ==
    LET n == Len(day)
        RECURSIVE prev(_)
        prev(i) == IF i < 1 THEN FALSE ELSE IF day[i] THEN off[i] ELSE prev(i - 1)
        RECURSIVE next(_)
        next(i) == IF i > n THEN FALSE ELSE IF day[i] THEN off[i] ELSE next(i + 1)
    IN Tab(n, LAMBDA i : prev(i) \/ next(i))
Outages(down) ==
    LET n == Len(down)
        st == SelectSeq([i \in 1..n |-> i], LAMBDA i : down[i] /\ (i = 1 \/ ~down[i-1]))
        en == SelectSeq([i \in 1..n |-> i], LAMBDA i : down[i] /\ (i = n \/ ~down[i+1]))
    IN IF \A i \in 1..n : down[i] THEN <<>> ELSE Tab(Len(st), LAMBDA k : <<st[k], en[k]>>)
\* verdict on an outage <<a, b>>: xe expected energy by reading, lowerr its lower error bound
Outage(o, M, xe, lowerr, uperr) ==
    LET a == o[1]  b == o[2]
        exp == SumV(SubSeq(xe, a, b))
        e0 == IF a = 1 THEN NaN ELSE M[a-1]
        act0 == M[b] \ominus e0
        neg == TLt(act0, NNeg(exp) \oslash NI(20))
        ci == (One \oplus lowerr) \otimes exp
        real == TLt(act0, ci)
        kind == IF IsNaN(act0) \/ neg = "T" THEN "unknown" ELSE IF neg = "?" \/ real = "?" THEN "?" ELSE IF real = "T" THEN "real" ELSE "comms"
    IN [expected |-> exp, start |-> e0, end |-> M[b], kind |-> kind, ci |-> ci, cihi |-> (One \oplus uperr) \otimes exp,
        actual |-> IF kind = "unknown" THEN NaN ELSE act0,
        loss |-> IF kind = "unknown" THEN NaN ELSE IF kind = "real" THEN exp \ominus act0 ELSE Zero]
\* power lost at reading i of an outage, in proportion to expected power; xe: expected energy by reading
LostPower(o, X, xe, loss, i) == (X[i] \otimes loss) \oslash SumV(SubSeq(xe, o[1], o[2]))
\* the meter through the outage, rising with expected energy from its reading before to its last reading
Corrected(o, xe, e0, actual, i) ==
    IF IsNaN(xe[i]) THEN NaN ELSE e0 \oplus ((SumV(SubSeq(xe, o[1], i)) \otimes actual) \oslash SumV(SubSeq(xe, o[1], o[2])))
=============================================================================
