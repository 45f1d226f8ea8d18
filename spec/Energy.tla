------------------------------- MODULE Energy -------------------------------
(***************************************************************************)
(* Energy as the integral of power (rdtools.energy_from_power).            *)
(* Times are integers in units of 1/PerHour hours.                         *)
(***************************************************************************)
EXTENDS Interp

MedianStep(T) == Median(Steps(T))

\* overlap of the half-open intervals (a,b] and (c,d]
Overlap(a, b, c, d) == LET lo == IF a < c THEN c ELSE a
                           hi == IF b < d THEN b ELSE d
                       IN IF hi > lo THEN hi - lo ELSE 0

\* integral over (a,b] (in value x time units) of the stretch between two
\* consecutive recorded samples
StretchIntegral(kind, t0, v0, t1, v1, a, b) ==
    LET lo == IF a < t0 THEN t0 ELSE a
        hi == IF b < t1 THEN b ELSE t1
    IN IF kind = "right_labeled" THEN v1 \otimes NI(hi - lo)
       ELSE ((Line(t0, v0, t1, v1, lo) \oplus Line(t0, v0, t1, v1, hi)) \oslash NI(2)) \otimes NI(hi - lo)

\* integral of the recorded samples over (a,b]: stretches longer than G contribute
\* nothing; missing when no stretch contributes
BinIntegral(kind, vt, vv, a, b, G) ==
    LET n   == Len(vt)
        lo  == LET k == LastLE(vt, a) IN IF k < 1 THEN 1 ELSE k
        hi  == LET k == FirstGE(vt, b) IN IF k > n THEN n ELSE k
        js  == SelectSeq([j \in 1..(IF hi > lo THEN hi - lo ELSE 0) |-> lo + j],
                         LAMBDA j : /\ Overlap(a, b, vt[j-1], vt[j]) > 0
                                    /\ NI(vt[j] - vt[j-1]) \preceq G)
    IN IF js = <<>> THEN NaN
       ELSE NSum(Tab(Len(js), LAMBDA m : StretchIntegral(kind, vt[js[m]-1], vv[js[m]-1], vt[js[m]], vv[js[m]], a, b)))

\* spacing of the sampling instant interval containing t (NaN before/after the record)
StepAround(T, t) == LET i == FirstGE(T, t) IN IF i < 2 \/ i > Len(T) THEN NaN ELSE NI(T[i] - T[i-1])

\* energy per interval (edges[k], edges[k+1]]
EnergyOn(kind, T, vt, vv, edges, G, perHour) ==
    Tab(Len(edges) - 1,
        LAMBDA k : IF G \prec StepAround(T, edges[k+1]) THEN NaN
                   ELSE BinIntegral(kind, vt, vv, edges[k], edges[k+1], G) \oslash NI(perHour))

\* right edges for a target width w: anchored at the first timestamp
\* (a target no coarser than the median spacing first interpolates the power onto its grid)
Refines(T, w) == NI(w) \preceq MedianStep(T)
Edges(T, w) == IF Refines(T, w) THEN GridTo(T, w)
               ELSE LET n == (T[Len(T)] - T[1] + w - 1) \div w
                    IN Tab(n + 1, LAMBDA k : T[1] + (k - 1) * w)
EnergyFromPower(kind, T, V, w, G, perHour) ==
    LET edges == Edges(T, w)
    IN IF Refines(T, w)
       THEN LET p  == InterpSeq(T, V, edges, G)
            IN EnergyOn(kind, T, VT(edges, p), VV(p), edges, G, perHour)
       ELSE EnergyOn(kind, T, VT(T, V), VV(V), edges, G, perHour)
=============================================================================
