------------------------------- MODULE Interp -------------------------------
(***************************************************************************)
(* Time-aware interpolation (rdtools.interpolate).                         *)
(* A sampled signal is a pair of sequences T (ascending integer times) and *)
(* V (numbers, possibly missing).  G is the longest bridgeable gap.        *)
(***************************************************************************)
EXTENDS Series

ValidIdx(V) == SelectSeq([i \in 1..Len(V) |-> i], LAMBDA i : ~IsNaN(V[i]))
\* the recorded (non-missing) samples
VT(T, V) == LET ix == TLCEval(ValidIdx(V)) IN Tab(Len(ix), LAMBDA k : T[ix[k]])
VV(V)    == LET ix == TLCEval(ValidIdx(V)) IN Tab(Len(ix), LAMBDA k : V[ix[k]])
Steps(T) == Tab(Len(T) - 1, LAMBDA i : NI(T[i+1] - T[i]))

\* default gap limit: twice the median spacing of the recorded samples
DefaultGap(vt) == NI(2) \otimes Median(Steps(vt))

Line(t0, v0, t1, v1, t) == v0 \oplus ((v1 \ominus v0) \otimes NQ(t - t0, t1 - t0))

\* value at time t, from the recorded samples vt, vv
InterpAt(vt, vv, t, G) ==
    LET i == LastLE(vt, t)
    IN IF i >= 1 /\ vt[i] = t THEN vv[i]
       ELSE IF i = 0 \/ i = Len(vt) THEN NaN
       ELSE IF NI(vt[i+1] - vt[i]) \preceq G THEN Line(vt[i], vv[i], vt[i+1], vv[i+1], t)
       ELSE NaN

InterpSeq(T, V, targets, G) ==
    LET vt == VT(T, V)  vv == VV(V)
    IN Tab(Len(targets), LAMBDA k : InterpAt(vt, vv, targets[k], G))

\* the grid T[1], T[1]+w, ... not beyond the last timestamp
GridTo(T, w) == Tab(((T[Len(T)] - T[1]) \div w) + 1, LAMBDA k : T[1] + (k - 1) * w)
=============================================================================
