---------------------------- MODULE MC_Bootstrap ----------------------------
(***************************************************************************)
(* The resampler: picks a block start, copies the following residuals one  *)
(* by one (wrapping around), starts a new block after L of them, and stops *)
(* after n.  And the median of the resampled slopes: Dist counts, over all *)
(* n^n equally likely draws, how often the median is at most each slope.   *)
(***************************************************************************)
EXTENDS Bootstrap, Json
CONSTANTS Ns, Ls, Emit
VARIABLES n, L, idx, left
vars == <<n, L, idx, left>>
Init == n \in Ns /\ L \in Ls /\ L <= n /\ idx = <<>> /\ left = 0
NewBlock == /\ Len(idx) < n /\ left = 0 /\ \E s \in 1..n : idx' = Append(idx, s)
            /\ left' = L - 1 /\ UNCHANGED <<n, L>>
Copy == /\ Len(idx) < n /\ left > 0 /\ idx' = Append(idx, Succ(idx[Len(idx)], n))
        /\ left' = left - 1 /\ UNCHANGED <<n, L>>
Next == NewBlock \/ Copy
Spec == Init /\ [][Next]_vars
WellFormed == Len(idx) = n => Blocks(idx, n, L)
\* each block covers distinct residuals; every residual can start a block
Contiguous == \A i \in 2..Len(idx) : idx[i] # idx[i-1] \/ (i - 1) % L = 0 \/ n = 1
\* exhaustive check of the closed form of the distribution of the median, ties included
Pool == <<NI(2), NI(-4), NI(1), NI(-4), NI(7)>>
Draws(m) == [1..m -> 1..m]
MedOf(f, m) == Median(Tab(m, LAMBDA i : Pool[f[i]]))
Freq(m, P(_)) == NQ(Cardinality({f \in Draws(m) : P(MedOf(f, m))}), m^m)
ASSUME \A m \in 1..5 : LET s == SubSeq(Pool, 1, m) IN \A k \in (-9)..15 :
    /\ Near(Freq(m, LAMBDA y : y \preceq NQ(k, 2)), AtMost(s, NQ(k, 2)))
    /\ Near(Freq(m, LAMBDA y : y \prec NQ(k, 2)), Below(s, NQ(k, 2)))
=============================================================================
