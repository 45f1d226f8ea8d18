-------------------------------- MODULE YoY --------------------------------
(***************************************************************************)
(* Year-on-year degradation (rdtools.degradation_year_on_year).            *)
(* Point i has local calendar day d[i], second of day s[i], UTC offset     *)
(* o[i], and o1[i], the offset at the same wall-clock time one year later. *)
(***************************************************************************)
EXTENDS Filters, Cal

DAY == 86400
Abs(p, i) == p.d[i] * DAY + p.s[i] - p.o[i]
Anniversary(p, i) == PlusYears(p.d[i], 1) * DAY + p.s[i] - p.o1[i]
AbsSeq(p) == Tab(Len(p.d), LAMBDA i : Abs(p, i))
AnnSeq(p) == Tab(Len(p.d), LAMBDA i : Anniversary(p, i))

\* the points whose first anniversary most recently passed at j, at most eight days before
\* (28 and 29 February share an anniversary)
Partners(A, N, j) ==
    LET lo == FirstGE(A, A[j] - 380 * DAY)
        hi == LastLE(A, A[j] - 363 * DAY)
        cand == TLCEval({i \in lo..hi : N[i] <= A[j] /\ A[j] - N[i] <= 8 * DAY})
    IN IF cand = {} THEN {} ELSE LET m == IMax({N[i] : i \in cand}) IN {i \in cand : N[i] = m}

\* slope in percent per 365 days
Slope(v, A, i, j) == (Hundred \otimes (v[j] \ominus v[i])) \oslash NQ(A[j] - A[i], 365 * DAY)

\* recentring factor: robust median of the first 365 days
RenormSet(A, v) == SubSeq(v, 1, LastLE(A, A[1] + 364 * DAY))
Renorm(A, v) == RobustMedian(RenormSet(A, v), NQ(99, 100))
Centred(v, f) == Tab(Len(v), LAMBDA i : v[i] \oslash f)

\* indices of points with a valid slope
Ends(v, part) == SelectSeq([j \in 1..Len(v) |-> j],
                           LAMBDA j : ~IsNaN(v[j]) /\ part[j] # {} /\ (\E i \in part[j] : ~IsNaN(v[i])))
Rate(v, A, part) == LET e == Ends(v, part)
                    IN Median(Tab(Len(e), LAMBDA k : Slope(v, A, IMax(part[e[k]]), e[k])))
\* 0, 1 or 2: is the point the end of a slope, is it the start of one
Usage(v, part, i) == (IF \E j \in {i} : ~IsNaN(v[j]) /\ part[j] # {} /\ \E a \in part[j] : ~IsNaN(v[a]) THEN 1 ELSE 0)
                   + (IF ~IsNaN(v[i]) /\ \E j \in 1..Len(v) : i \in part[j] /\ ~IsNaN(v[j]) THEN 1 ELSE 0)

\* two years of data less one sampling step; "?" where the step is a calendar unit
Enough(p, A) ==
    LET n == Len(A)
        two == PlusYears(p.d[1], 2) * DAY + p.s[1] - p.o2
        step == Median(Tab(n - 1, LAMBDA i : NI(A[i+1] - A[i])))
    IN IF p.exactstep THEN TNot(TF(NI(A[n]) \prec (NI(two) \ominus step)))
       ELSE IF NI(A[n]) \prec (NI(two) \ominus (NI(2) \otimes step)) THEN "F"
       ELSE IF NI(two) \preceq NI(A[n]) THEN "T" ELSE "?"
=============================================================================
