------------------------------ MODULE SoilHist ------------------------------
(***************************************************************************)
(* Possible soiling histories over a table of soiling intervals.           *)
(* iv: sequence of [valid, len, low, high, start, end] - the interval's    *)
(* validity, last day minus first day, rate bounds and inferred losses.    *)
(* ab: the profile's values <<first day, last day>> of each interval.      *)
(***************************************************************************)
EXTENDS Series
PrevValid(iv, k) == LET S == {j \in 1..(k-1) : iv[j].valid} IN IF S = {} THEN 0 ELSE IMax(S)
NextValid(iv, k) == LET S == {j \in (k+1)..Len(iv) : iv[j].valid} IN IF S = {} THEN 0 ELSE IMin(S)
Clip01(x) == NMin(One, NMax(Zero, x))
\* recovery inferred at the end of valid interval k from the fit of the next one (complete if there is none)
Recovery(iv, k) == LET j == NextValid(iv, k) IN
    IF j = 0 THEN One ELSE Clip01(Clip01(iv[j].start) \ominus iv[k].end)
\* lower three-sigma level of the half-normal cleaning that ends interval k at level e
HalfNormFloor(iv, k, e) == Clip01(e \oplus Recovery(iv, k))
Eps == NQ(1, 10000000)
Between(x, lo, hi) == (NMin(lo, hi) \ominus Eps) \preceq x /\ x \preceq (NMax(lo, hi) \oplus Eps)
\* clauses the history of interval k must satisfy
IntervalOK(method, iv, ab, k) ==
    LET v == iv[k]  a == ab[k][1]  b == ab[k][2]
        p == PrevValid(iv, k)  n == NextValid(iv, k)
        inside == IF v.len = 0 THEN Close(a, b)
                  ELSE /\ ((NI(v.len) \otimes v.low) \ominus Eps) \preceq (b \ominus a)
                       /\ (b \ominus a) \preceq ((NI(v.len) \otimes v.high) \oplus Eps)
    IN Clause("soils at a rate inside the reported bounds", inside)
       \cup IF method = "perfect_clean" THEN Clause("perfect cleaning restarts at one", Close(a, One))
          ELSE IF ~v.valid
               THEN Clause("invalid stretch is constant", Close(a, b))
                    \cup Clause("invalid stretch lies between its valid neighbours",
                            Between(a, IF p = 0 THEN One ELSE ab[p][2], IF n = 0 THEN One ELSE ab[n][1]))
                    \cup Clause("one level per invalid stretch", k > 1 /\ ~iv[k-1].valid => Close(a, ab[k-1][1]))
          ELSE IF p = 0 THEN Clause("first valid interval starts clean", Close(a, One))
          ELSE IF method = "random_clean" THEN Clause("random cleaning recovers to between the soiled level and one", Between(a, ab[p][2], One))
          ELSE Clause("half-normal cleaning never exceeds one", a \preceq (One \oplus Eps))
               \cup Clause("half-normal cleaning is complete when full recovery is inferred",
                        NEq(HalfNormFloor(iv, p, ab[p][2]), One) => Close(a, One))
HistoryOK(method, iv, ab) == UNION {IntervalOK(method, iv, ab, k) : k \in 1..Len(iv)}

\* positions of the random draws inside their ranges (missing where the range is a point)
Frac(x, lo, hi) == IF Near(lo, hi) THEN NaN ELSE (x \ominus lo) \oslash (hi \ominus lo)
RateDraw(iv, ab, k) == IF ~iv[k].valid \/ iv[k].len = 0 THEN NaN
    ELSE Frac(ab[k][2] \ominus ab[k][1], NI(iv[k].len) \otimes iv[k].low, NI(iv[k].len) \otimes iv[k].high)
CleanDraw(method, iv, ab, k) == LET p == PrevValid(iv, k) IN
    IF ~iv[k].valid \/ p = 0 \/ method = "perfect_clean" THEN NaN
    ELSE IF method = "random_clean" THEN Frac(ab[k][1], ab[p][2], One)
    ELSE LET x == HalfNormFloor(iv, p, ab[p][2])
         IN IF One \preceq (x \oplus NQ(1, 1000)) THEN NaN ELSE ((One \ominus ab[k][1]) \otimes NI(3)) \oslash (One \ominus x)
LevelDraw(method, iv, ab, k) == LET p == PrevValid(iv, k)  n == NextValid(iv, k) IN
    IF iv[k].valid \/ method = "perfect_clean" \/ (k > 1 /\ ~iv[k-1].valid) THEN NaN
    ELSE LET lo == IF p = 0 THEN One ELSE ab[p][2]
             hi == IF n = 0 THEN One ELSE ab[n][1]
         IN IF NAbs(lo \ominus hi) \prec NQ(1, 1000) THEN NaN ELSE Frac(ab[k][1], lo, hi)
\* |mean - mu| within six standard errors (variance s2)
MeanIs(u, mu, s2) == LET m == Len(u) IN
    m < 100 \/ LET g == (NSum(u) \oslash NI(m)) \ominus mu IN ((g \otimes g) \otimes NI(m)) \preceq (NI(36) \otimes s2)
Squares(u) == Tab(Len(u), LAMBDA i : u[i] \otimes u[i])
Uniform(name, u) == Clause(name, MeanIs(u, NQ(1, 2), NQ(1, 12)) /\ MeanIs(Squares(u), NQ(1, 3), NQ(4, 45)))
\* absolute standard normal: mean sqrt(2/pi), mean square one
HalfNormal(name, u) == Clause(name, MeanIs(u, NQ(797885, 1000000), NQ(363380, 1000000)) /\ MeanIs(Squares(u), One, NI(2)))
\* disjoint consecutive pairs of independent uniform draws
PairProducts(u) == Tab(Len(u) \div 2, LAMBDA i : u[2*i-1] \otimes u[2*i])
Independent(name, u) == Clause(name, MeanIs(PairProducts(u), NQ(1, 4), NQ(7, 144)))
=============================================================================
