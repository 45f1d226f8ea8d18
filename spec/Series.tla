------------------------------- MODULE Series -------------------------------
(***************************************************************************)
(* Order statistics and window operators on sequences of (possibly         *)
(* missing) numbers; the vocabulary of all other modules.                  *)
(***************************************************************************)
EXTENDS Num, TLC

Zero == NI(0)
One == NI(1)
Hundred == NI(100)

\* the sequence <<Op(1), ..., Op(n)>>, evaluated once
Tab(n, Op(_)) == TLCEval([i \in 1..n |-> Op(i)])
NumSeq(s) == Tab(Len(s), LAMBDA i : NP(s[i]))
\* state variables of the models hold plain integers; Missing stands for a lost value
Missing == 99999
Number(v) == IF v = Missing THEN NaN ELSE NI(v)
Numbers(s) == Tab(Len(s), LAMBDA i : Number(s[i]))
Pick(s, Keep(_)) == SelectSeq(s, Keep)
Valid(s) == SelectSeq(s, LAMBDA x : ~IsNaN(x))
Count(s, P(_)) == Len(SelectSeq(s, P))

\* q-quantile (0 <= q <= 1, a number) of an ascending sequence, linear interpolation
SortedQuantile(s, q) ==
    IF Len(s) = 0 THEN NaN
    ELSE LET pos == q \otimes NI(Len(s) - 1)
             lo  == NFloor(pos)
             fr  == pos \ominus NI(lo)
         IN IF NEq(fr, Zero) THEN s[lo + 1]
            ELSE s[lo + 1] \oplus (fr \otimes (s[lo + 2] \ominus s[lo + 1]))
Quantile(s, q) == SortedQuantile(TLCEval(NSort(s)), q)
Median(s) == Quantile(s, NQ(1, 2))
\* sum and mean of the non-missing values
SumV(s) == NSum(Valid(s))
Mean(s) == LET v == TLCEval(Valid(s)) IN NSum(v) \oslash NI(Len(v))
MinV(s) == LET v == TLCEval(NSort(s)) IN IF Len(v) = 0 THEN NaN ELSE v[1]
MaxV(s) == LET v == TLCEval(NSort(s)) IN IF Len(v) = 0 THEN NaN ELSE v[Len(v)]

\* the elements of a finite set in some order
RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET e == CHOOSE e \in S : TRUE IN <<e>> \o SetSeq(S \ {e})
IMax(S) == CHOOSE x \in S : \A y \in S : y <= x
IMin(S) == CHOOSE x \in S : \A y \in S : x <= y

\* largest index i of the ascending integer sequence ts with ts[i] <= t (0 if none)
RECURSIVE BSearch(_, _, _, _)
BSearch(ts, t, lo, hi) ==        \* invariant: ts[lo] <= t < ts[hi] (virtual ends)
    IF hi - lo <= 1 THEN lo
    ELSE LET m == (lo + hi) \div 2
         IN IF ts[m] <= t THEN BSearch(ts, t, m, hi) ELSE BSearch(ts, t, lo, m)
LastLE(ts, t) == BSearch(ts, t, 0, Len(ts) + 1)
FirstGE(ts, t) == LastLE(ts, t - 1) + 1

\* tolerance used when comparing with recorded doubles
RTol == NQ(1, 10000000)
ATol == NQ(1, 1000000000)
Close(x, y) == NClose(x, y, RTol, ATol)
\* a and b are too close for a double comparison to be binding
Near(a, b) == Fin(a) /\ Fin(b) /\ NClose(a, b, NQ(1, 1000000000), NQ(1, 1000000000))
CloseSeq(s, r) == Len(s) = Len(r) /\ \A i \in 1..Len(s) : Close(s[i], r[i])
FirstBad(s, r) == IF Len(s) # Len(r) THEN 0
                  ELSE CHOOSE i \in 1..Len(s) : ~Close(s[i], r[i]) /\ \A j \in 1..(i-1) : Close(s[j], r[j])
\* clause verdicts: {} when the clause holds, {name} otherwise
Clause(name, ok) == IF ok THEN {} ELSE {name}
SeqClause(name, want, got) ==
    IF Len(want) # Len(got) THEN {name \o ": length " \o ToString(Len(got)) \o " instead of " \o ToString(Len(want))}
    ELSE LET bad == TLCEval({i \in 1..Len(want) : ~Close(want[i], got[i])})
         IN IF bad = {} THEN {}
            ELSE LET i == IMin(bad)
                 IN {name \o ": position " \o ToString(i) \o " is " \o NStr(got[i]) \o ", specification " \o NStr(want[i])}
\* masks: want[i] is "T", "F" or "?" (undetermined at double precision)
MaskClause(name, want, got) ==
    IF Len(want) # Len(got) THEN {name \o ": mask length"}
    ELSE LET bad == TLCEval({i \in 1..Len(want) : want[i] # "?" /\ (want[i] = "T") # got[i]})
         IN IF bad = {} THEN {}
            ELSE LET i == IMin(bad) IN {name \o ": position " \o ToString(i) \o " kept=" \o ToString(got[i])}
TF(b) == IF b THEN "T" ELSE "F"
TAnd(a, b) == IF a = "F" \/ b = "F" THEN "F" ELSE IF a = "?" \/ b = "?" THEN "?" ELSE "T"
TOr(a, b)  == IF a = "T" \/ b = "T" THEN "T" ELSE IF a = "?" \/ b = "?" THEN "?" ELSE "F"
TNot(a)    == IF a = "?" THEN "?" ELSE IF a = "T" THEN "F" ELSE "T"
TLt(x, y)  == IF Near(x, y) THEN "?" ELSE TF(NLt(x, y))
TLe(x, y)  == IF Near(x, y) THEN "?" ELSE TF(NLe(x, y))
=============================================================================
