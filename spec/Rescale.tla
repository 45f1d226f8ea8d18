------------------------------ MODULE Rescale ------------------------------
(***************************************************************************)
(* Rescaling of modelled irradiance: alternate between the set of clear    *)
(* points under the current factor and the least-squares factor on it.     *)
(* a = measured, s = modelled irradiance.                                  *)
(***************************************************************************)
EXTENDS Series
Ratio(a, s, i) == a[i] \oslash s[i]
Guess(a, s) == Quantile(Valid(a), NQ(9, 10)) \oslash Quantile(Valid(s), NQ(9, 10))
\* clear under factor f: "T", "F", or "?" when closer than m to a boundary
ClearTF(a, s, f, i, m) ==
    LET c == TLCEval(a[i] \oslash (f \otimes s[i]))
        in(x) == NQ(8, 10) \preceq x /\ x \preceq NQ(12, 10)
    IN IF IsNaN(c) \/ IsInf(c) \/ ~(NI(200) \prec a[i]) THEN "F"
       ELSE IF in(c) # in(c \oplus m) \/ in(c) # in(c \ominus m) THEN "?"
       ELSE TF(in(c))
Clear(a, s, f) == {i \in 1..Len(a) : ClearTF(a, s, f, i, Zero) = "T"}
Sub(x, S) == LET k == SelectSeq(Tab(Len(x), LAMBDA i : i), LAMBDA i : i \in S) IN Tab(Len(k), LAMBDA j : x[k[j]])
LS(a, s, S) == LET u == Sub(a, S)  v == Sub(s, S) IN NDot(u, v) \oslash NDot(v, v)
\* the exact iteration from factor f: the sequence of factors, at most n more
RECURSIVE Iterates(_, _, _, _, _)
Iterates(a, s, f, n, thr) ==
    LET S == TLCEval(Clear(a, s, f))
        g == TLCEval(IF S = {} THEN f ELSE LS(a, s, S))
    IN IF n = 0 THEN <<f>>
       ELSE IF NAbs(g \ominus f) \preceq thr THEN <<f, g>>
       ELSE <<f>> \o Iterates(a, s, g, n - 1, thr)
=============================================================================
