----------------------------- MODULE SoilSummary -----------------------------
(***************************************************************************)
(* Annual soiling ratios and typical monthly soiling rates.                *)
(***************************************************************************)
EXTENDS Series, Cal, FiniteSets
\* insolation-weighted mean of profile v over the days sel
Weighted(v, insol, sel) ==
    LET w == Tab(Len(sel), LAMBDA j : insol[sel[j]])
        x == Tab(Len(sel), LAMBDA j : v[sel[j]])
    IN NDot(x, w) \oslash NSum(w)
\* uniform distribution on [lo, hi]: probability of a value at most x
Unif(x, lo, hi) == IF x \preceq lo THEN Zero ELSE IF hi \preceq x THEN One ELSE (x \ominus lo) \oslash (hi \ominus lo)
\* mixture of the intervals' uniform rate distributions, weight: days in the month
MixCdf(x, iv, w) == NSum(Tab(Len(iv), LAMBDA k : w[k] \otimes Unif(x, iv[k].low, iv[k].high))) \oslash NSum(w)
\* the intervals entitled to a say: "T", "F", "?"
Qualifies(v, minlen, maxerr) ==
    IF ~v.valid \/ v.length < minlen THEN "F"
    ELSE TLe(Hundred \otimes NAbs((v.high \ominus v.low) \oslash v.rate), maxerr)
=============================================================================
