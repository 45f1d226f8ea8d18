------------------------------ MODULE Learned ------------------------------
(***************************************************************************)
(* Model-based clipping detection.  The trained model is part of the       *)
(* environment: it is shown one row of features per interval of the        *)
(* regular record and answers clipped / not clipped.  What it is shown,    *)
(* and what follows from its answers, is specified here.                   *)
(* T: ascending minutes since the local midnight that starts the record;   *)
(* mid: local midnights; P: power; f: sampling interval (minutes).         *)
(***************************************************************************)
EXTENDS Clipping
Names == <<"first_order_derivative_backward", "first_order_derivative_forward", "first_order_derivative_backward_rolling_avg",
           "first_order_derivative_forward_rolling_avg", "sampling_frequency", "mounting_config_bool", "scaled_value", "rolling_average",
           "daily_max", "percent_daily_max", "deriv_max", "deriv_backward_rolling_stdev", "deriv_backward_rolling_mean",
           "deriv_backward_rolling_median", "deriv_backward_rolling_min", "deriv_backward_rolling_max">>
RollOf(f) == IF f < 10 THEN 5 ELSE IF f < 60 THEN 3 ELSE 2
\* the regular record shown to the model: at least five minutes apart, each reading in its own unit of the record's range
Shown(T, P, f) ==
    LET g == GridTo(T, f)
        v == InterpSeq(T, P, g, DefaultGap(VT(T, P)))
    IN IF f >= 5 THEN [t |-> g, v |-> v]
       ELSE LET b0 == g[1] \div 5  n == (g[Len(g)] \div 5) - b0 + 1
            IN [t |-> Tab(n, LAMBDA k : (b0 + k - 1) * 5),
                v |-> Tab(n, LAMBDA k : LET w == Valid(Cut(v, Span(g, (b0 + k - 1) * 5, (b0 + k) * 5)))
                                        IN IF w = <<>> THEN NaN ELSE Mean(w))]
Scaled(v) == LET lo == TLCEval(MinV(v))  span == TLCEval(MaxV(v) \ominus lo)
             IN Tab(Len(v), LAMBDA k : (v[k] \ominus lo) \oslash span)
At(s, k) == IF k < 1 \/ k > Len(s) THEN NaN ELSE s[k]
\* complete windows of w values around k (for an even w: one more before than after)
Window(s, k, w) == LET a == k - (w \div 2)  b == a + w - 1
                   IN IF a < 1 \/ b > Len(s) THEN <<>>
                      ELSE LET x == SubSeq(s, a, b) IN IF \E j \in 1..w : IsNaN(x[j]) THEN <<>> ELSE x
Over(s, w, Op(_)) == Tab(Len(s), LAMBDA k : LET x == TLCEval(Window(s, k, w)) IN IF x = <<>> THEN NaN ELSE Op(x))
Behind(s) == Tab(Len(s), LAMBDA k : At(s, k) \ominus At(s, k - 1))
Ahead(s) == Tab(Len(s), LAMBDA k : IF k = 1 THEN NaN ELSE At(s, k + 1) \ominus At(s, k))
Deviation(x) == LET n == Len(x)  m == TLCEval(Mean(x))  d == Tab(n, LAMBDA i : x[i] \ominus m)
                IN NSqrt(NDot(d, d) \oslash NI(n - 1))
\* relative range of the w readings from k on, in percent
Range(s, w) == Tab(Len(s), LAMBDA k :
    IF k + w - 1 > Len(s) THEN NaN
    ELSE LET x == SubSeq(s, k, k + w - 1) IN
         IF \E j \in 1..w : IsNaN(x[j]) THEN NaN
         ELSE LET hi == TLCEval(MaxV(x))  lo == TLCEval(MinV(x))
              IN ((hi \ominus lo) \oslash ((hi \oplus lo) \oslash NI(2))) \otimes Hundred)
DayTop(s, T, mid) == LET top == Tab(Len(mid), LAMBDA d : MaxV(Valid(Cut(s, DaySpan(T, mid, d)))))
                     IN Tab(Len(T), LAMBDA k : top[DayOf(mid, T[k])])
\* columns in the order of Names
Features(T, mid, P, f, mount) ==
    LET g == TLCEval(Shown(T, P, f))
        s == TLCEval(Scaled(g.v))
        w == RollOf(f)
        avg == TLCEval(Over(s, w, Mean))
        back == TLCEval(Behind(s))
        top == TLCEval(DayTop(s, g.t, mid))
        n == Len(s)
    IN [t |-> g.t,
        x |-> <<back, Ahead(s), Behind(avg), Ahead(avg),
                Tab(n, LAMBDA k : NI(IF f < 5 THEN 5 ELSE f)), Tab(n, LAMBDA k : NI(IF mount = "fixed" THEN 0 ELSE 1)),
                s, avg, top, Tab(n, LAMBDA k : s[k] \oslash (top[k] \oplus NQ(1, 100000))), Range(s, w),
                Over(back, w, Deviation), Over(back, w, Mean), Over(back, w, Median), Over(back, w, MinV), Over(back, w, MaxV)>>]
\* the model is shown the intervals of which everything is known
Complete(ft) == SelectSeq(Tab(Len(ft.t), LAMBDA k : k), LAMBDA k : \A c \in 1..Len(ft.x) : ~IsNaN(ft.x[c][k]))

\* what follows from the answers: rows shown at times rt, answered yes
LEq(a, b) == IF NEq(a, b) THEN "T" ELSE TLe(a, b)
Verdicts(T, mid, P, f, rt, yes) ==
    LET s == TLCEval(Scaled(P))
        said == Tab(Len(T), LAMBDA i : LET k == LastLE(rt, T[i]) IN k >= 1 /\ yes[k])
        cs == Tab(Len(T), LAMBDA i : IF said[i] THEN s[i] ELSE NaN)
        lo == Tab(Len(mid), LAMBDA d : MinV(Valid(Cut(cs, DaySpan(T, mid, d)))))
        hi == Tab(Len(mid), LAMBDA d : MaxV(Valid(Cut(cs, DaySpan(T, mid, d)))))
        top == TLCEval(DayTop(s, T, mid))
    IN Tab(Len(T), LAMBDA i :
        LET d == DayOf(mid, T[i])
            share == s[i] \oslash (top[i] \oplus NQ(1, 100000))
            from == IF f < 5 THEN NMax(lo[d], hi[d] \otimes NQ(96, 100)) ELSE lo[d]
        IN IF IsNaN(s[i]) \/ IsNaN(lo[d]) THEN "F"
           ELSE TAnd(TAnd(LEq(from, s[i]), TLe(IF f < 5 THEN NQ(9, 10) ELSE NQ(95, 100), share)),
                     TAnd(TLe(s[i], hi[d] \otimes NQ(10025, 10000)), TLe(NQ(1, 10), s[i]))))
=============================================================================
