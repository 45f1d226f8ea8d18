------------------------------ MODULE Clipping ------------------------------
(***************************************************************************)
(* Logic-based clipping detection.  T: ascending minutes since the local   *)
(* midnight that starts the record (repeats allowed); mid: minutes of all  *)
(* local midnights; P: power; f: sampling interval in minutes.             *)
(* Decisions at the edge of double precision make the result undetermined  *)
(* (field amb, or "?" for a single point).                                 *)
(***************************************************************************)
EXTENDS Filters, Interp
DayOf(mid, t) == LastLE(mid, t)
\* positions of the first of each run of equal timestamps
Firsts(T) == SelectSeq(Tab(Len(T), LAMBDA i : i), LAMBDA i : i = 1 \/ T[i-1] # T[i])
\* contiguous positions of T in [a, b)
Span(T, a, b) == <<FirstGE(T, a), FirstGE(T, b) - 1>>
DayEnd(mid, d) == IF d < Len(mid) THEN mid[d+1] ELSE 2000000000
DaySpan(T, mid, d) == Span(T, mid[d], DayEnd(mid, d))
Cut(s, sp) == IF sp[2] < sp[1] THEN <<>> ELSE SubSeq(s, sp[1], sp[2])

Amb(a, b) == Near(a, b) /\ ~(NEq(a, b) /\ NEq(a, Zero))
\* a day whose relative variation is below one tenth
Variation(v) == LET n == Len(v)  m == TLCEval(Mean(v))
                    d == Tab(n, LAMBDA i : v[i] \ominus m)
                IN [m2 |-> (m \otimes m) \oslash Hundred, var |-> NDot(d, d) \oslash NI(n - 1), n |-> n, m |-> m]
FrozenTF(v0) == LET v == TLCEval(Valid(v0)) IN
    IF Len(v) < 2 THEN "F"
    ELSE LET x == TLCEval(Variation(v))
         IN IF NEq(x.m, Zero) THEN "F" ELSE IF x.m \prec Zero THEN "T"
            ELSE IF Near(x.var, x.m2) /\ ~NEq(x.var, Zero) THEN "?" ELSE TF(x.var \prec x.m2)
WindowOf(mount, f) == IF mount = "single_axis_tracking" /\ f < 30 THEN 5 ELSE 3

\* the series examined: regular, frozen days and the lowest tenth of each day removed
Regular(T, P, f, w) ==
    IF f >= 10 THEN LET g == GridTo(T, f)  gap == DefaultGap(VT(T, P))
                    IN [t |-> g, v |-> InterpSeq(T, P, g, gap)]
    ELSE LET b0 == T[1] \div 15  n == (T[Len(T)] \div 15) - b0 + 1
             g == Tab(n, LAMBDA k : (b0 + k - 1) * 15)
         IN [t |-> g, v |-> Tab(n, LAMBDA k : Median(Valid(Cut(P, Span(T, g[k], g[k] + 15)))))]
RangeTF(v, i, R, cutoff) ==
    IF i + R - 1 > Len(v) THEN "F"
    ELSE LET w == SubSeq(v, i, i + R - 1) IN
         IF \E j \in 1..R : IsNaN(w[j]) THEN "F"
         ELSE LET hi == MaxV(w)  lo == MinV(w)
                  x == ((hi \ominus lo) \oslash ((hi \oplus lo) \oslash NI(2))) \otimes Hundred
              IN IF Near(x, cutoff) THEN "?" ELSE TF(x \prec cutoff)

Detect(T, mid, P, f, R, cutoff) ==
    LET u  == TLCEval(Firsts(T))
        ut == Tab(Len(u), LAMBDA k : T[u[k]])
        up == Tab(Len(u), LAMBDA k : P[u[k]])
        days == Len(mid)
        frozen == Tab(days, LAMBDA d : FrozenTF(Cut(up, DaySpan(ut, mid, d))))
        clean == Tab(Len(u), LAMBDA k : IF frozen[DayOf(mid, ut[k])] = "T" THEN NaN ELSE up[k])
        reg == TLCEval(Regular(ut, clean, f, 15))
        gd == Tab(Len(reg.t), LAMBDA k : DayOf(mid, reg.t[k]))
        tenth == Tab(days, LAMBDA d : MaxV(Cut(reg.v, DaySpan(reg.t, mid, d))) \oslash NI(10))
        ambTenth == \E k \in 1..Len(reg.v) : Amb(reg.v[k], tenth[gd[k]])
        v == Tab(Len(reg.v), LAMBDA k : IF reg.v[k] \prec tenth[gd[k]] THEN NaN ELSE reg.v[k])
        rr == Tab(Len(v), LAMBDA k : RangeTF(v, k, R, cutoff))
        ambRange == \E k \in 1..Len(v) : rr[k] = "?"
        flag == Tab(Len(v), LAMBDA k : k >= R /\ \E j \in (k - R + 1)..k : rr[j] = "T")
        onflag == Tab(Len(T), LAMBDA i : flag[LastLE(reg.t, T[i])])
        cp == Tab(Len(T), LAMBDA i : IF onflag[i] THEN P[i] ELSE NaN)
        dayc == Tab(days, LAMBDA d : Cut(cp, DaySpan(T, mid, d)))
        hi == Tab(days, LAMBDA d : IF f < 10 THEN RobustQuantile(dayc[d], NQ(99, 100)) ELSE MaxV(dayc[d]))
        lo == Tab(days, LAMBDA d : IF f < 10 THEN RobustQuantile(dayc[d], NQ(75, 1000)) ELSE MinV(dayc[d]))
        dif == Tab(days, LAMBDA d : (hi[d] \ominus lo[d]) \oslash hi[d])
        ambDif == \E d \in 1..days : Near(dif[d], NQ(25, 1000))
        LE(a, b) == IF NEq(a, b) THEN "T" ELSE TLe(a, b)
        band(p, c) == TAnd(TLe(p, c \otimes NQ(10025, 10000)), TLe(c \otimes NQ(9975, 10000), p))
        clip(i) == LET d == DayOf(mid, T[i])  p == P[i] IN
                   IF IsNaN(hi[d]) \/ IsNaN(p) THEN "F"
                   ELSE IF IsNaN(dif[d]) THEN "F"
                   ELSE IF dif[d] \preceq NQ(25, 1000) THEN TAnd(LE(lo[d], p), LE(p, hi[d]))
                   ELSE TOr(band(p, hi[d]), band(p, lo[d]))
        fin == Tab(Len(T), LAMBDA i : clip(i))
        unsure == \E i \in 1..Len(T) : fin[i] = "?"
        pc == Tab(Len(T), LAMBDA i : LET k == CHOOSE k \in {LastLE(ut, T[i])} : TRUE IN clean[k])
        clipped == SelectSeq(Tab(Len(T), LAMBDA i : IF fin[i] = "T" THEN P[i] ELSE NaN), LAMBDA x : ~IsNaN(x))
        qp == TLCEval(RobustQuantile(pc, NQ(99, 100)))
        qc == TLCEval(RobustQuantile(clipped, NQ(99, 100)))
        pd == NAbs((qp \ominus qc) \oslash ((qp \oplus qc) \oslash NI(2)))
        pct == NQ(Len(clipped) * 100, Len(T))
        overall == IF Len(clipped) = 0 THEN "F" ELSE IF unsure THEN "?" ELSE TAnd(TLt(pd, NQ(5, 1000)), TLt(NI(4), pct))
        top(i) == LE(qp, pc[i])
    IN [amb |-> ambTenth \/ ambRange \/ ambDif \/ \E d \in 1..days : frozen[d] = "?",
        overall |-> overall, hi |-> hi, lo |-> lo, flag |-> onflag,
        excluded |-> Tab(Len(T), LAMBDA i : IF IsNaN(pc[i]) THEN fin[i] ELSE TOr(fin[i], TAnd(overall, top(i))))]
=============================================================================
