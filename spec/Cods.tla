-------------------------------- MODULE Cods --------------------------------
(***************************************************************************)
(* Combined degradation and soiling (rdtools.soiling.CODSAnalysis).        *)
(*  - Fitting: the cycle over the components, with its two phases          *)
(*    (cleaning assumed perfect, then not) and its stopping rule.          *)
(*  - Soiling signal: detection of cleanings in the rolling median, a      *)
(*    two-state Kalman filter (level, rate) restarted at cleanings,        *)
(*    smoothing between cleanings, pruning, soiling ratio.                 *)
(*  - Whole decomposition when soiling is the only component.              *)
(* Days are numbered from 1.                                               *)
(***************************************************************************)
EXTENDS YoY, SequencesExt

Tie(a, b) == Fin(a) /\ Fin(b) /\ NClose(a, b, NQ(1, 1000000000), NP("1/10000000000000"))
GtT(a, b) == IF Tie(a, b) THEN "?" ELSE TF(NLt(b, a))           \* a > b

\* ------------------------------------------------------------------ fitting cycle
\* state: it (steps made), pos (next position in order), perfect, since (step of the change), stop ("" while running)
FitInit == [it |-> 0, pos |-> 1, perfect |-> TRUE, since |-> 0, stop |-> ""]
\* small: is the improvement over the last whole cycle below the criterion?
FitStep(s, n, max, small) ==
    LET k == s.it + 1
        adv == [s EXCEPT !.it = k, !.pos = (s.pos % n) + 1]
        res == IF k < n THEN adv
               ELSE IF s.perfect /\ (2 * k >= max \/ small) THEN [adv EXCEPT !.perfect = FALSE, !.since = k, !.pos = 1]
               ELSE IF ~s.perfect /\ (k >= max \/ (k >= s.since + n /\ small)) THEN [adv EXCEPT !.stop = IF small THEN "converged" ELSE "maximum"]
               ELSE adv
    IN IF res.stop = "" /\ k >= max THEN [res EXCEPT !.stop = "maximum"] ELSE res

\* ------------------------------------------------------------------ rolling medians and detection
FFill(v) == LET n == Len(v)
                last == FoldLeft(LAMBDA acc, x : Append(acc, IF IsNaN(x) /\ acc # <<>> THEN acc[Len(acc)] ELSE x), <<>>, v)
            IN last
BFill(v) == Reverse(FFill(Reverse(v)))
Fill(v, forward) == IF forward THEN FFill(v) ELSE BFill(v)
RollMedian(v, w) ==
    LET h == (w - 1) \div 2  n == Len(v)
    IN Tab(n, LAMBDA i : IF i <= h \/ i > n - h THEN NaN
                         ELSE LET x == SubSeq(v, i - h, i + h) IN IF \E k \in 1..w : IsNaN(x[k]) THEN NaN ELSE Median(x))
Diffs(v) == Tab(Len(v), LAMBDA i : IF i = 1 THEN NaN ELSE v[i] \ominus v[i-1])
AbsAll(v) == Tab(Len(v), LAMBDA i : NAbs(v[i]))
\* flags in {"T","F","?"}
CleaningFlags(d, tuner) ==
    LET a == TLCEval(NSort(AbsAll(d)))
        q3 == SortedQuantile(a, NQ(3, 4))  q1 == SortedQuantile(a, NQ(1, 4))
        lim == TLCEval(q3 \oplus (tuner \otimes (q3 \ominus q1)))
    IN Tab(Len(d), LAMBDA i : IF IsNaN(d[i]) THEN "F" ELSE GtT(d[i], lim))
SoilingFlags(d) ==
    LET a == TLCEval(NSort(AbsAll(d)))
        q3 == SortedQuantile(a, NQ(99, 100))  q1 == SortedQuantile(a, NQ(1, 100))
        lim == TLCEval(q1 \ominus (NI(5) \otimes (q3 \ominus q1)))
    IN Tab(Len(d), LAMBDA i : IF IsNaN(d[i]) THEN "F" ELSE GtT(lim, d[i]))
SureFlags(fl) == \A i \in 1..Len(fl) : fl[i] # "?"
Flagged(fl) == {i \in 1..Len(fl) : fl[i] = "T"}

\* the largest metric among positions a..b (first of them), and whether it is clear-cut
ArgMax(m, a, b) == LET S == {i \in a..b : ~IsNaN(m[i])} IN CHOOSE i \in S : \A j \in S : (m[j] \prec m[i]) \/ (m[j] = m[i] /\ i <= j)
ClearMax(m, a, b) == LET i == ArgMax(m, a, b)
                     IN \A j \in a..b : j = i \/ IsNaN(m[j]) \/ ~Tie(m[i], m[j]) \/ m[i] = m[j]
\* runs of flags become single events at the largest metric within f days of the run
RECURSIVE CollapseRec(_, _, _, _, _, _)
CollapseRec(fl, ev, m, n, f, sure) ==
    LET cand == {i \in fl : i > f /\ i <= n - f}
    IN IF cand = {} THEN [ev |-> ev, sure |-> sure]
       ELSE LET a == IMin(cand)
                off == {i \in a..(n - f) : i \notin fl}
            IN IF off = {} THEN [ev |-> ev, sure |-> sure]            \* a run reaching the end is not an event
               ELSE LET b == IMin(off) - 1
                        lo == a - f  hi == b + f
                        day == ArgMax(m, lo, hi)
                    IN CollapseRec(TLCEval({i \in fl : i < lo \/ i > hi}), TLCEval({i \in ev : i < lo \/ i > hi} \cup {day}), m, n, f,
                                   sure /\ ClearMax(m, lo, hi))
Collapse(flags, m, f) == LET r == CollapseRec(Flagged(flags), {}, m, Len(m), f, TRUE) IN [ev |-> r.ev, sure |-> r.sure /\ SureFlags(flags)]
Cleanings(y, forward, tuner) == LET d == TLCEval(Diffs(RollMedian(TLCEval(Fill(y, forward)), 9))) IN Collapse(TLCEval(CleaningFlags(d, tuner)), d, 5)

\* ------------------------------------------------------------------ Kalman filter
Bits == 220
R_(x) == NRound(x, Bits)
Insert1(s, e) == LET k == Len(SelectSeq(s, LAMBDA x : x <= e)) IN SubSeq(s, 1, k) \o <<e>> \o SubSeq(s, k + 1, Len(s))
Remove1(s, e) == LET k == IMin({i \in 1..Len(s) : s[i] = e}) IN SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))
InSeq(e, s) == \E i \in 1..Len(s) : s[i] = e

\* what happens at day i of the list of cleanings c: the shift of the level, and the list afterwards
Control(rm7, i, c, level, R) ==
    LET w == SubSeq(rm7, i - 5, i + 5)
        d == TLCEval([k \in 1..10 |-> w[k+1] \ominus w[k]])
        m == ArgMax(d, 1, 10)
        u == w[9] \ominus level
        big == GtT(u \otimes u, R \oslash NI(4))
        at == i + m - 5
    IN IF m = 5 \/ ~InSeq(i, c)
       THEN [u |-> IF big = "T" THEN u ELSE Zero, c |-> IF big = "T" \/ ~InSeq(i, c) THEN c ELSE Remove1(c, i),
             sure |-> big # "?" /\ (ClearMax(d, 1, 10) \/ ~InSeq(i, c))]
       ELSE LET r == Remove1(c, i)
            IN [u |-> Zero, c |-> IF Zero \prec d[m] /\ ~InSeq(at, r) THEN Insert1(r, at) ELSE r, sure |-> ClearMax(d, 1, 10)]

\* forward pass: acc = [x, r, a, b, c (covariance), ev, out, sure]
FwdStep(zs, rm7, soil, R, q, acc, i) ==
    LET N == Len(zs)
        lev == acc.x \oplus acc.r
        ctl == IF i > 8 /\ i < N - 6 /\ (InSeq(i, acc.ev) \/ i \in soil)
               THEN Control(rm7, i, acc.ev, lev, R) ELSE [u |-> Zero, c |-> acc.ev, sure |-> TRUE]
        px == lev \oplus ctl.u
        pa == TLCEval(((acc.a \oplus (NI(2) \otimes acc.b)) \oplus acc.c) \oplus (q \oslash NI(4)))
        pb == TLCEval((acc.b \oplus acc.c) \oplus (q \oslash NI(2)))
        pc == acc.c \oplus q
        S == pa \oplus R
        k0 == TLCEval(R_(pa \oslash S))  k1 == TLCEval(R_(pb \oslash S))
        y == zs[i] \ominus px
        st == IF IsNaN(zs[i]) THEN [x |-> px, r |-> acc.r, a |-> pa, b |-> pb, c |-> pc]
              ELSE [x |-> R_(px \oplus (k0 \otimes y)), r |-> R_(acc.r \oplus (k1 \otimes y)),
                    a |-> R_((One \ominus k0) \otimes pa), b |-> R_((One \ominus k0) \otimes pb), c |-> R_(pc \ominus (k1 \otimes pb))]
    IN TLCEval([x |-> st.x, r |-> st.r, a |-> st.a, b |-> st.b, c |-> st.c, ev |-> ctl.c, out |-> Append(acc.out, st), sure |-> acc.sure /\ ctl.sure])
Forward(zs, rm7, ev, soil, R, q, x0, r0, a0, c0) ==
    FoldLeft(LAMBDA acc, i : FwdStep(zs, rm7, soil, R, q, acc, i),
             [x |-> x0, r |-> r0, a |-> a0, b |-> Zero, c |-> c0, ev |-> ev, out |-> <<>>, sure |-> TRUE], [i \in 1..Len(zs) |-> i])

\* smoothing within a stretch a..b of filtered states
SmoothStep(f, q, acc, i) ==
    LET s == f[i]  nx == acc[1]
        pa == ((s.a \oplus (NI(2) \otimes s.b)) \oplus s.c) \oplus (q \oslash NI(4))
        pb == (s.b \oplus s.c) \oplus (q \oslash NI(2))
        pc == s.c \oplus q
        det == TLCEval((pa \otimes pc) \ominus (pb \otimes pb))
        g0 == s.a \oplus s.b  g1 == s.b  h0 == s.b \oplus s.c  h1 == s.c        \* P F'
        dx == nx.x \ominus (s.x \oplus s.r)  dr == nx.r \ominus s.r
        v0 == TLCEval(((pc \otimes dx) \ominus (pb \otimes dr)) \oslash det)
        v1 == TLCEval(((pa \otimes dr) \ominus (pb \otimes dx)) \oslash det)
    IN TLCEval(<<[x |-> R_(s.x \oplus ((g0 \otimes v0) \oplus (g1 \otimes v1))), r |-> R_(s.r \oplus ((h0 \otimes v0) \oplus (h1 \otimes v1)))]>> \o acc)
Stretch(f, q, a, b) == FoldLeft(LAMBDA acc, i : SmoothStep(f, q, acc, i), <<[x |-> f[b].x, r |-> f[b].r]>>, [k \in 1..(b - a) |-> b - k])
\* cuts: sorted days (first, cleanings, soilings, last); each day belongs to the stretch it starts
Smoothed(f, q, cuts) ==
    FoldLeft(LAMBDA acc, k : IF cuts[k] = cuts[k+1] THEN acc ELSE acc \o Stretch(f, q, cuts[k], cuts[k+1] - 1), <<>>, [k \in 1..(Len(cuts) - 1) |-> k])
    \o <<[x |-> f[Len(f)].x, r |-> f[Len(f)].r]>>
SortedInts(s) == SortSeq(s, LAMBDA a, b : a < b)

\* ------------------------------------------------------------------ soiling signal of zs
\* o: pce (set of days), prunes, prune (sensitivity), perfect, q (process variance), renorm (quantile or NaN), clip
OutlierLow(vals, mult) ==      \* flags of values below the lower fence
    IF \E i \in 1..Len(vals) : IsNaN(vals[i]) THEN Tab(Len(vals), LAMBDA i : "F")
    ELSE LET q3 == Quantile(vals, NQ(3, 4))  q1 == Quantile(vals, NQ(1, 4))
             lim == TLCEval(q1 \ominus (mult \otimes (q3 \ominus q1)))
         IN Tab(Len(vals), LAMBDA i : IF vals[i] = lim THEN "F" ELSE GtT(lim, vals[i]))
MaxRate == NP("1/2000")
RECURSIVE PruneRec(_, _, _, _)
PruneRec(k, o, env, s) ==      \* s = [f, sm, ev, sure]
    IF k = 0 THEN s
    ELSE LET n == Len(env.zs)
             after == Tab(Len(s.ev), LAMBDA j : IF s.ev[j] > n - 6 THEN NaN ELSE Median(Tab(7, LAMBDA m : s.sm[s.ev[j] + m - 1].x)))
             low == TLCEval(OutlierLow(after, o.prune))
             kept == SelectSeq([j \in 1..Len(s.ev) |-> j], LAMBDA j : low[j] # "T")
             ev1 == [j \in 1..Len(kept) |-> s.ev[kept[j]]]
             rates == Tab(n, LAMBDA i : s.sm[i].r)
             fast == Tab(n, LAMBDA i : GtT(rates[i], MaxRate))
             more == IF Cardinality(Flagged(fast)) > 1 THEN Collapse(fast, rates, 4) ELSE [ev |-> {}, sure |-> SureFlags(fast)]
             ev2 == TLCEval(SortedInts(ev1 \o SetSeq(more.ev)))
             sure == s.sure /\ SureFlags(low) /\ more.sure
         IN IF ev2 = s.ev THEN [s EXCEPT !.sure = sure]
            ELSE LET l == s.f.out[n]
                     f2 == TLCEval(Forward(env.zs, env.rm7, ev2, env.soil, env.R, o.q, env.x0, env.r0, l.a \otimes l.a, l.c \otimes l.c))
                     sm2 == TLCEval(Smoothed(f2.out, o.q, SortedInts(<<1, n>> \o f2.ev \o SetSeq(env.soil))))
                 IN PruneRec(k - 1, o, env, [f |-> f2, sm |-> sm2, ev |-> f2.ev, sure |-> sure /\ f2.sure])
SoilingSignal(zs, o) ==
    LET n == Len(zs)
        ff == TLCEval(FFill(zs))
        own == IF Cardinality(o.pce) > 4 THEN [ev |-> o.pce, sure |-> TRUE] ELSE Cleanings(zs, TRUE, NQ(1, 2))
        sf == TLCEval(SoilingFlags(Diffs(RollMedian(ff, 9))))
        edge(w) == BFill(FFill(RollMedian(ff, w)))
        rm13 == TLCEval(edge(13))
        dev == TLCEval(Valid(Tab(n, LAMBDA i : R_(rm13[i] \ominus zs[i]))))
        mean == Mean(dev)
        R == TLCEval(R_(NSum(Tab(Len(dev), LAMBDA i : (dev[i] \ominus mean) \otimes (dev[i] \ominus mean))) \oslash NI(Len(dev) - 1)))
        first == SubSeq(BFill(zs), 1, IF n < 14 THEN n ELSE 14)
        slope == Median(NPairSlopes([i \in 1..Len(first) |-> i - 1], first))
        level == Median(first) \ominus (slope \otimes NQ(Len(first) - 1, 2))
        env == TLCEval([zs |-> zs, rm7 |-> edge(7), soil |-> Flagged(sf), R |-> R, x0 |-> R_(level), r0 |-> R_(slope)])
        f1 == TLCEval(Forward(zs, env.rm7, SortedInts(SetSeq(own.ev)), env.soil, R, o.q, env.x0, env.r0, NP("1/400"), NP("1/40000")))
        sm1 == TLCEval(Smoothed(f1.out, o.q, SortedInts(<<1, n>> \o f1.ev \o SetSeq(env.soil))))
        s == TLCEval(PruneRec(o.prunes, o, env, [f |-> f1, sm |-> sm1, ev |-> f1.ev, sure |-> own.sure /\ SureFlags(sf) /\ f1.sure]))
        sm == s.sm  ev == s.ev
        base(i) == LET S == {k \in 1..Len(ev) : ev[k] <= i} IN sm[ev[IMax(S)]].x
        inv == Tab(n, LAMBDA i : IF ev = <<>> \/ i < ev[1] THEN NaN ELSE R_(One \oslash base(i)))
        mi == Mean(inv)
        sr0 == TLCEval(IF ~o.perfect THEN Tab(n, LAMBDA i : sm[i].x)
                       ELSE IF ev = <<>> THEN Tab(n, LAMBDA i : One)
                       ELSE Tab(n, LAMBDA i : IF i <= ev[1] THEN R_(sm[i].x \otimes mi) ELSE R_(sm[i].x \otimes inv[i])))
        scale == IF IsNaN(o.renorm) THEN One ELSE Quantile(Tab(Len(ev), LAMBDA k : sr0[ev[k]]), o.renorm)
        sr1 == IF IsNaN(o.renorm) THEN sr0 ELSE Tab(n, LAMBDA i : R_(sr0[i] \oslash scale))
    IN [sr |-> IF o.clip THEN Tab(n, LAMBDA i : NMin(sr1[i], One)) ELSE sr1,
        rates |-> Tab(n, LAMBDA i : sm[i].r), ev |-> {ev[k] : k \in 1..Len(ev)}, sure |-> s.sure]

\* ------------------------------------------------------------------ decomposition with soiling as the only component
RmseOf(y, m) == LET d == TLCEval(Valid(Tab(Len(y), LAMBDA i : y[i] \ominus m[i])))
                IN NSqrt(NSum(Tab(Len(d), LAMBDA i : R_(d[i] \otimes d[i]))) \oslash NI(Len(d)))
\* o: sens, prune, prunes, q, renorm, clip, forward, crit, max
RECURSIVE SoilingOnly(_, _, _)
SoilingOnly(y, o, s) ==        \* s = [fit, pce, last (signal), resid, shift, rmse, sens, prune, sure]
    IF s.fit.stop # "" \/ ~s.sure THEN s
    ELSE LET k == s.fit.it + 1
             later == k > 2
             sens == IF later THEN s.sens \otimes NQ(6, 5) ELSE s.sens
             prune == IF later THEN s.prune \oslash NQ(11, 10) ELSE s.prune
             det == IF later THEN Cleanings(s.resid, o.forward, sens) ELSE [ev |-> {}, sure |-> TRUE]
             pce == IF later THEN s.last.ev \cup det.ev ELSE s.pce
             sig == TLCEval(SoilingSignal(Tab(Len(y), LAMBDA i : R_(y[i] \oslash s.shift)),
                        [pce |-> pce, prunes |-> o.prunes, prune |-> prune, perfect |-> s.fit.perfect, q |-> o.q, renorm |-> o.renorm, clip |-> o.clip]))
             resid == Tab(Len(y), LAMBDA i : R_(y[i] \oslash sig.sr[i]))
             shift == TLCEval(R_(Mean(resid)))
             rm == TLCEval(RmseOf(y, Tab(Len(y), LAMBDA i : R_(sig.sr[i] \otimes shift))))
             rel == (s.rmse \ominus rm) \oslash s.rmse
             small == GtT(o.crit, rel)
         IN SoilingOnly(y, o, TLCEval([fit |-> FitStep(s.fit, 1, o.max, small = "T"), pce |-> pce, last |-> sig, resid |-> resid, shift |-> shift,
                                       rmse |-> rm, sens |-> sens, prune |-> prune, sure |-> det.sure /\ sig.sure /\ small # "?"]))
Decompose(y, o) ==
    LET c == Cleanings(y, o.forward, o.sens)
    IN SoilingOnly(y, o, [fit |-> FitInit, pce |-> c.ev, last |-> [sr |-> <<>>, rates |-> <<>>, ev |-> {}, sure |-> TRUE], resid |-> y, shift |-> One,
                          rmse |-> RmseOf(y, Tab(Len(y), LAMBDA i : One)), sens |-> o.sens, prune |-> o.prune, sure |-> c.sure])
=============================================================================
