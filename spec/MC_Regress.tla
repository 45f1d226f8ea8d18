----------------------------- MODULE MC_Regress -----------------------------
EXTENDS Regress, Json
CONSTANTS MaxPoints, Gaps, Values, Emit
VARIABLES t, rv, done
vars == <<t, rv, done>>
y == Numbers(rv)
Init == t = <<0>> /\ (\E v \in Values : rv = <<v>>) /\ done = FALSE
Add(d, v) == /\ ~done /\ Len(t) < MaxPoints
             /\ t' = Append(t, t[Len(t)] + d) /\ rv' = Append(rv, v) /\ UNCHANGED done
Enough == Len(Idx(y)) >= 3
Stop == /\ ~done /\ Enough /\ done' = TRUE /\ UNCHANGED <<t, rv>>
        /\ Emit => PrintT(<<"CASE", ToJson([t |-> t, y |-> rv])>>)
Next == Stop \/ \E d \in Gaps, v \in Values : Add(d, v)
Spec == Init /\ [][Next]_vars
x == Tab(Len(t), LAMBDA i : NI(t[i]))
SSE(b, m) == LET k == Idx(y) IN NSum(Tab(Len(k), LAMBDA i : LET e == y[k[i]] \ominus (b \oplus (m \otimes x[k[i]])) IN e \otimes e))
\* the line is optimal: any nearby line is worse, and its reported error is the attained one
Optimal == done => LET f == Fit(x, y) IN
    /\ f.sse = SSE(f.b, f.m)
    /\ \A db \in {-1, 0, 1}, dm \in {-1, 0, 1} :
         (db # 0 \/ dm # 0) => f.sse \prec SSE(f.b \oplus NQ(db, 100), f.m \oplus NQ(dm, 100))
Scaled(c) == Tab(Len(y), LAMBDA i : y[i] \otimes c)
\* the rate does not depend on the scale of the series, nor on the missing points
ScaleFree == done => LET f == Fit(x, y)  g == Fit(x, Scaled(NQ(7, 3))) IN NEq(f.b, Zero) \/ Rate(f) = Rate(g)
DropFree == done => LET k == Idx(y)
                    IN Fit(Tab(Len(k), LAMBDA i : x[k[i]]), Tab(Len(k), LAMBDA i : y[k[i]])) = Fit(x, y)
\* Mann-Kendall: antisymmetric, bounded, invariant under positive scaling
V == LET k == Idx(y) IN Tab(Len(k), LAMBDA i : y[k[i]])
Neg(s) == Tab(Len(s), LAMBDA i : NNeg(s[i]))
Kendall == done => /\ KendallS(Neg(V)) = -KendallS(V)
                   /\ KendallS(V) <= Pairs(Len(V)) /\ -Pairs(Len(V)) <= KendallS(V)
                   /\ Zero \preceq KendallVar(V)
                   /\ (KendallVar(V) = Zero => KendallS(V) = 0)
\* variance of S over all orderings of V, computed by enumeration (the definition behind the closed form)
Perms(n) == {p \in [1..n -> 1..n] : \A i, j \in 1..n : i # j => p[i] # p[j]}
KendallExact == (done /\ Len(V) <= 4) =>
    LET P == Perms(Len(V))
        S(p) == KendallS(Tab(Len(V), LAMBDA i : V[p[i]]))
        tot == NSum(LET q == TLCEval(SetSeq(P)) IN Tab(Len(q), LAMBDA i : NI(S(q[i]) * S(q[i]))))
    IN KendallVar(V) = tot \oslash NI(Cardinality(P))
=============================================================================
