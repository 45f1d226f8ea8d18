-------------------------- MODULE MC_SoilSummary --------------------------
EXTENDS SoilSummary, Json
CONSTANTS Anchors, Lengths, Bounds, MaxIntervals, Emit
B3 == {<<-6, -1>>, <<-3, 0>>, <<-4, -3>>}
VARIABLES tab, done
vars == <<tab, done>>
\* an interval: <<first day, length, low, high>> (rates in thousandths)
Init == tab = <<>> /\ done = FALSE
Add == /\ ~done /\ Len(tab) < MaxIntervals
       /\ \E a \in Anchors, l \in Lengths, b \in Bounds : tab' = Append(tab, <<a, l, b[1], b[2]>>)
       /\ UNCHANGED done
Finish == /\ ~done /\ Len(tab) > 0 /\ done' = TRUE /\ UNCHANGED tab
          /\ Emit => PrintT(<<"CASE", ToJson([tab |-> tab])>>)
Next == Add \/ Finish
Spec == Init /\ [][Next]_vars
InMonth(x, m) == Cardinality({d \in x[1]..(x[1] + x[2]) : Civil(d)[2] = m})
W(t, m) == Tab(Len(t), LAMBDA k : NI(InMonth(t[k], m)))
R(t) == Tab(Len(t), LAMBDA k : [low |-> NI(t[k][3]), high |-> NI(t[k][4])])
Months == IF tab = <<>> THEN {} ELSE {Civil(d)[2] : d \in UNION {tab[k][1]..(tab[k][1] + tab[k][2]) : k \in 1..Len(tab)}}
\* every day of every interval is weighed in exactly one month
DaysConserved == done => \A k \in 1..Len(tab) :
    LET RECURSIVE s(_)  s(m) == IF m = 0 THEN 0 ELSE InMonth(tab[k], m) + s(m - 1) IN s(12) = tab[k][2] + 1
Rev(t) == Tab(Len(t), LAMBDA k : t[Len(t) + 1 - k])
\* the mixture is a distribution on the hull of the bounds of the intervals touching the month, whatever their order
Mixture == done => \A m \in Months :
    LET r == R(tab) w == TLCEval(W(tab, m))
        touch == {k \in 1..Len(tab) : Zero \prec w[k]}
        at(v) == TLCEval(MixCdf(NI(v), r, w))
        lo == IMin({tab[k][3] : k \in touch})  hi == IMax({tab[k][4] : k \in touch})
    IN /\ NEq(at(lo), Zero) /\ NEq(at(hi), One)
       /\ \A v \in lo..(hi - 1) : at(v) \preceq at(v + 1)
       /\ \A v \in lo..hi : NEq(at(v), MixCdf(NI(v), R(Rev(tab)), W(Rev(tab), m)))
=============================================================================
