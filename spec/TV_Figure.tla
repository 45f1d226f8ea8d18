----------------------------- MODULE TV_Figure -----------------------------
EXTENDS Figure, TraceBase
(* Marks read back from the figure objects; times in seconds from the first  *)
(* time of the record.                                                        *)
Points(name, ts, want, got) ==
    Clause(name \o ": at the times of the data", [i \in 1..Len(got) |-> got[i].t] = ts)
    \cup SeqClause(name, want, Tab(Len(got), LAMBDA i : NP(got[i].v)))
Bar(e, v, asked) ==
    LET w == Edges(v, Bars(asked, e.nrates))
    IN SeqClause("edges of the bars", w, NumSeq(e.edges))
       \cup Clause("every rate is in its bar", CountsOk(v, w, e.counts))
       \cup Clause("bars hold every rate once", ISum(e.counts) = Len(v))
Colour(u) == CASE u = 0 -> "red" [] u = 1 -> "green" [] u = 2 -> "own"
Summary(e) ==
    LET y == NumSeq(e.yield)  v == Valid(NumSeq(e.rates))  n == Len(e.t)
    IN Points("points are the renormalized performance", e.t, Renormalized(y, NP(e.renorm)), e.points)
       \cup Clause("points are coloured by their use", [i \in 1..n |-> e.points[i].c] = [i \in 1..n |-> IF e.detailed THEN Colour(e.usage[i]) ELSE "own"])
       \cup Clause("the trend starts at one and ends where the rate leads",
                   /\ Len(e.line) = 2 /\ e.line[1].t = e.t[1] /\ e.line[2].t = e.t[n]
                   /\ Close(NP(e.line[1].v), One) /\ Close(NP(e.line[2].v), TrendEnd(NP(e.rd), e.t[n] - e.t[1])))
       \cup Bar(e, v, e.bins)
       \cup Clause("the rate is marked on the histogram", Close(NP(e.mark), NP(e.rd)))
       \cup Clause("the caption states rate and interval",
                   Len(e.caption) = (IF e.detailed THEN 4 ELSE 3) /\ Shown(NP(e.rd), NP(e.caption[1])) /\ Shown(NP(e.low), NP(e.caption[2])) /\ Shown(NP(e.high), NP(e.caption[3])))
       \cup Clause("the caption states the number of rates", ~e.detailed \/ Len(e.caption) < 4 \/ NP(e.caption[4]) = NI(Len(v)))
       \cup Clause("limits asked for", e.limits)
Profiles(e) ==
    LET m == IF e.asked = 0 \/ e.asked > Len(e.profiles) THEN Len(e.profiles) ELSE e.asked
    IN Points("points are the renormalized performance", e.t, Renormalized(NumSeq(e.yield), NP(e.renorm)), e.points)
       \cup Clause("one curve per profile asked for", Len(e.curves) = m)
       \cup (IF Len(e.curves) # m THEN {}
             ELSE UNION {Points("curve of a profile", e.profiles[k].t, NumSeq(e.profiles[k].v), e.curves[k]) : k \in 1..m})
       \cup Clause("limits asked for", e.limits)
Rates(e) == Bar(e, Valid(NumSeq(e.rates)), e.bins)
Tune(e) ==
    LET want(b) == SelectSeq([i \in 1..Len(e.t) |-> i], LAMBDA i : e.mask[i] = b)
        part(name, b, got) == LET w == want(b) IN Points(name, [k \in 1..Len(w) |-> e.t[w[k]]], Tab(Len(w), LAMBDA k : NP(e.signal[w[k]])), got)
    IN part("points kept are blue", TRUE, e.kept) \cup part("points removed are goldenrod", FALSE, e.removed)
       \cup Clause("no other points are drawn", e.others = 0)
Series(e) ==
    LET v == NumSeq(e.rates)  m == Moving(e.t, v, e.days)  n == Len(v)
        cnt(i) == i - Window(e.t, i, e.days) + 1
        \* half the number of standard deviations, as order statistics of the window: root is an upper/lower bound of sqrt(n)
        root(k) == CHOOSE r \in 0..k : r * r <= k /\ (r + 1) * (r + 1) > k
        at(s, j) == s[IF j < 1 THEN 1 ELSE IF j > Len(s) THEN Len(s) ELSE j]
        \* the 2.5th percentile of bootstrapped medians lies 0.4 to 4 standard deviations (of half a root) below the median
        bandOk(i) ==
            LET s == TLCEval(NSort(SubSeq(v, Window(e.t, i, e.days), i)))  k == Len(s)  r == root(k)
                lo == NP(e.band[i][1])  hi == NP(e.band[i][2])
            IN /\ at(s, ((k + 1) \div 2) - 2 * (r + 1)) \preceq lo /\ lo \preceq at(s, ((k + 2) \div 2) - (r \div 5))
               /\ at(s, ((k + 1) \div 2) + (r \div 5)) \preceq hi /\ hi \preceq at(s, ((k + 2) \div 2) + 2 * (r + 1))
               /\ lo \preceq hi
    IN Points("moving median of the rates", e.t, m, e.median)
       \cup Clause("the median of all rates is marked", Close(NP(e.mark), Median(v)))
       \cup (IF ~e.ci THEN Clause("no band", e.band = <<>>)
             ELSE LET bad == TLCEval({i \in 1..n : IF IsNaN(m[i]) THEN e.band[i][1] # "nan" ELSE e.band[i][1] = "nan" \/ ~bandOk(i)})
                      on == SelectSeq([i \in 1..n |-> i], LAMBDA i : ~IsNaN(m[i]))
                      size(i) == i - Window(e.t, i, e.days) + 1
                      below(i, x) == Cardinality({j \in Window(e.t, i, e.days)..i : v[j] \preceq x})
                      roots == NSum(Tab(Len(on), LAMBDA k : NSqrt(NI(size(on[k])))))
                      \* distance of the band from the median in standard deviations, over the whole record: 1.96
                      far(side) == NSum(Tab(Len(on), LAMBDA k : LET i == on[k] IN NI(IF side = 1 THEN size(i) - 2 * below(i, NP(e.band[i][1])) ELSE 2 * below(i, NP(e.band[i][2])) - size(i)))) \oslash roots
                  IN Clause("the band is the confidence interval of the moving median", bad = {})
                     \cup (IF bad # {} \/ Len(on) < 150 THEN {}
                           ELSE Clause("the band is a 95 percent interval", \A side \in 1..2 : NQ(17, 10) \prec far(side) /\ far(side) \prec NQ(225, 100))))
Availability(e) ==
    LET out == e.outages  xe == NumSeq(e.expected)
    IN Points("system power", e.t, NumSeq(e.power), e.dpower)
       \cup Clause("one curve per subsystem", Len(e.dsubs) = Len(e.subs))
       \cup (IF Len(e.dsubs) # Len(e.subs) THEN {} ELSE UNION {Points("subsystem power", e.t, NumSeq(e.subs[k]), e.dsubs[k]) : k \in 1..Len(e.subs)})
       \cup Points("lost power", e.t, NumSeq(e.loss), e.dloss)
       \cup Points("reported production", e.t, NumSeq(e.meter), e.dmeter)
       \cup Clause("one expected curve and one bar per outage", Len(e.curves) = Len(out) /\ Len(e.bars) = Len(out))
       \cup (IF Len(e.curves) # Len(out) \/ Len(e.bars) # Len(out) THEN {}
             ELSE UNION {LET o == out[k]  w == Expected(xe, o.a, o.b, NP(o.from))  x == NP(o.expected)
                         IN Points("expected production in an outage", [i \in 1..(o.b - o.a + 1) |-> e.t[o.a + i - 1]], w, e.curves[k])
                            \cup Clause("the bar stands at the end of the outage", e.bars[k].t = e.t[o.b])
                            \cup Clause("the bar spans the confidence interval around the curve's end",
                                        IsNaN(NP(o.low)) \/ IsNaN(w[Len(w)]) \/
                                        (/\ Close(NP(e.bars[k].low), w[Len(w)] \ominus NAbs(x \ominus NP(o.low)))
                                         /\ Close(NP(e.bars[k].high), w[Len(w)] \oplus NAbs(x \ominus NP(o.high))))) : k \in 1..Len(out)})
Production(e) ==      \* e.pairs: irradiance and energy at the times both have; drawn in order of time
    SeqClause("irradiance", NumSeq(e.x), NumSeq(e.dx)) \cup SeqClause("energy", NumSeq(e.y), NumSeq(e.dy))
Verdict(e) ==
    IF e.kind = "refuse" THEN Clause("refused: " \o e.why, e.err = e.want)
    ELSE IF e.err # "" THEN {e.kind \o " raised " \o e.err}
    ELSE Clause("a figure is returned", e.figure)
         \cup (CASE e.kind = "summary" -> Summary(e) [] e.kind = "profiles" -> Profiles(e) [] e.kind = "rates" -> Rates(e) [] e.kind = "tune" -> Tune(e)
               [] e.kind = "series" -> Series(e) [] e.kind = "availability" -> Availability(e) [] e.kind = "production" -> Production(e))
=============================================================================
