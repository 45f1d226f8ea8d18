------------------------------ MODULE Workflow ------------------------------
(***************************************************************************)
(* The sensor and clear-sky workflows of a trend analysis, stage by stage: *)
(*   inputs -> on the PV index -> energy -> cell temperature -> normalized *)
(*   energy and insolation -> points kept -> periods -> periods kept ->    *)
(*   regular series.                                                       *)
(* Times are integer minutes (UTC); a series is [t |-> times, v |-> nums]. *)
(* An option that is not given is the empty series or the string "".       *)
(***************************************************************************)
EXTENDS Normalize, Filters, Aggregate

Given(s) == Len(s.t) > 0
NoSeries == [t |-> <<>>, v |-> <<>>]
GapOf(s, gap) == IF gap = 0 THEN DefaultGap(VT(s.t, s.v)) ELSE NI(gap)

\* ---- stage 1: everything on the PV index (itself put on a regular grid when asked)
PVIndex(pv, interp, gap) == IF interp = 0 THEN pv
                            ELSE LET g == GridTo(pv.t, interp) IN [t |-> g, v |-> InterpSeq(pv.t, pv.v, g, GapOf(pv, gap))]
OnPV(s, ts, gap) == IF ~Given(s) THEN NoSeries ELSE [t |-> ts, v |-> InterpSeq(s.t, s.v, ts, GapOf(s, gap))]

\* ---- stage 2: energy of the PV signal
StepOf(ts) == NFloor(MedianStep(ts))
PVEnergy(pv, isEnergy, gap) ==
    IF isEnergy THEN pv
    ELSE LET w == StepOf(pv.t)
             e == Edges(pv.t, w)
         IN [t |-> SubSeq(e, 2, Len(e)),
             v |-> EnergyFromPower("right_labeled", pv.t, pv.v, w, IF gap = 0 THEN MedianStep(pv.t) ELSE NI(gap), 60)]

\* ---- stage 3: cell temperature (Sandia model) when none is measured
SapmCell(poa, tamb, wind, m) ==
    (((poa \otimes NExp(m.a \oplus (m.b \otimes wind))) \oplus tamb) \oplus ((poa \oslash NI(1000)) \otimes m.d))
\* (wind: the value at a time)
Both(a, b) == IF a.t = b.t THEN a.t ELSE TLCEval(SortInts(Range(a.t) \cup Range(b.t)))
Cell(poa, tamb, wind(_), m) ==
    LET ts == TLCEval(Both(poa, tamb))
    IN [t |-> ts, v |-> Tab(Len(ts), LAMBDA i : SapmCell(At(poa, ts[i]), At(tamb, ts[i]), wind(ts[i]), m))]

\* ---- stage 4: normalized energy and insolation
Watts(poa, tc, rated, gamma, hasGamma) ==
    LET ts == IF hasGamma THEN TLCEval(Both(poa, tc)) ELSE poa.t
    IN [t |-> ts, v |-> Tab(Len(ts), LAMBDA i : PVWatts(At(poa, ts[i]), rated, NI(1000), hasGamma, IF hasGamma THEN At(tc, ts[i]) ELSE Zero, NI(25), gamma))]
Finite(s) == SelectSeq(s, LAMBDA x : Fin(x))
Rescaled(norm) == LET q == RobustQuantile(Finite(norm), NQ(95, 100)) IN Tab(Len(norm), LAMBDA i : norm[i] \oslash q)
RescaleSafe(norm) == RobustSafe(Finite(norm), NQ(95, 100))

\* ---- stage 5: a point is kept when every configured filter has it and keeps it
MaskAt(ts, m, t) == LET i == LastLE(ts, t) IN IF i >= 1 /\ ts[i] = t THEN m[i] ELSE "F"
AllKeep(masks, t) == LET s == {MaskAt(masks[k].t, masks[k].m, t) : k \in 1..Len(masks)}
                     IN IF "F" \in s THEN "F" ELSE IF "?" \in s THEN "?" ELSE "T"

\* ---- stage 6: periods
\* zone: sequence of <<from minute, offset in minutes>>
OffsetAt(zone, t) == LET S == {k \in 1..Len(zone) : zone[k][1] <= t} IN zone[IMax(S)][2]
LocalDay(zone, t) == (t + OffsetAt(zone, t)) \div 1440
SumOrZero(s) == NSum(Valid(s))
Periods(freq, zone, ts, norm, ins) ==
    LET n == Len(ts)
        days == Tab(n, LAMBDA i : LocalDay(zone, ts[i]))
        mid0 == days[1] * 1440 - OffsetAt(zone, ts[1])
        no == Tab(n, LAMBDA i : PeriodNo(freq, days[i], ts[i], days[1], mid0))
        p0 == no[1]
        k == no[n] - p0 + 1
        all == [i \in 1..n |-> i]
        in(p) == SelectSeq(all, LAMBDA i : no[i] = p0 + p - 1)
    IN IF n = 0 THEN [labels |-> <<>>, perf |-> <<>>, ins |-> <<>>]
       ELSE [labels |-> Tab(k, LAMBDA p : IF freq[1] = "S" THEN mid0 + (p0 + p - 1) * freq[2] ELSE PeriodLabel(freq, p0 + p - 1, days[1])),
             perf |-> Tab(k, LAMBDA p : Weighted(norm, ins, in(p))),
             ins |-> Tab(k, LAMBDA p : LET ix == in(p) IN SumOrZero(Tab(Len(ix), LAMBDA m : ins[ix[m]])))]

\* ---- stage 7: periods kept, between the first and the last kept one, the others missing
Regular(r, keep) ==
    LET kept == {p \in 1..Len(r.labels) : keep[p] = "T"}
    IN IF kept = {} THEN [labels |-> <<>>, perf |-> <<>>, ins |-> <<>>]
       ELSE LET lo == IMin(kept)  n == IMax(kept) - lo + 1
                Val(s) == Tab(n, LAMBDA p : IF keep[lo + p - 1] = "T" THEN s[lo + p - 1] ELSE NaN)
            IN [labels |-> SubSeq(r.labels, lo, lo + n - 1), perf |-> Val(r.perf), ins |-> Val(r.ins)]

\* ---- the whole composition for a record e of inputs and options (numbers as text)
Ser(s) == [t |-> s.t, v |-> NumSeq(s.v)]
Has(e, k) == k \in DOMAIN e.filters
F(e, k) == e.filters[k]
Model(e) == [a |-> NP(e.sapm[1]), b |-> NP(e.sapm[2]), d |-> NP(e.sapm[3])]
Stages(e, interpolated) ==
    LET pv  == TLCEval(PVIndex(Ser(e.pv), e.interp, e.gap))
        en  == TLCEval(PVEnergy(pv, e.energy, e.gap))
        clear == e.workflow = "clearsky"
        base == IF clear /\ ~e.modelled THEN en.t ELSE pv.t   \* a modelled clear sky is on the PV index
        poa == TLCEval(OnPV(Ser(e.poa), pv.t, e.gap))
        src == TLCEval(IF clear THEN OnPV(Ser(e.cs_poa), base, e.gap) ELSE poa)
        tc0 == IF clear THEN Ser(e.cs_tcell) ELSE Ser(e.tcell)
        ta0 == IF clear THEN Ser(e.cs_tamb) ELSE Ser(e.tamb)
        windy == TLCEval(IF clear \/ ~Given(e.wind) THEN NoSeries ELSE OnPV(Ser(e.wind), pv.t, e.gap))
        wind(t) == IF clear THEN Zero ELSE IF Given(e.wind) THEN At(windy, t) ELSE NP(e.wind_const)
        \* the climatology is on the times of the clear sky, what the user gives on those of the energy
        tts == IF ~clear THEN pv.t ELSE IF e.climate THEN src.t ELSE en.t
        tc  == TLCEval(IF Given(tc0) THEN OnPV(tc0, tts, e.gap)
                       ELSE IF Given(ta0) /\ (clear \/ ~Given(e.expected)) THEN Cell(src, OnPV(ta0, tts, e.gap), wind, Model(e)) ELSE NoSeries)
        model == TLCEval(IF Given(e.expected) THEN OnPV(Ser(e.expected), pv.t, e.gap)
                         ELSE Watts(src, tc, IF e.rated = "" THEN One ELSE NP(e.rated), IF e.gamma = "" THEN Zero ELSE NP(e.gamma), e.gamma # ""))
        w == IF e.energy THEN StepOf(en.t) ELSE StepOf(pv.t)
        R == TLCEval(Expected(en, TRUE, model, src, w, 60, interpolated))
        renorm == ~Given(e.expected) /\ e.rated = ""
        norm == TLCEval(IF renorm THEN Rescaled(R.norm) ELSE R.norm)
        masks == << [t |-> R.t, m |-> Tab(Len(R.t), LAMBDA i : "T")] >>
          \o (IF Has(e, "normalized") THEN << [t |-> R.t, m |-> Tab(Len(norm), LAMBDA i :
                    IF Near(norm[i], NP(F(e, "normalized")[1])) \/ Near(norm[i], NP(F(e, "normalized")[2])) THEN "?"
                    ELSE Inside(norm[i], NP(F(e, "normalized")[1]), NP(F(e, "normalized")[2])))] >> ELSE <<>>)
          \o (IF Has(e, "poa") THEN << [t |-> src.t, m |-> Tab(Len(src.t), LAMBDA i :
                    IF Near(src.v[i], NP(F(e, "poa")[1])) THEN "?" ELSE Inside(src.v[i], NP(F(e, "poa")[1]), NP(F(e, "poa")[2])))] >> ELSE <<>>)
          \o (IF Has(e, "tcell") THEN << [t |-> tc.t, m |-> Tab(Len(tc.t), LAMBDA i :
                    IF Near(tc.v[i], NP(F(e, "tcell")[2])) THEN "?" ELSE Inside(tc.v[i], NP(F(e, "tcell")[1]), NP(F(e, "tcell")[2])))] >> ELSE <<>>)
          \o (IF Has(e, "clip") THEN << [t |-> pv.t, m |-> QuantileClipMask(pv.v, NP(F(e, "clip")[1]))] >> ELSE <<>>)
          \o (IF Has(e, "csi") THEN LET c == IF clear THEN src ELSE OnPV(Ser(e.cs_poa), IF e.modelled THEN pv.t ELSE en.t, e.gap)
                                        both == TLCEval(SortInts(Range(poa.t) \cup Range(c.t)))
                                    IN << [t |-> both, m |-> Tab(Len(both), LAMBDA i :
                                              CsiKeep(At(poa, both[i]), At(c, both[i]), NP(F(e, "csi")[1]), FALSE))] >> ELSE <<>>)
        keep == TLCEval(Tab(Len(R.t), LAMBDA i : IF R.t[i] \in {e.adhoc[k] : k \in 1..Len(e.adhoc)} THEN "F" ELSE AllKeep(masks, R.t[i])))
        ix == TLCEval(SelectSeq([i \in 1..Len(R.t) |-> i], LAMBDA i : keep[i] = "T"))
        per == TLCEval(Periods(<<e.freq, e.mult>>, e.zone, Tab(Len(ix), LAMBDA k : R.t[ix[k]]), Tab(Len(ix), LAMBDA k : norm[ix[k]]), Tab(Len(ix), LAMBDA k : R.ins[ix[k]])))
        np == Len(per.labels)
        tk == IF e.freq = "S" THEN per.labels ELSE Tab(np, LAMBDA p : per.labels[p] * 1440)
        two == IF Has(e, "two_way") THEN TwoWayMask(tk, per.perf, 0, F(e, "two_way").pts, NP(F(e, "two_way").thr), FALSE) ELSE Tab(np, LAMBDA p : "T")
        inq == IF Has(e, "insolation") THEN InsolationMask(per.ins, NP(F(e, "insolation")[1]), FALSE) ELSE Tab(np, LAMBDA p : "T")
        kp == TLCEval(Tab(np, LAMBDA p : TAnd(two[p], inq[p])))
    IN [sure |-> (\A i \in 1..Len(keep) : keep[i] # "?") /\ (\A p \in 1..np : kp[p] # "?") /\ (~renorm \/ RescaleSafe(R.norm)),
        coarse |-> Coarser(en, TRUE, model, w),
        energy |-> en, poa |-> src, tcell |-> tc, out |-> Regular(per, kp)]
=============================================================================
