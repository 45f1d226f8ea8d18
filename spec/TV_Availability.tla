-------------------------- MODULE TV_Availability --------------------------
EXTENDS Availability, Aggregate, TraceBase
(***************************************************************************)
(* One record is one run of the analysis.  Each part judges its stage from *)
(* the recorded inputs of that stage: part "sub" the subsystem loss, part  *)
(* "out" the outage table, part "acc" the accounts.                        *)
(***************************************************************************)
Cols(s) == Tab(Len(s), LAMBDA j : NumSeq(s[j]))
Subsystem(e) ==
    LET S == Cols(e.S)  m == Len(S)  n == Len(S[1])  P == NumSeq(e.P)
        auto == e.thr = <<>>
        thr == Tab(m, LAMBDA j : IF auto THEN AutoThr(S[j]) ELSE NP(e.thr[j]))
        want(j, i) == IF auto /\ ~NEq(S[j][i], Zero) THEN TLt(thr[j], Nz(S[j][i])) ELSE TF(thr[j] \prec Nz(S[j][i]))
        mask == UNION {MaskClause("reporting mask of subsystem " \o ToString(j), Tab(n, LAMBDA i : want(j, i)), e.mask[j]) : j \in 1..m}
        z == IF e.sizes = <<>> THEN AutoSizes(S, e.mask) ELSE NumSeq(e.sizes)
        zz == TLCEval(z)
        cap == NumSeq(e.cap)
        loss == NumSeq(e.loss_sub)
        ok(i) == LET w == SubLoss([j \in 1..m |-> S[j][i]], [j \in 1..m |-> e.mask[j][i]], zz, P[i], cap[i])
                 IN \E x \in w : Close(x, loss[i])
        bad == TLCEval({i \in 1..n : ~ok(i)})
    IN mask \cup
       (IF Len(loss) # n THEN {"loss covers the record"}
        ELSE Clause("subsystem loss is never negative or missing", \A i \in 1..n : Zero \preceq loss[i])
             \cup (IF bad = {} THEN {} ELSE LET i == IMin(bad) IN {"subsystem loss at reading " \o ToString(i) \o " is " \o NStr(loss[i]) \o " instead of "
                     \o NStr(CHOOSE x \in SubLoss([j \in 1..m |-> S[j][i]], [j \in 1..m |-> e.mask[j][i]], zz, P[i], cap[i]) : TRUE)}))
Outs(e) ==
    LET P == NumSeq(e.P)  X == NumSeq(e.X)  M == NumSeq(e.M)  n == Len(P)  h == NP(e.h)
        loss == NumSeq(e.loss_sub)
        nrm == TLCEval(Normal(loss, P, X))
        k == TLCEval(Scale(nrm, P, X))
        xr == Tab(n, LAMBDA i : X[i] \oslash k)
        xe == TLCEval(Energies(xr, h))
        pe == TLCEval(Energies(P, h))
        a == Tab(Len(nrm), LAMBDA i : pe[nrm[i]])  x == Tab(Len(nrm), LAMBDA i : xe[nrm[i]])
        lo == TLCEval(ErrorCurve(a, x, NP(e.q[1])))  hi == TLCEval(ErrorCurve(a, x, NP(e.q[2])))
        day == Tab(n, LAMBDA i : Zero \prec X[i])
        off == Tab(n, LAMBDA i : \A j \in 1..Len(e.mask) : ~e.mask[j][i])
        o == TLCEval(Outages(TLCEval(Down(day, off))))
        judge(q, g) ==
            LET lit == Count(Tab(q[2] - q[1] + 1, LAMBDA i : q[1] + i - 1), LAMBDA i : day[i])
                el == ErrorFor(lo, lit)  eh == ErrorFor(hi, lit)
                v == TLCEval(Outage(q, M, xe, el, eh))
                t == "outage " \o ToString(q) \o ": "
            IN Clause(t \o "extent", g.start = q[1] /\ g.end = q[2])
               \cup Clause(t \o "duration", g.duration = q[2] - q[1])
               \cup Clause(t \o "interval counts", g.intervals = q[2] - q[1] + 1 /\ g.daylight = lit)
               \cup Clause(t \o "lower error bound must be " \o NStr(el), Close(el, NP(g.error_lower)))
               \cup Clause(t \o "upper error bound must be " \o NStr(eh), Close(eh, NP(g.error_upper)))
               \cup Clause(t \o "expected energy must be " \o NStr(v.expected), Close(v.expected, NP(g.energy_expected)))
               \cup Clause(t \o "meter reading before", Close(v.start, NP(g.energy_start)))
               \cup Clause(t \o "last meter reading", Close(v.end, NP(g.energy_end)))
               \cup Clause(t \o "confidence bounds", Close(v.ci, NP(g.ci_lower)) /\ Close(v.cihi, NP(g.ci_upper)))
               \cup (IF v.kind = "?" THEN {} ELSE
                       Clause(t \o "must be " \o v.kind \o ", not " \o g.type, g.type = v.kind)
                       \cup Clause(t \o "actual energy must be " \o NStr(v.actual), Close(v.actual, NP(g.energy_actual)))
                       \cup Clause(t \o "loss must be " \o NStr(v.loss), Close(v.loss, NP(g.loss))))
    IN SeqClause("rescaled expected power", xr, NumSeq(e.xr))
       \cup SeqClause("rescaled expected energy", SubSeq(xe, 2, n), NumSeq(e.xe))
       \cup (IF Len(o) # Len(e.outages) THEN {"there must be " \o ToString(Len(o)) \o " outages, not " \o ToString(Len(e.outages))}
             ELSE UNION {judge(o[i], e.outages[i]) : i \in 1..Len(o)})
Accounts(e) ==
    LET X == NumSeq(e.X)  M == NumSeq(e.M)  n == Len(X)  h == NP(e.h)
        sub == NumSeq(e.loss_sub)  sys == NumSeq(e.loss_sys)  tot == NumSeq(e.loss_total)
        fixed == NumSeq(e.corrected)
        xe == TLCEval(Energies(X, h))
        se == TLCEval(Energies(sys, h))
        o == e.outages
        of == Tab(n, LAMBDA i : LET S == {k \in 1..Len(o) : o[k].start <= i /\ i <= o[k].end} IN IF S = {} THEN 0 ELSE IMin(S))
        pair(k) == <<o[k].start, o[k].end>>
        wantsys == Tab(n, LAMBDA i : IF of[i] = 0 THEN Zero ELSE LostPower(pair(of[i]), X, xe, NP(o[of[i]].loss), i))
        wantfix == Tab(n, LAMBDA i : IF of[i] = 0 THEN M[i] ELSE Corrected(pair(of[i]), xe, NP(o[of[i]].energy_start), NP(o[of[i]].energy_actual), i))
        total(k) == Clause("integrated loss of outage " \o ToString(pair(k)) \o " is its reported loss",
                      o[k].type = "unknown" \/ Close(NP(o[k].loss), SumV(SubSeq(se, o[k].start, o[k].end))))
                    \cup Clause("the corrected meter ends outage " \o ToString(pair(k)) \o " at the meter's reading",
                      o[k].type = "unknown" \/ Close(NP(o[k].energy_end), fixed[o[k].end]))
        te == TLCEval(Energies(tot, h))
        no == Tab(n, LAMBDA i : PeriodNo(e.freq, e.days[i], 0, e.days[1], 0))
        kp == no[n] - no[1] + 1
        row(p) == LET ix == TLCEval(SelectSeq(Tab(n, LAMBDA i : i), LAMBDA i : no[i] = no[1] + p - 1))
                      v == TLCEval(SelectSeq(ix, LAMBDA i : ~IsNaN(fixed[i])))
                      ei == TLCEval(SelectSeq(ix, LAMBDA i : i > 1))
                      lost == IF ei = <<>> THEN NaN ELSE SumV(Tab(Len(ei), LAMBDA i : te[ei[i]]))
                      act == IF v = <<>> THEN NaN ELSE fixed[v[Len(v)]] \ominus fixed[v[1]]
                      g == e.rows[p]
                      t == "period " \o ToString(p) \o ": "
                      av == act \oslash (act \oplus lost)
                  IN Clause(t \o "label", g.label = PeriodLabel(e.freq, no[1] + p - 1, e.days[1]))
                     \cup Clause(t \o "lost production is the integral of total loss", Close(lost, NP(g.lost)))
                     \cup Clause(t \o "actual production is the rise of the corrected meter", NClose(act, NP(g.actual), RTol, NQ(1, 1000000)))
                     \cup Clause(t \o "availability is actual / (actual + lost)", (Near(act \oplus lost, Zero)) \/ NClose(av, NP(g.avail), NQ(1, 100000), NQ(1, 100000)))
                     \cup Clause(t \o "availability lies in [0, 1]", (Zero \preceq act /\ Zero \preceq lost /\ NQ(1, 1000) \prec (act \oplus lost)) =>
                             (NNeg(NQ(1, 1000000)) \preceq NP(g.avail) /\ NP(g.avail) \preceq (One \oplus NQ(1, 1000000))))
    IN SeqClause("total loss is system plus subsystem loss", Tab(n, LAMBDA i : sys[i] \oplus sub[i]), tot)
       \cup SeqClause("system loss follows expected power inside outages and is zero outside", wantsys, sys)
       \cup SeqClause("corrected meter", wantfix, fixed)
       \cup UNION {total(k) : k \in 1..Len(o)}
       \cup (IF Len(e.rows) # kp THEN {"one row per rollup period"} ELSE UNION {row(p) : p \in 1..kp})
Verdict(e) ==
    IF e.refuse # "" THEN Clause("must be refused: " \o e.why, e.err = e.refuse)
    ELSE IF e.err # "" THEN {"raised " \o e.err}
    ELSE CASE e.part = "sub" -> Subsystem(e) [] e.part = "out" -> Outs(e) [] e.part = "acc" -> Accounts(e)
=============================================================================
