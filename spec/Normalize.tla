----------------------------- MODULE Normalize -----------------------------
(***************************************************************************)
(* Normalized energy (rdtools.normalize_with_expected_power / _pvwatts).   *)
(* A series is a record [t |-> ascending times, v |-> values].             *)
(***************************************************************************)
EXTENDS Energy

SortInts(S) == LET RECURSIVE F(_, _)
                   F(R, acc) == IF R = {} THEN acc ELSE LET m == IMin(R) IN F(R \ {m}, Append(acc, m))
               IN F(S, <<>>)
Range(s) == {s[i] : i \in 1..Len(s)}
At(ser, t) == LET i == LastLE(ser.t, t) IN IF i >= 1 /\ ser.t[i] = t THEN ser.v[i] ELSE NaN
Reindex(ser, ts) == Tab(Len(ts), LAMBDA k : At(ser, ts[k]))

EnergySeries(ser, w, perHour) ==
    LET e == Edges(ser.t, w)
    IN [t |-> SubSeq(e, 2, Len(e)),
        v |-> EnergyFromPower("right_labeled", ser.t, ser.v, w, MedianStep(ser.t), perHour)]
OnIndex(ser, ts) == [t |-> ts, v |-> InterpSeq(ser.t, ser.v, ts, DefaultGap(VT(ser.t, ser.v)))]

MeanStep(ts) == NQ(ts[Len(ts)] - ts[1], Len(ts) - 1)

\* the model is interpolated onto the measurement's timestamps (interp) or used as sampled
Expected(pv, isEnergy, model, poa, w, perHour, interp) ==
    LET energy == IF isEnergy THEN pv ELSE EnergySeries(pv, w, perHour)
        ee     == EnergySeries(IF interp THEN OnIndex(model, pv.t) ELSE model, w, perHour)
        ins    == EnergySeries(IF interp THEN OnIndex(poa, pv.t) ELSE poa, w, perHour)
        idx    == TLCEval(SortInts(Range(energy.t) \cup Range(ee.t) \cup Range(ins.t)))
        num    == Reindex(energy, idx)
        den    == Reindex(ee, idx)
    IN [t |-> idx, norm |-> Tab(Len(idx), LAMBDA k : num[k] \oslash den[k]), ins |-> Reindex(ins, idx)]
MeasuredStep(pv, isEnergy, w) == IF isEnergy THEN MeanStep(pv.t) ELSE NI(w)
\* "T"/"F", or "?" when both have the same mean spacing (no documented choice)
Coarser(pv, isEnergy, model, w) ==
    LET a == MeanStep(model.t)  b == MeasuredStep(pv, isEnergy, w)
    IN IF NEq(a, b) THEN "?" ELSE TF(b \prec a)

PVWatts(poa, rated, ref, hasT, tcell, tref, gamma) ==
    LET p == (rated \otimes poa) \oslash ref
    IN IF hasT THEN p \otimes (One \oplus (gamma \otimes (tcell \ominus tref))) ELSE p
=============================================================================
