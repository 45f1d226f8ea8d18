---------------------------- MODULE MC_Threshold ----------------------------
(***************************************************************************)
(* Readings arrive one by one; threshold filters with bounds lo < hi.      *)
(***************************************************************************)
EXTENDS Filters, Json
CONSTANTS MaxLen, Values, Bounds, Emit
PlusInf == 88888
Val(v) == IF v = Missing THEN NaN ELSE IF v = PlusInf THEN Inf ELSE IF v = 77777 THEN NInf ELSE IF v = 66666 THEN NI(-3) ELSE NI(v)
VARIABLES raw, lo, hi, done
vars == <<raw, lo, hi, done>>
s == Tab(Len(raw), LAMBDA i : Val(raw[i]))
Init == raw = <<>> /\ lo \in Bounds /\ hi \in Bounds /\ lo <= hi /\ done = FALSE
Read(v) == ~done /\ Len(raw) < MaxLen /\ raw' = Append(raw, v) /\ UNCHANGED <<lo, hi, done>>
Stop == /\ ~done /\ Len(raw) = MaxLen /\ done' = TRUE /\ UNCHANGED <<raw, lo, hi>>
        /\ Emit => PrintT(<<"CASE", ToJson([v |-> raw, lo |-> lo, hi |-> hi])>>)
Next == Stop \/ \E v \in Values : Read(v)
Spec == Init /\ [][Next]_vars
M(l, h) == BandMask(s, Val(l), Val(h))
MissingNeverKept == \A i \in 1..Len(s) : IsNaN(s[i]) => M(lo, hi)[i] = "F"
Strict == \A i \in 1..Len(s) : (s[i] = Val(lo) \/ s[i] = Val(hi)) => M(lo, hi)[i] = "F"
WideningKeeps == \A i \in 1..Len(s) : M(lo, hi)[i] = "T" => M(lo - 1, hi + 1)[i] = "T"
\* the decision on earlier readings never depends on later ones
Pointwise == [][\A i \in 1..Len(s) : BandMask([k \in 1..Len(raw') |-> Val(raw'[k])], Val(lo), Val(hi))[i] = M(lo, hi)[i]]_raw
fin == SelectSeq(s, LAMBDA x : Fin(x))
\* robust statistics: zeros and missing values do not matter, scale does, bounded by the retained values
RobustZero == \A q \in {NQ(1, 2), NQ(9, 10)} :
    RobustMedian(Tab(Len(fin), LAMBDA i : NMax(fin[i], Zero)), q) = RobustMedian(Tab(Len(fin), LAMBDA i : IF fin[i] \preceq Zero THEN NaN ELSE fin[i]), q)
RobustScale == LET b == Tab(Len(fin), LAMBDA i : fin[i] \otimes NI(3)) IN
    LET a == RobustQuantile(fin, NQ(9, 10)) IN IsNaN(a) \/ RobustQuantile(b, NQ(9, 10)) = a \otimes NI(3)
RobustBounded == LET r == Robust(fin, NQ(9, 10)) IN
    r # <<>> => \A x \in {RobustQuantile(fin, NQ(9, 10)), RobustMedian(fin, NQ(9, 10)), RobustMean(fin, NQ(9, 10))} :
                MinV(r) \preceq x /\ x \preceq MaxV(r)
\* the quantile filters keep the right end of the distribution
InsolationKeepsMax == fin # <<>> => \A i \in 1..Len(fin) : NEq(fin[i], MaxV(fin)) => InsolationMask(fin, NQ(1, 10), TRUE)[i] = "T"
ClipDropsMax == \A i \in 1..Len(fin) : (NEq(fin[i], MaxV(fin)) /\ Zero \prec fin[i]) => QuantileClipMask(fin, NQ(98, 100))[i] = "F"
=============================================================================
