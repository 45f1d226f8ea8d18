---------------------------- MODULE MC_Soiling ----------------------------
(***************************************************************************)
(* The analysis as a left-to-right pass: each day either continues the     *)
(* current soiling interval or opens a new one.                            *)
(***************************************************************************)
EXTENDS Soiling, Json
CONSTANTS MaxDays, MinDays, Values, Wet, W, Emit
VARIABLES rv, rr, cut, done
vars == <<rv, rr, cut, done>>
Criteria == {"shift", "precip", "precip_or_shift", "precip_and_shift"}
Thr == NI(1)
Init == /\ \E v \in Values \ {Missing} : rv = <<v>>
        /\ \E u \in Wet : rr = <<u>>
        /\ done = FALSE /\ cut = [c \in Criteria |-> {}]
Day(v, u) == /\ ~done /\ Len(rv) < MaxDays
             /\ rv' = Append(rv, v) /\ rr' = Append(rr, u) /\ UNCHANGED <<done, cut>>
\* the days opening an interval, under each criterion
Cuts == LET p == Numbers(rv)  rain == Numbers(rr)  d == Deltas(p, W)
        IN TLCEval([c \in Criteria |-> {i \in 1..Len(p) : CleanTF(p, rain, W, d, Thr, c, Zero, i) # "F"}])
Stop == /\ ~done /\ Len(rv) >= MinDays /\ rv[Len(rv)] # Missing /\ done' = TRUE /\ UNCHANGED <<rv, rr>>
        /\ cut' = Cuts
        /\ Emit => PrintT(<<"CASE", ToJson([p |-> rv, rain |-> rr, w |-> W])>>)
Next == Stop \/ \E v \in Values, u \in Wet : Day(v, u)
Spec == Init /\ [][Next]_vars
n == Len(rv)
IV(c) == TLCEval(Intervals(n, cut[c]))
Covered(iv) == UNION {iv[k][1]..iv[k][2] : k \in 1..Len(iv)}
\* intervals are consecutive, do not overlap and cover every day; trimming removes exactly the outer ones
Partition == done => \A c \in Criteria : LET iv == IV(c) IN
    /\ \A k \in 1..Len(iv) : iv[k][1] <= iv[k][2]
    /\ \A k \in 2..Len(iv) : iv[k][1] = iv[k-1][2] + 1
    /\ Covered(iv) = 1..n
    /\ Len(iv) >= 2 => Covered(Trimmed(iv, TRUE)) = 1..n \ (Covered(<<iv[1]>>) \cup Covered(<<iv[Len(iv)]>>))
\* a new interval starts exactly at a cleaning day
Boundaries == done => \A c \in Criteria : LET iv == IV(c) IN
    \A i \in 2..n : i \in cut[c] <=> \E k \in 1..Len(iv) : iv[k][1] = i
\* precipitation-and-shift intervals are at least as coarse as shift alone
Coarser == done => /\ cut["precip_and_shift"] \subseteq cut["shift"]
                   /\ cut["precip_or_shift"] = cut["shift"] \cup cut["precip"]
\* a gap is never inside an interval that also has values on both sides of it
GapsSplit == done => \A c \in Criteria : LET iv == IV(c) IN \A k \in 1..Len(iv) : \A i, j \in iv[k][1]..iv[k][2] :
    (i < j /\ rv[i] # Missing /\ rv[j] # Missing /\ \A m \in (i+1)..(j-1) : rv[m] = Missing) => j - i - 1 <= W
Reports == LET p == Numbers(rv) d == Deltas(p, W) iv == IV("precip_or_shift")
               q0 == Tab(n, LAMBDA i : IF IsNaN(p[i]) THEN Zero ELSE p[i])
               d0 == Tab(n, LAMBDA i : IF IsNaN(d[i]) THEN Zero ELSE d[i])
               own(k) == Tab(n, LAMBDA i : IF i \in iv[k][1]..iv[k][2] THEN q0[i] ELSE NI(77))
           IN Tab(Len(iv), LAMBDA k : [r |-> Judge1(q0, d0, iv[k], 2, NI(500), NI(2)),
                                       o |-> Judge1(own(k), d0, iv[k], 2, NI(500), NI(2))])
\* valid intervals soil, within ordered bounds; invalid intervals report zero rates;
\* judged by its own data: changing the performance of other intervals (not the steps) changes nothing
Rates == done => LET rep == Reports IN \A k \in 1..Len(rep) : LET r == rep[k].r IN
    /\ IF r.valid = "T" THEN r.low \preceq r.slope /\ r.slope \preceq r.high /\ r.high \preceq Zero
       ELSE r.valid = "?" \/ (NEq(r.slope, Zero) /\ NEq(r.low, Zero) /\ NEq(r.high, Zero))
    /\ rep[k].o = r
=============================================================================
