-------------------------- MODULE MC_Availability --------------------------
(***************************************************************************)
(* A plant with two subsystems, read once per interval.  Each step is one  *)
(* reading; the plant's true condition decides what the readings show.     *)
(***************************************************************************)
EXTENDS Availability, Energy, Json
CONSTANTS Conditions, MaxLen, MinLen, Emit
VARIABLES hist, done
vars == <<hist, done>>
Init == hist = <<>> /\ done = FALSE
Read(c) == ~done /\ Len(hist) < MaxLen /\ hist' = Append(hist, c) /\ UNCHANGED done
Stop == /\ ~done /\ Len(hist) >= MinLen /\ done' = TRUE /\ UNCHANGED hist
        /\ Emit => PrintT(<<"CASE", ToJson([h |-> hist])>>)
Next == Stop \/ \E c \in Conditions : Read(c)
Spec == Init /\ [][Next]_vars
n == Len(hist)
Sub(c) == CASE c \in {"ok", "dim"} -> <<2, 2>> [] c \in {"half", "halfcomms"} -> <<2, 0>> [] OTHER -> <<0, 0>>
Pow(c) == CASE c \in {"ok", "halfcomms"} -> 4 [] c = "half" -> 2 [] c = "dim" -> 3 [] OTHER -> 0
Gain(c) == IF c = "comms" THEN 4 ELSE IF c = "reset" THEN -90 ELSE Pow(c)
IsDay(c) == c # "night"
RECURSIVE Meter(_)
Meter(i) == IF i = 0 THEN 100 ELSE Meter(i - 1) + Gain(hist[i])
X == Tab(n, LAMBDA i : IF IsDay(hist[i]) THEN NI(4) ELSE Zero)
M == Tab(n, LAMBDA i : NI(Meter(i)))
day == Tab(n, LAMBDA i : IsDay(hist[i]))
off == Tab(n, LAMBDA i : Sub(hist[i]) = <<0, 0>>)
O == TLCEval(Outages(TLCEval(Down(day, off))))
Dark == {"night"}
Dead == {"out", "comms", "reset"}
\* outages are disjoint, in order, separated by a daylight reading with power; every dead daylight
\* reading is in one, no live daylight reading is; every outage has a dead daylight reading
OutagesOK == done => LET o == O IN
    (\E i \in 1..n : day[i] /\ ~off[i]) =>
    /\ \A k \in 2..Len(o) : o[k-1][2] < o[k][1] /\ \E i \in (o[k-1][2] + 1)..(o[k][1] - 1) : day[i] /\ ~off[i]
    /\ \A i \in 1..n : (hist[i] \in Dead) => \E k \in 1..Len(o) : i \in o[k][1]..o[k][2]
    /\ \A k \in 1..Len(o) : /\ \A i \in o[k][1]..o[k][2] : hist[i] \in Dead \cup Dark
                            /\ \E i \in o[k][1]..o[k][2] : hist[i] \in Dead
\* nights next to an outage belong to it
NightsBelong == done => LET o == O IN \A k \in 1..Len(o) :
    /\ o[k][1] > 1 => ~off[o[k][1] - 1]
    /\ o[k][2] < n => ~off[o[k][2] + 1]
\* partial outages are charged only when production is really missing
SubsystemOK == done => \A i \in 1..n :
    LET s == Sub(hist[i])
    IN SubLoss(<<NI(s[1]), NI(s[2])>>, <<s[1] > 0, s[2] > 0>>, <<One, One>>, NI(Pow(hist[i])), Inf)
       = {IF hist[i] = "half" THEN NI(2) ELSE Zero}
\* the accounts of every outage balance
Balance == done => LET o == O xe == TLCEval(Energies(X, One)) IN \A k \in 1..Len(o) :
    LET v == TLCEval(Outage(o[k], M, xe, NQ(-1, 10), NQ(1, 10)))
        R == o[k][1]..o[k][2]
        lost == Tab(o[k][2] - o[k][1] + 1, LAMBDA j : EnergyAt(Tab(n, LAMBDA i : IF i \in R THEN LostPower(o[k], X, xe, v.loss, i) ELSE Zero), o[k][1] + j - 1, One))
        fixed == Tab(o[k][2] - o[k][1] + 1, LAMBDA j : Corrected(o[k], xe, v.start, v.actual, o[k][1] + j - 1))
    IN v.kind \in {"real", "comms"} =>
        /\ NEq(SumV(lost), v.loss)
        /\ NEq(fixed[Len(fixed)], v.end)
        /\ \A j \in 2..Len(fixed) : fixed[j-1] \preceq fixed[j] \/ v.actual \prec Zero
        /\ v.start \preceq fixed[1] \/ v.actual \prec Zero
        /\ Zero \preceq v.loss
        /\ v.kind = "comms" => (\A i \in R : hist[i] # "out") \/ v.ci \preceq v.actual
\* on a regular record the interval energies are those of energy_from_power
SameEnergy == done /\ n > 1 => SubSeq(Energies(X, One), 2, n) = EnergyFromPower("right_labeled", [i \in 1..n |-> i], X, 1, One, 1)
=============================================================================
