---------------------------- MODULE MC_SoilHist ----------------------------
(***************************************************************************)
(* Growing soiling histories: a history is extended interval by interval;  *)
(* an invalid stretch gets its level when the next valid interval's start  *)
(* is known.  Levels are in units of 1/Full.                               *)
(***************************************************************************)
EXTENDS SoilHist, Json
CONSTANTS Full, MaxIntervals, Loss, Methods, Emit
VARIABLES method, pat, hist, done
vars == <<method, pat, hist, done>>
Unset == -99
Lift == NI(9)
Init == method \in Methods /\ pat = <<>> /\ hist = <<>> /\ done = FALSE
Lv == {k \in 1..Len(pat) : pat[k] = "V"}
PrevEnd == IF Lv = {} THEN Full ELSE hist[IMax(Lv)][2]
\* levels at which the next valid interval may start
Starts == IF Lv = {} \/ method = "perfect_clean" THEN {Full}
          ELSE IF method = "random_clean" THEN PrevEnd..Full
          ELSE IF PrevEnd = Full THEN {Full} ELSE (-Loss)..Full
\* the pending invalid stretch (entries Unset at the end of hist) set to level l
Filled(l) == [k \in 1..Len(hist) |-> IF hist[k][1] = Unset THEN <<l, l>> ELSE hist[k]]
Pending == Len(hist) > 0 /\ hist[Len(hist)][1] = Unset
Rng(a, b) == IF a <= b THEN a..b ELSE b..a
Levels(s) == IF ~Pending THEN {0} ELSE IF method = "perfect_clean" THEN {Full} ELSE Rng(PrevEnd, s)
Valid1 == /\ ~done /\ Len(pat) < MaxIntervals
          /\ \E s \in Starts : \E m \in 0..Loss : \E l \in Levels(s) :
                /\ pat' = Append(pat, "V") /\ hist' = Append(Filled(l), <<s, s - m>>)
          /\ UNCHANGED <<method, done>>
Invalid1 == /\ ~done /\ Len(pat) < MaxIntervals
            /\ pat' = Append(pat, "I") /\ hist' = Append(hist, <<Unset, Unset>>) /\ UNCHANGED <<method, done>>
Finish == /\ ~done /\ Lv # {}
          /\ \E l \in Levels(Full) : hist' = Filled(l)
          /\ done' = TRUE /\ UNCHANGED <<method, pat>>
          /\ (Emit /\ method = "perfect_clean" /\ \A k \in Lv : hist[k][2] = Full) => PrintT(<<"CASE", ToJson([pat |-> pat])>>)
Next == Valid1 \/ Invalid1 \/ Finish
Spec == Init /\ [][Next]_vars
Table == Tab(Len(pat), LAMBDA k : IF pat[k] = "V" THEN [valid |-> TRUE, len |-> 1, low |-> NQ(-Loss, Full), high |-> Zero, start |-> NQ(1, 2), end |-> NQ(1, 2)]
                                 ELSE [valid |-> FALSE, len |-> 1, low |-> Zero, high |-> Zero, start |-> NQ(1, 2), end |-> NQ(1, 2)])
Hist == Tab(Len(pat), LAMBDA k : <<NQ(hist[k][1], Full), NQ(hist[k][2], Full)>>)
\* soundness: every history the process can produce is accepted
Accepted == done => HistoryOK(method, Table, Hist) = {}
\* soiling never creates performance
NeverAboveClean == \A k \in 1..Len(hist) : hist[k][1] <= Full /\ hist[k][2] <= Full
\* completeness on the margins: moving a start above clean, or a level out of its stretch, is refused
Refused == done => \A k \in 1..Len(pat) :
    /\ HistoryOK(method, Table, [Hist EXCEPT ![k] = <<@[1] \oplus Lift, @[2] \oplus Lift>>]) # {}
    /\ HistoryOK(method, Table, [Hist EXCEPT ![k] = <<@[1], @[2] \oplus Lift>>]) # {}
=============================================================================
