------------------------------ MODULE MC_Cods ------------------------------
(***************************************************************************)
(* The fitting cycle for every order, every number of iterations and every *)
(* sequence of improvements; collapsing of detections on all short records.*)
(***************************************************************************)
EXTENDS Cods, Json
CONSTANTS MaxIt, N, Emit
Orders == {o \in UNION {[1..k -> {"SR", "SC", "Rd"}] : k \in 1..3} : (\E i \in DOMAIN o : o[i] = "SR") /\ \A i, j \in DOMAIN o : o[i] = o[j] => i = j}
VARIABLES order, max, mode, s, trail, flags
vars == <<order, max, mode, s, trail, flags>>
\* the detections on records of N days are folded into one extra state per record
Init == \/ /\ order \in Orders /\ max \in 1..MaxIt /\ mode \in {"free", "always", "never"} /\ s = FitInit /\ trail = <<>> /\ flags = <<>>
        \/ /\ order = <<>> /\ max = 0 /\ mode = "flags" /\ s = FitInit /\ trail = <<>> /\ flags \in [1..N -> {"T", "F"}]
SmallSet == IF mode = "always" THEN {TRUE} ELSE IF mode = "never" THEN {FALSE} ELSE {TRUE, FALSE}
Next == /\ mode # "flags" /\ s.stop = ""
        /\ \E b \in SmallSet :
             LET t == FitStep(s, Len(order), max, b)
             IN /\ s' = t /\ trail' = Append(trail, order[s.pos])
                /\ (t.stop = "" \/ ~Emit \/ mode = "free"
                    \/ PrintT(<<"CASE", ToJson([order |-> order, max |-> max, small |-> (mode = "always"), emit |-> (\E i \in 1..Len(trail') : trail'[i] = "SR"), trail |-> trail'])>>))
        /\ UNCHANGED <<order, max, mode, flags>>
Spec == Init /\ [][Next]_vars
n == Len(order)
\* every component is fitted once before any is fitted again, in the order given
FirstCycle == mode = "flags" \/ \A k \in 1..Len(trail) : k > n \/ s.since = 0 \/ k <= s.since => trail[k] = order[((k - 1) % n) + 1] \/ k > s.since
Bounded == mode = "flags" \/ Len(trail) <= max
\* no stop before a whole cycle without the assumption of perfect cleaning, unless the maximum is reached
Phases == mode = "flags" \/ s.stop = "" \/ s.it = max \/ (~s.perfect /\ s.it >= s.since + n)
\* after the change of phase the cycle restarts from the first component
Restart == mode = "flags" \/ (s.since > 0 => \A k \in 1..Len(trail) : k > s.since => trail[k] = order[((k - 1 - s.since) % n) + 1])
Relaxes == mode = "flags" \/ (s.stop # "" /\ max >= n => ~s.perfect)
\* collapsed detections: one event for each run at most, near a run
Metric == [i \in 1..N |-> NI((i * 7) % 11)]
Col == Collapse(flags, Metric, 2).ev
Runs == {i \in Flagged(flags) : i > 2 /\ i <= N - 2 /\ (i = 3 \/ flags[i-1] = "F")}
Collapsed == mode # "flags" \/ /\ Cardinality(Col) <= Cardinality(Runs)
                               /\ \A d \in Col : \E i \in Flagged(flags) : d >= i - 2 /\ d <= i + 2
                               /\ (\E i \in Flagged(flags) : i > 2 /\ i < N - 2 /\ (\E j \in i..(N - 2) : flags[j] = "F")) => Col # {}
=============================================================================
