------------------------------- MODULE MC_Warn -------------------------------
(***************************************************************************)
(* A logger appends readings at varying distances; a user assembles a trend  *)
(* analysis option by option.  In every state the advice is consistent.    *)
(***************************************************************************)
EXTENDS Warn, Json
CONSTANTS MaxLen, Dists, Emit
VARIABLES T, opt, wf, done
vars == <<T, opt, wf, done>>
Masks == {"none", "match", "holes", "other", "both"}
None == [given |-> FALSE, holes |-> FALSE, t |-> <<>>]
Init == /\ T = <<0>> /\ wf \in {"log", "sensor", "clearsky"} /\ done = FALSE
        /\ opt = [gamma |-> FALSE, expected |-> FALSE, point |-> "none", period |-> "none"]
Log == /\ wf = "log" /\ ~done /\ Len(T) < MaxLen
       /\ \E d \in Dists : T' = Append(T, T[Len(T)] + d)
       /\ done' = (Len(T') = MaxLen) /\ UNCHANGED <<opt, wf>>
       /\ (Emit /\ done') => PrintT(<<"CASE", ToJson([kind |-> "log", t |-> T'])>>)
Choose == /\ wf # "log" /\ ~done /\ UNCHANGED <<T, wf>>
          /\ \/ \E g, x \in BOOLEAN, p, q \in Masks :
                   /\ opt' = [gamma |-> g, expected |-> x, point |-> p, period |-> q] /\ done' = TRUE
                   /\ Emit => PrintT(<<"CASE", ToJson([kind |-> "trend", wf |-> wf, opt |-> opt'])>>)
Next == Log \/ Choose
Spec == Init /\ [][Next]_vars
Ones1 == Tab(Len(T), LAMBDA i : NI(1))
Lims == {NI(1), NI(2), NI(3), NI(5)}
Thr == {NQ(0, 1), NQ(1, 10), NQ(1, 4), NQ(1, 2)}
Said(G, thr) == Bridging(T, Ones1, G, thr)
Even0 == Cardinality({T[i+1] - T[i] : i \in 1..(Len(T)-1)}) = 1
RegularQuiet == (Len(T) > 1 /\ Even0) => Sampling(T, TRUE) = (IF 20 * (Len(T) - 1) >= 19 * Len(T) THEN {} ELSE {"variable"})
                                        /\ Said(DefaultGap(T), NI(0)) = {}
Threshold == Len(T) > 1 => \A a, b \in Thr, G \in Lims : (a \preceq b /\ Said(G, b) # {}) => Said(G, a) # {}
Limit == Len(T) > 1 => \A a \in Thr, G, H \in Lims : (G \preceq H /\ Said(H, a) # {}) => Said(G, a) # {}
OneMajority == \A i, j \in 1..(Len(T)-1) : (Reaches(T, T[i+1] - T[i]) /\ Reaches(T, T[j+1] - T[j])) => T[i+1] - T[i] = T[j+1] - T[j]
ZoneOnly == Len(T) > 1 => Sampling(T, FALSE) = Sampling(T, TRUE) \cup {"local"}
\* at most half of the gaps are longer than the median one: nothing is said at one half
HalfQuiet == Len(T) > 1 => Said(DefaultGap(T), NQ(1, 2)) = {}
MaskOf(m) == [given |-> m # "none", holes |-> m \in {"holes", "both"}, t |-> IF m \in {"other", "both"} THEN <<1, 3>> ELSE <<1, 2>>]
Full(o) == [gamma |-> o.gamma, expected |-> o.expected, point |-> MaskOf(o.point), period |-> MaskOf(o.period)]
W(w, o) == Trend(w, Full(o), <<1, 2>>, <<1, 2>>)
Separate == wf = "log" \/ W(wf, opt) = W(wf, [opt EXCEPT !.point = "none", !.period = "none"])
                                     \cup W(wf, [opt EXCEPT !.gamma = TRUE, !.expected = FALSE, !.point = "none"])
                                     \cup W(wf, [opt EXCEPT !.gamma = TRUE, !.expected = FALSE, !.period = "none"])
CleanQuiet == wf = "log" \/ ((opt.gamma /\ ~opt.expected /\ opt.point \in {"none", "match"} /\ opt.period \in {"none", "match"}) => W(wf, opt) = {})
SensorLess == wf = "log" \/ W("sensor", opt) \subseteq W("clearsky", opt)
NotBoth == wf = "log" \/ ~({"temperature", "expected"} \subseteq W(wf, opt))
=============================================================================
