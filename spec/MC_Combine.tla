----------------------------- MODULE MC_Combine -----------------------------
(* Filters applied one after the other in any order. *)
EXTENDS Config, Json
CONSTANTS Times, Names, Emit
VARIABLES workflow, masks, todo, kept
vars == <<workflow, masks, todo, kept>>
Vals(n) == IF n = "ad_hoc_filter" THEN {"T", "F", "U", "-"} ELSE {"T", "F", "U"}
Mask(m) == {<<t, m[t]>> : t \in {u \in Times : m[u] # "-"}}
Init == /\ workflow \in {"sensor", "clearsky"}
        /\ todo \in SUBSET Names
        /\ masks \in [Names -> [Times -> {"T", "F", "U", "-"}]]
        /\ \A n \in Names : \A t \in Times : masks[n][t] \in Vals(n) /\ (n \notin todo => masks[n][t] = "T")
        /\ kept = Times
Force == {n \in Names : n \in todo /\ InForce(workflow, n)}
\* the time-invariant specification (todo0: what was configured)
VARIABLE todo0
InitAll == Init /\ todo0 = todo
Step == \E n \in todo :
           /\ todo' = todo \ {n}
           /\ kept' = IF InForce(workflow, n) THEN {t \in kept : Keeps(n, Mask(masks[n]), t)} ELSE kept
           /\ UNCHANGED <<workflow, masks, todo0>>
           /\ (Emit /\ todo = todo0 /\ n = CHOOSE x \in todo : TRUE) =>
                 PrintT(<<"CASE", ToJson([workflow |-> workflow, conf |-> todo, masks |-> masks])>>)
Spec == InitAll /\ [][Step]_<<vars, todo0>>
InUse == {<<n, Mask(masks[n])>> : n \in {m \in todo0 : InForce(workflow, m)}}
\* a point survives exactly when every configured filter in force keeps it, whatever the order
AllAgree == todo = {} => kept = {t \in Times : Combined(Times, InUse, t)}
\* filters only remove
Shrinks == [][kept' \subseteq kept]_<<vars, todo0>>
\* a filter not in force has no say
NoSay == (todo = {} /\ \A n \in todo0 : ~InForce(workflow, n)) => kept = Times
=============================================================================
