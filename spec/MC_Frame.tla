------------------------------ MODULE MC_Frame ------------------------------
(* Histories of calls of one or two entry points on shared objects, between  *)
(* which the caller may change an object and change it back.                 *)
EXTENDS Frame, Json
CONSTANTS Entries, Objs, Versions, Depth, Emit
VARIABLES store, edits, memo, hist
vars == <<store, edits, memo, hist>>
Zero == [o \in Objs |-> 0]
Calls == {[op |-> "call", entry |-> e] : e \in Entries}
Edits == {[op |-> "edit", obj |-> o, version |-> v] : o \in Objs, v \in Versions}
Init == store = Zero /\ edits = Zero /\ memo = {} /\ hist = <<>>
Step(o) == /\ Len(hist) < Depth
           /\ ~IsCall(o) => (store[o.obj] # o.version /\ Len(hist) > 0 /\ IsCall(hist[Len(hist)]))
           /\ store' = Perform(store, o)
           /\ edits' = IF IsCall(o) THEN edits ELSE [edits EXCEPT ![o.obj] = o.version]
           /\ memo' = IF IsCall(o) THEN memo \cup {<<Key(store, o), Key(store, o)>>} ELSE memo
           /\ hist' = Append(hist, o)
           /\ (Emit /\ Len(hist') = Depth /\ IsCall(o)) => PrintT(<<"CASE", ToJson([hist |-> hist'])>>)
Next == \E o \in Calls \cup Edits : Step(o)
Spec == Init /\ [][Next]_vars
\* the store is what the caller last made it
OnlyCallerWrites == store = edits
Functional == Consistent(memo)
CallsFrame == [][IsCall(hist'[Len(hist')]) => store' = store]_vars
=============================================================================
