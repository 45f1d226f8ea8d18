------------------------------- MODULE Frame -------------------------------
(* The caller's objects and the library's calls.                             *)
(* The store holds one version number per object of the caller.  A library   *)
(* call reads objects and hands out a result; only the caller changes the    *)
(* store.  What a call returns is a function of the entry point and of the   *)
(* versions it was given: nothing earlier in the history matters.            *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
IsCall(o) == o.op = "call"
\* store after one operation
Perform(store, o) == IF IsCall(o) THEN store
                     ELSE [store EXCEPT ![o.obj] = o.version]
\* key under which the outcome of a call is determined
Key(store, o) == <<o.entry, store>>
\* outcomes seen so far: set of <<key, outcome>>
Consistent(memo) == \A m, n \in memo : m[1] = n[1] => m[2] = n[2]
=============================================================================
