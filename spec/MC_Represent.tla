---------------------------- MODULE MC_Represent ----------------------------
(* Two documents of one caller are rewritten step by step: unit, declared    *)
(* frequency, name, number type, layout; so is the environment (the label of *)
(* the zone, the machine's clock, the copy mode of the table library).       *)
(* Calls may happen at any point.  The contents never change, so an entry    *)
(* point that makes no demands always gives the same outcome.                *)
EXTENDS Represent, Json
CONSTANTS Base, Depth, Emit
VARIABLES docs, env, steps, memo
vars == <<docs, env, steps, memo>>
\* instants are multiples of every unit; values whole
Instant == <<Power(Base, 3) * 2, Power(Base, 3) * 5>>
Types == {"float", "int64", "int32"}
Layouts == {"own", "column", "readonly"}
Stored(u) == [i \in 1..Len(Instant) |-> Instant[i] \div Power(Base, Exponent(u))]
Doc0 == [ticks |-> Instant, unit |-> "ns", freq |-> "kept", named |-> 0, type |-> "float", layout |-> "own"]
Env0 == [zone |-> 0, clock |-> "UTC", cow |-> FALSE]
Content(d) == [i \in 1..Len(d.ticks) |-> d.ticks[i] * Power(Base, Exponent(d.unit))]
Demands == {{}, {"frequency"}, {"real numbers"}, {"one unit"}}
\* an entry point: refuses when its demands are not met, else a function of the contents
Outcome(dm, ds) == IF Meets(dm, {ds[1], ds[2]}) THEN <<"ok", Content(ds[1]), Content(ds[2])>> ELSE <<"refused">>
Init == docs = <<Doc0, Doc0>> /\ env = Env0 /\ steps = 0 /\ memo = {}
Rewrite(k, d) == docs' = [docs EXCEPT ![k] = d] /\ env' = env /\ memo' = memo
Rewrites(d) == {[d EXCEPT !.unit = u, !.ticks = Stored(u)] : u \in Units \ {d.unit}}
               \cup {[d EXCEPT !.freq = f] : f \in {"kept", "dropped"} \ {d.freq}}
               \cup {[d EXCEPT !.named = n] : n \in {0, 1, 2} \ {d.named}}
               \cup {[d EXCEPT !.type = t] : t \in Types \ {d.type}}
               \cup {[d EXCEPT !.layout = l] : l \in Layouts \ {d.layout}}
Environments == {[env EXCEPT !.zone = 1 - env.zone], [env EXCEPT !.clock = IF env.clock = "UTC" THEN "Asia/Kolkata" ELSE "UTC"], [env EXCEPT !.cow = ~env.cow]}
Call == memo' = memo \cup {<<dm, Outcome(dm, docs)>> : dm \in Demands} /\ memo' # memo /\ UNCHANGED <<docs, env, steps>>
Next == \/ Call
        \/ /\ steps < Depth /\ steps' = steps + 1 /\ memo' = memo
           /\ \/ \E k \in 1..2 : \E d \in Rewrites(docs[k]) : Rewrite(k, d)
              \/ env' \in Environments /\ docs' = docs
           /\ Emit => PrintT(<<"CASE", ToJson([docs |-> docs', env |-> env'])>>)
Spec == Init /\ [][Next]_vars
ContentKept == \A k \in 1..2 : Content(docs[k]) = Instant
OneOutcome == \A m, n \in memo : m[1] = n[1] => (m[2] = n[2] \/ m[2] = <<"refused">> \/ n[2] = <<"refused">>)
NoDemandsNoRefusal == \A m \in memo : m[1] = {} => m[2] # <<"refused">>
=============================================================================
