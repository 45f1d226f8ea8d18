----------------------------- MODULE MC_Config ------------------------------
EXTENDS Config, Json
CONSTANTS Good, Bad, Values, Emit
VARIABLES cfg, err
vars == <<cfg, err>>
Keys == Good \cup Bad
Single == {<<<<k, v>>>> : k \in Keys, v \in Values}
Pairs == {<<<<k, v>>, <<l, w>>>> : k \in Keys, l \in Keys, v \in Values, w \in Values}
Many == {<<>>} \cup Single \cup {p \in Pairs : p[1][1] # p[2][1]}
Ops == {<<o, i>> : o \in {"set", "setdefault", "del", "pop", "discard"}, i \in Single}
       \cup {<<o, i>> : o \in {"update", "ior", "assign"}, i \in Many}
       \cup {<<o, <<>>>> : o \in {"assign_other", "popitem", "clear", "clone"}}
Init == cfg = {} /\ err = ""
Do(o) == LET r == Apply(Good, cfg, o[1], o[2])
         IN /\ cfg' \in r.cfg /\ err' = r.err
            /\ Emit => PrintT(<<"CASE", ToJson([cfg |-> cfg, op |-> o[1], items |-> o[2]])>>)
Next == \E o \in Ops : Do(o)
Spec == Init /\ [][Next]_vars
\* no name outside the documented set ever enters, one value per name
Documented == NamesOf(cfg) \subseteq Good /\ Cardinality(NamesOf(cfg)) = Cardinality(cfg)
\* a refused operation changes nothing
RefusedUnchanged == [][err' # "" => cfg' = cfg]_vars
=============================================================================
