----------------------------- MODULE MC_Rescale -----------------------------
EXTENDS Rescale, Json
CONSTANTS Points, Models, Ratios, MaxIter, Emit
\* measured = modelled x ratio/10
VARIABLES sim, rat, sel, iter, phase
vars == <<sim, rat, sel, iter, phase>>
s == Numbers(sim)
a == Tab(Points, LAMBDA i : NQ(sim[i] * rat[i], 10))
Init == /\ sim \in [1..Points -> Models] /\ rat \in [1..Points -> Ratios]
        /\ sel = {} /\ iter = 0 /\ phase = "guess"
Factor == IF phase = "guess" \/ sel = {} THEN Guess(a, s) ELSE LS(a, s, sel)
\* once no point is clear the factor cannot move any more: kept as the last nonempty set
Iterate == /\ phase \in {"guess", "run"}
           /\ IF iter = MaxIter THEN phase' = "raised" /\ UNCHANGED <<sim, rat, sel, iter>>
              ELSE LET S == TLCEval(Clear(a, s, Factor))
                       T == IF S = {} THEN sel ELSE S
                       g == IF T = {} THEN Factor ELSE LS(a, s, T)
                   IN /\ sel' = T /\ iter' = iter + 1
                      /\ phase' = IF g = Factor THEN "done" ELSE "run"
                      /\ UNCHANGED <<sim, rat>>
EmitCase == (Emit /\ iter = 0) => PrintT(<<"CASE", ToJson([sim |-> sim, rat |-> rat])>>)
Next == Iterate /\ EmitCase
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* a returned factor is the least-squares factor of its own clear set
SelfConsistent == phase = "done" => LET S == Clear(a, s, Factor) IN S = {} \/ LS(a, s, S) = Factor
\* a scaled copy is recovered
Recovered == (phase = "done" /\ \A i \in 1..Points : rat[i] = rat[1]) => Factor = NQ(rat[1], 10)
\* the least-squares factor lies between the ratios of its points
Between == (sel # {} /\ phase # "guess") => \E i, j \in sel : Ratio(a, s, i) \preceq Factor /\ Factor \preceq Ratio(a, s, j)
\* the call always ends, with a result or with the convergence error
Ends == <>(phase \in {"done", "raised"})
=============================================================================
