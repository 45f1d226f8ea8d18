---------------------------- MODULE TV_Represent ----------------------------
EXTENDS Represent, TraceBase, Num
(* e.demands: what the entry point asks of its documents; e.runs: calls on    *)
(* documents of the same content; run.docs: for every document its unit, its *)
(* first and last ticks and the other marks of its representation;           *)
(* run.outcome: "ok" or "error", run.class: number of the class of alike     *)
(* outcomes (1 is that of the first run).                                    *)
Ok(name, b) == IF b THEN {} ELSE {name}
Instants(d) == [i \in 1..Len(d.ticks) |-> NP(d.ticks[i]) \otimes NP(ToString(Power(1000, Exponent(d.unit))))]
SameContent(a, b) == /\ Len(a.docs) = Len(b.docs)
                     /\ \A k \in 1..Len(a.docs) : Instants(a.docs[k]) = Instants(b.docs[k]) /\ a.docs[k].size = b.docs[k].size
Asked(e, r) == Meets({e.demands[j] : j \in 1..Len(e.demands)}, {r.docs[k] : k \in 1..Len(r.docs)})
Verdict(e) ==
    LET n == Len(e.runs)  first == e.runs[1]
    IN Ok("the documents have the same content", \A i \in 1..n : SameContent(first, e.runs[i]))
       \cup UNION {LET r == e.runs[i] IN
                   IF Asked(e, r) THEN Ok("the outcome of " \o e.entry \o " is the same however its data is written down", r.class = first.class)
                   ELSE Ok("the outcome of " \o e.entry \o " is the same or a refusal where its data does not meet its demands",
                           r.class = first.class \/ r.outcome = "error") : i \in 1..n}
=============================================================================
