------------------------------ MODULE TV_Frame ------------------------------
EXTENDS Frame, TraceBase
(* e.objs: names; e.start: fingerprints; steps: op, after (fingerprints of    *)
(* every object after the step), outcome (fingerprint of result or error);    *)
(* e.fresh: outcomes of the same entry on freshly built equal objects.        *)
Ok(name, b) == IF b THEN {} ELSE {name}
Changed(e, a, b) == {e.objs[j] : j \in {j \in 1..Len(e.objs) : a[j] # b[j]}}
RECURSIVE Walk(_, _, _, _)
Walk(e, now, memo, i) ==
    IF i > Len(e.steps) THEN {}
    ELSE LET o == e.steps[i] IN
         IF ~IsCall(o) THEN Walk(e, o.after, memo, i + 1)
         ELSE LET key == <<o.entry, now>>
                  bad == {"the call " \o o.entry \o " changed the caller's " \o x : x \in Changed(e, now, o.after)}
                         \cup Ok("the outcome of " \o o.entry \o " depends only on its arguments", Consistent(memo \cup {<<key, o.outcome>>}))
              IN IF bad # {} THEN bad ELSE Walk(e, now, memo \cup {<<key, o.outcome>>}, i + 1)
Verdict(e) == Walk(e, e.start, {<< <<e.fresh[j].entry, e.fresh[j].store>>, e.fresh[j].outcome>> : j \in 1..Len(e.fresh)}, 1)
=============================================================================
