----------------------------- MODULE Represent -----------------------------
(* One content, many ways to write it down.                                  *)
(* A document is a time series as a caller holds it: ticks counted in some   *)
(* unit, with or without a declared frequency, named or not, in some number  *)
(* type and memory layout.  Its content is what it says: instants and        *)
(* values.  What a call returns is a function of the entry point and of the  *)
(* contents; the way of writing may only matter where the entry point        *)
(* demands something of it, and then only by a refusal.                      *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
Units == {"ns", "us", "ms", "s"}
\* nanoseconds per tick, as a power of a base (1000 in the world, small in the model)
Exponent(u) == CASE u = "ns" -> 0 [] u = "us" -> 1 [] u = "ms" -> 2 [] u = "s" -> 3
RECURSIVE Power(_, _)
Power(b, k) == IF k = 0 THEN 1 ELSE b * Power(b, k - 1)
\* the demands an entry point may make of its documents
Meets(demands, docs) ==
    /\ ("frequency" \in demands) => \A d \in docs : d.freq = "kept"
    /\ ("real numbers" \in demands) => \A d \in docs : d.type = "float"
    /\ ("one unit" \in demands) => \A d, c \in docs : d.unit = c.unit
=============================================================================
