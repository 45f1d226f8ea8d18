------------------------------ MODULE TraceBase ------------------------------
(***************************************************************************)
(* Trace validation.  The trace (one JSON record per observed call of the  *)
(* implementation) is split round-robin over several readers; each step of a     *)
(* reader consumes one record and asks Judge for the set of clauses of the *)
(* specification the record violates.  Every verdict is total: a record is *)
(* accepted (empty set) or rejected with the names of the failing clauses. *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
CONSTANTS Judge(_)
Trace == ndJsonDeserialize(IOEnv.RDV_TRACE)
TraceLen == Len(Trace)
Readers == IF TraceLen < 16 THEN TraceLen ELSE 16
VARIABLES reader, consumed
tvars == <<reader, consumed>>
Mine(k) == (TraceLen + Readers - k) \div Readers                     \* number of records of reader k
TInit == reader \in 1..Readers /\ consumed = 0
TNext == /\ consumed < Mine(reader)
         /\ consumed' = consumed + 1
         /\ reader' = reader
         /\ LET i   == reader + Readers * consumed
                bad == TLCEval(Judge(Trace[i]))
            IN bad = {} \/ PrintT(<<"BAD", i, ToJson(bad)>>)
TSpec == TInit /\ [][TNext]_tvars
\* all records were consumed
TConsumed == TLCGet("stats").distinct = TraceLen + Readers
==============================================================================
