------------------------------- MODULE Judge -------------------------------
(* Conformance of recorded observations to a specification.  Trace is the    *)
(* sequence of records the drivers wrote while exercising the real code; the *)
(* instantiating module supplies Fails(r), the set of names of the clauses   *)
(* of the specification that record r breaks ({} when it conforms).  Every   *)
(* record is one state, so TLC spreads them over its workers, and the number *)
(* of distinct states tells the driver that every record was judged.         *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
CONSTANTS Fails(_), Lanes
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
JInit == i \in (1 - Lanes)..0
JNext == /\ i + Lanes <= Len(Trace)
         /\ i' = i + Lanes
         /\ LET f == Fails(Trace[i'])
            IN f = {} \/ PrintT(<<"FAIL", i', f>>)
=============================================================================
