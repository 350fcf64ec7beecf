------------------------------ MODULE FilmSched ------------------------------
(* Every interleaving of the recorded programs of concurrent film updates.   *)
(* An event is <<"acq", lock>>, <<"rel", lock>>, <<"r", cell>> or <<"w",     *)
(* cell>>; a write stores what its thread last read from the cell plus its   *)
(* own contribution, so a cell's value is the set of contributions it holds. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES k, pc, held, val, reg
vars == <<k, pc, held, val, reg>>
Prog(t) == Trace[k].progs[t]
Threads(n) == 1..Len(Trace[n].progs)
RECURSIVE SetOf(_, _)
SetOf(p, kind) == {p[j][2] : j \in {j \in 1..Len(p) : p[j][1] \in kind}}
Cells(n) == UNION {SetOf(Trace[n].progs[t], {"r", "w"}) : t \in Threads(n)}
Locks(n) == UNION {SetOf(Trace[n].progs[t], {"acq", "rel"}) : t \in Threads(n)}
Writers(n, c) == {t \in Threads(n) : c \in SetOf(Trace[n].progs[t], {"w"})}
\* the guarantee is conditional: narrow filters rely on threads owning disjoint pixels; splats are always synchronised
Promised(n) == Trace[n].wide \/ \A c \in Cells(n) : Cardinality(Writers(n, c)) <= 1
Init == /\ k \in {n \in 1..Len(Trace) : Promised(n)}
        /\ pc = [t \in Threads(k) |-> 1]
        /\ held = [l \in Locks(k) |-> 0]
        /\ val = [c \in Cells(k) |-> {}]
        /\ reg = [t \in Threads(k) |-> [c \in Cells(k) |-> {}]]
Ready(t) == pc[t] <= Len(Prog(t))
CanStep(t) == Ready(t) /\ LET e == Prog(t)[pc[t]] IN e[1] = "acq" => held[e[2]] = 0
Step(t) ==
  /\ CanStep(t)
  /\ LET e == Prog(t)[pc[t]] IN
     CASE e[1] = "acq" -> held' = [held EXCEPT ![e[2]] = t] /\ UNCHANGED <<val, reg>>
       [] e[1] = "rel" -> held' = [held EXCEPT ![e[2]] = 0] /\ UNCHANGED <<val, reg>>
       [] e[1] = "r" -> reg' = [reg EXCEPT ![t][e[2]] = val[e[2]]] /\ UNCHANGED <<held, val>>
       [] e[1] = "w" -> LET s == reg[t][e[2]] \cup {<<t, pc[t]>>}
                        IN val' = [val EXCEPT ![e[2]] = s] /\ reg' = [reg EXCEPT ![t][e[2]] = s] /\ UNCHANGED held
  /\ pc' = [pc EXCEPT ![t] = @ + 1]
  /\ UNCHANGED k
Next == \E t \in DOMAIN pc : Step(t)
Finished == \A t \in DOMAIN pc : ~Ready(t)
Stuck == ~Finished /\ ~\E t \in DOMAIN pc : CanStep(t)
All(c) == {<<t, j>> \in (DOMAIN pc) \X (1..100) : j <= Len(Prog(t)) /\ Prog(t)[j] = <<"w", c>>}
Bad == (IF Trace[k].err # "" THEN {"update-raised"} ELSE {})
       \cup (IF Stuck THEN {"threads-block-forever"} ELSE {})
       \cup (IF Finished /\ \E c \in Cells(k) : val[c] # All(c) THEN {"update-lost"} ELSE {})
       \cup (IF Finished /\ \E l \in Locks(k) : held[l] # 0 THEN {"lock-left-held"} ELSE {})
Report == (Finished \/ Stuck) => (Bad = {} /\ PrintT(<<"DONE", k>>)) \/ PrintT(<<"FAIL", k, Bad>>)
==============================================================================
