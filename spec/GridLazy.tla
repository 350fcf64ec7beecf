------------------------------ MODULE GridLazy ------------------------------
(* Lazy refinement of one grid cell under concurrent queries: a query reads  *)
(* the cell's "all intersectable" flag; if unset it takes the lock, refines  *)
(* every primitive that is not intersectable (a "bad" one fails the first    *)
(* time it is refined, and that query gives up), sets the flag and releases  *)
(* the lock; then it intersects every primitive.  TLC checks that no query   *)
(* meets an unrefined primitive, that every query ends and that the lock is  *)
(* free afterwards, whatever the schedule.  `sched` records who moved.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS N, P, MaxPreempt, GEN
Threads == 1..N
VARIABLES kind, ready, flag, lock, pc, at, fails, sched, last, pre
vars == <<kind, ready, flag, lock, pc, at, fails, sched, last, pre>>
view == <<kind, ready, flag, lock, pc, at, fails>>
Init == /\ kind \in [1..P -> {"leaf", "bag", "bag1", "bad"}]
        /\ ready = [p \in 1..P |-> kind[p] = "leaf"]
        /\ flag = FALSE /\ lock = 0
        /\ pc = [t \in Threads |-> "start"] /\ at = [t \in Threads |-> 1]
        /\ fails = {} /\ sched = <<>> /\ last = 0 /\ pre = 0
Enabled(t) == pc[t] \notin {"done", "gone"} /\ ~(pc[t] = "lock" /\ lock # 0)
Go(t, p) == pc' = [pc EXCEPT ![t] = p]
Move(t) ==
  CASE pc[t] = "start" -> Go(t, IF flag THEN "hit" ELSE "lock") /\ UNCHANGED <<ready, flag, lock, at, fails>>
    [] pc[t] = "lock" -> lock' = t /\ Go(t, "test") /\ UNCHANGED <<ready, flag, at, fails>>
    [] pc[t] = "test" -> IF at[t] > P THEN flag' = TRUE /\ Go(t, "free") /\ UNCHANGED <<ready, lock, at, fails>>
                         ELSE IF ready[at[t]] THEN at' = [at EXCEPT ![t] = @ + 1] /\ UNCHANGED <<ready, flag, lock, fails, pc>>
                         ELSE Go(t, "refine") /\ UNCHANGED <<ready, flag, lock, at, fails>>
    [] pc[t] = "refine" -> LET p == at[t] IN
                           IF kind[p] = "bad" /\ p \notin fails
                           THEN fails' = fails \cup {p} /\ Go(t, "drop") /\ UNCHANGED <<ready, flag, lock, at>>
                           ELSE ready' = [ready EXCEPT ![p] = TRUE] /\ at' = [at EXCEPT ![t] = p + 1] /\ Go(t, "test") /\ UNCHANGED <<flag, lock, fails>>
    [] pc[t] = "free" -> lock' = 0 /\ Go(t, "hit") /\ at' = [at EXCEPT ![t] = 1] /\ UNCHANGED <<ready, flag, fails>>
    [] pc[t] = "drop" -> lock' = 0 /\ Go(t, "gone") /\ UNCHANGED <<ready, flag, at, fails>>
    [] pc[t] = "hit" -> (IF at[t] > P THEN Go(t, "done") /\ UNCHANGED at
                         ELSE Assert(ready[at[t]], "unrefined primitive intersected") /\ at' = [at EXCEPT ![t] = @ + 1] /\ UNCHANGED pc)
                        /\ UNCHANGED <<ready, flag, lock, fails>>
Step(t) == /\ Enabled(t) /\ Move(t)
           /\ pre' = pre + (IF last # 0 /\ last # t /\ Enabled(last) THEN 1 ELSE 0)
           /\ (GEN => pre' <= MaxPreempt)
           /\ sched' = IF GEN THEN Append(sched, t) ELSE sched
           /\ last' = t /\ UNCHANGED kind
Next == \E t \in Threads : Step(t)
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : WF_vars(Step(t))
Over == \A t \in Threads : pc[t] \in {"done", "gone"}
LockFree == Over => lock = 0
NoDeadlock == Over \/ \E t \in Threads : Enabled(t)
Ends == <>Over
Emit == (GEN /\ Over) => PrintT(<<"SCEN", ToJson([kind |-> kind, sched |-> sched, n |-> N])>>)
=============================================================================
