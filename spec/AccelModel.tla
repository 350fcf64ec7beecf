----------------------------- MODULE AccelModel -----------------------------
(* Design of ray queries over an accelerator, for all small worlds.          *)
(* A primitive occupies an interval of ray parameters [lo, hi] (what its     *)
(* bounding box cuts out of the ray) and, when hittable, is hit at lo.       *)
(* A hierarchy is any binary tree over the primitives, built here by         *)
(* repeatedly splitting a group in two arbitrary non-empty parts (any split  *)
(* method is an instance).  A query visits groups from a stack in any child  *)
(* order, skips a group whose bounds miss the current [mint, maxt], and      *)
(* shrinks maxt at every hit.  TLC checks that every such query ends with    *)
(* the nearest hit and offers each primitive at most once.                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS N, T          \* primitives 1..N, parameters 0..T
Prims == 1..N
VARIABLES world,        \* prim -> [lo, hi, hit]
          mint, max0, maxt, todo, best, offered, phase
vars == <<world, mint, max0, maxt, todo, best, offered, phase>>

Ivals == {w \in [lo : 0..T, hi : 0..T, hit : BOOLEAN] : w.lo <= w.hi}
\* a primitive answers a ray with interval [a, b]: hit iff hittable with lo in it
Answers(p, a, b) == world[p].hit /\ a <= world[p].lo /\ world[p].lo <= b
Lo(g) == CHOOSE x \in {world[p].lo : p \in g} : \A p \in g : x <= world[p].lo
Hi(g) == CHOOSE x \in {world[p].hi : p \in g} : \A p \in g : x >= world[p].hi
Overlaps(g) == Lo(g) <= maxt /\ Hi(g) >= mint

Init == /\ world \in [Prims -> Ivals]
        /\ mint \in 0..1 /\ max0 \in {T - 1, T}
        /\ maxt = max0 /\ todo = <<Prims>> /\ best = 0 /\ offered = {} /\ phase = "run"

Top == todo[Len(todo)]
Rest == SubSeq(todo, 1, Len(todo) - 1)
Skip == /\ phase = "run" /\ todo # <<>> /\ ~Overlaps(Top)
        /\ todo' = Rest /\ UNCHANGED <<world, mint, max0, maxt, best, offered, phase>>
Split == /\ phase = "run" /\ todo # <<>> /\ Overlaps(Top) /\ Cardinality(Top) > 1
         /\ \E a \in SUBSET Top : /\ a # {} /\ a # Top
                                  /\ todo' = Rest \o <<Top \ a, a>>
         /\ UNCHANGED <<world, mint, max0, maxt, best, offered, phase>>
Offer == /\ phase = "run" /\ todo # <<>> /\ Overlaps(Top) /\ Cardinality(Top) = 1
         /\ LET p == CHOOSE p \in Top : TRUE
            IN /\ offered' = offered \cup {p}
               /\ IF Answers(p, mint, maxt) THEN maxt' = world[p].lo /\ best' = p ELSE UNCHANGED <<maxt, best>>
               /\ Assert(p \notin offered, "offered twice")
         /\ todo' = Rest /\ UNCHANGED <<world, mint, max0, phase>>
Done == /\ phase = "run" /\ todo = <<>> /\ phase' = "done"
        /\ UNCHANGED <<world, mint, max0, maxt, todo, best, offered>>
Next == Skip \/ Split \/ Offer \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Hits == {p \in Prims : Answers(p, mint, max0)}
Nearest == phase = "done" =>
   IF Hits = {} THEN best = 0 /\ maxt = max0
   ELSE /\ best \in Hits /\ maxt = world[best].lo
        /\ \A p \in Hits : world[best].lo <= world[p].lo
Terminates == <>(phase = "done")
=============================================================================
