----------------------------- MODULE RefineModel -----------------------------
(* Full refinement as a work list over a tree of primitives.  Node 1 is the  *)
(* primitive asked; parent[k] < k; can[k]: the node can be intersected (then *)
(* it is taken as it is, whatever it would refine to).                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS N, Emit
VARIABLES n, parent, can, todo, out
vars == <<n, parent, can, todo, out>>
Nodes == 1..n
Children(k) == {j \in Nodes : j > 1 /\ parent[j] = k}
\* reached: no proper ancestor can be intersected
RECURSIVE Reached(_)
Reached(k) == k = 1 \/ (~can[parent[k]] /\ Reached(parent[k]))
Leaves == {k \in Nodes : can[k] /\ Reached(k)}
RECURSIVE SortSeq2(_)
SortSeq2(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : \A y \in S : x <= y IN <<x>> \o SortSeq2(S \ {x})
Init == /\ n \in 1..N
        /\ parent \in [1..N -> 0..N-1]
        /\ parent[1] = 0
        /\ \A k \in 2..N : IF k <= n THEN parent[k] \in 1..(k-1) ELSE parent[k] = 0
        /\ can \in [1..N -> BOOLEAN]
        /\ \A k \in 1..N : k > n => ~can[k]
        /\ todo = <<1>> /\ out = <<>>
Step == /\ todo # <<>>
        /\ LET k == todo[Len(todo)]
               rest == SubSeq(todo, 1, Len(todo) - 1)
           IN IF can[k] THEN todo' = rest /\ out' = Append(out, k)
              ELSE todo' = rest \o SortSeq2(Children(k)) /\ out' = out
        /\ UNCHANGED <<n, parent, can>>
Done == /\ todo = <<>> /\ Emit
        /\ PrintT(<<"SCEN", ToJson([n |-> n, parent |-> [k \in 1..n |-> parent[k]], can |-> [k \in 1..n |-> can[k]]])>>)
        /\ UNCHANGED vars
Next == Step \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Step)
Range(s) == {s[k] : k \in 1..Len(s)}
NoneTwice == \A j, k \in 1..Len(out) : j # k => out[j] # out[k]
OnlyLeaves == Range(out) \subseteq Leaves
AllAtEnd == todo = <<>> => Range(out) = Leaves
Terminates == <>(todo = <<>>)
=============================================================================
