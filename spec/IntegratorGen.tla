---------------------------- MODULE IntegratorGen ----------------------------
(* Scenarios for the real integrators: every case of one light estimate, and  *)
(* every scattering history of a path / every tree of mirrored and refracted  *)
(* rays up to a bound, with every bounce limit around it.                     *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS What, MaxLen, MaxDepth
VARIABLES what, steps, over
vars == <<what, steps, over>>
Est == [light : {"delta", "area", "env"}, dark : {"none", "L", "f", "pdf", "occ"}, bs : {"fine", "black", "zero", "unlit"},
        to : {"escape", "self", "other", "plain"}, spec : BOOLEAN]
Ends == {"black", "zero", "escape"}
Goes == {"plain", "emit"}
Step(to) == [spec : BOOLEAN, to : to]
End(x) == [k |-> x]
Kid0 == {End(x) : x \in {"none", "black", "zero", "escape"}}
Node(x, y) == [k |-> "node", r |-> x, t |-> y]
Leaf == Node(End("none"), End("none"))
Kid1 == Kid0 \cup {Leaf}
Node1 == {Node(x, y) : x, y \in Kid1}
Kid2 == {End("none"), End("escape"), Leaf} \cup {n \in Node1 : n.r = Leaf \/ n.t = Leaf}
Node2 == {Node(x, y) : x, y \in Kid2}
Init == /\ over = FALSE
        /\ \/ What = "est" /\ what = "est" /\ steps \in Est
           \/ What = "path" /\ what = "path" /\ steps = <<>>
           \/ What = "tree" /\ what = "tree" /\ steps \in (Node1 \cup {n \in Node2 : n.r = End("none") \/ n.t = End("escape") \/ n.r = n.t})
Extend == /\ what = "path" /\ ~over /\ Len(steps) < MaxLen
          /\ \/ \E s \in Step(Goes) : steps' = Append(steps, s) /\ over' = FALSE
             \/ \E s \in Step(Ends) : steps' = Append(steps, s) /\ over' = TRUE /\ \A d \in {0, Len(steps) + 1, Len(steps)} : PrintT(<<"SCEN", ToJson([what |-> "path", steps |-> Append(steps, s), maxd |-> d])>>)
          /\ UNCHANGED what
Stop == /\ what = "path" /\ ~over /\ over' = TRUE /\ UNCHANGED <<what, steps>>
        /\ PrintT(<<"SCEN", ToJson([what |-> "path", steps |-> steps, maxd |-> Len(steps)])>>)
Emit == /\ what # "path" /\ ~over /\ over' = TRUE /\ UNCHANGED <<what, steps>>
        /\ IF what = "est" THEN PrintT(<<"SCEN", ToJson(steps)>>)
           ELSE \A d \in 0..MaxDepth : PrintT(<<"SCEN", ToJson([what |-> "tree", root |-> steps, maxd |-> d])>>)
Next == Extend \/ Stop \/ Emit
Bounded == what = "path" => Len(steps) <= MaxLen
==============================================================================
