---------------------------- MODULE RayTraceModel ----------------------------
(* Scenes for whole renderings.  Walk: scenes are put together object by      *)
(* object and light by light; every finished scene of the abstract alphabet   *)
(* is a scenario for the driver.  Laws: the reference of RayTrace, evaluated  *)
(* on small exact scenes, obeys the laws of light transport: lights add up,   *)
(* deeper recursion only adds light, a black object only takes light away,    *)
(* nothing outshines a constant sky, and the result is the same however the   *)
(* scene is listed.                                                           *)
EXTENDS RayTrace, Json
CONSTANTS MaxSlots, Depths, Integs, Emit
VARIABLES slots, lights, integ, maxd, done
vars == <<slots, lights, integ, maxd, done>>
Mats == {"none", "rough", "mirror", "glass", "black"}
Point == {"point", "distant", "spot"}
Init == slots = <<>> /\ lights = <<>> /\ integ \in Integs /\ maxd \in Depths /\ done = FALSE
\* the order of the objects after the ground does not matter
Rank(m) == CASE m = "none" -> 0 [] m = "rough" -> 1 [] m = "mirror" -> 2 [] m = "glass" -> 3 [] m = "black" -> 4
Sorted(s) == \A j \in 2..(Len(s) - 1) : Rank(s[j]) <= Rank(s[j + 1])
\* what the integrators leave to chance is left out
Fits(s, l) ==
  LET rough == \E k \in 1..Len(s) : s[k] = "rough"
      soft == \E k \in 1..Len(l) : l[k] \in {"sky", "area"}
  IN /\ ~(rough /\ soft)
     /\ (integ \in {"one", "path"} /\ rough => Len(l) < 2)
     /\ (integ = "path" => (rough => maxd = 1) /\ \A k \in 1..Len(s) : s[k] # "glass")
Place == /\ ~done /\ Len(slots) < MaxSlots /\ lights = <<>>
         /\ \E m \in Mats : slots' = Append(slots, m) /\ (m = "glass" => Len(slots) > 0) /\ Sorted(slots')
         /\ UNCHANGED <<lights, integ, maxd, done>>
Light == /\ ~done /\ Len(slots) > 1 /\ Len(lights) < 2
         /\ \E l \in Point \cup {"sky", "area"} : lights' = Append(lights, l) /\ Fits(slots, lights') /\ (l = "area" => lights = <<>>)
         /\ UNCHANGED <<slots, integ, maxd, done>>
Finish == /\ ~done /\ lights # <<>> /\ Fits(slots, lights)
          /\ (\E k \in 1..Len(lights) : lights[k] \in Point) => (\E k \in 1..Len(slots) : slots[k] = "rough")
          /\ (\E k \in 1..Len(slots) : slots[k] \in {"rough", "mirror", "glass"})
          /\ done' = TRUE /\ UNCHANGED <<slots, lights, integ, maxd>>
          /\ (Emit => PrintT(<<"SCEN", ToJson([slots |-> slots, lights |-> lights, integ |-> integ, maxd |-> maxd])>>))
Next == Place \/ Light \/ Finish
Spec == Init /\ [][Next]_vars

\* ---- the laws, on exact scenes ----
Tx(a) == [a |-> a, b |-> [k \in DOMAIN a |-> "0"], c |-> [k \in DOMAIN a |-> "0"]]
NoBump == [k |-> "none"]
MatOf(k) == CASE k = "rough" -> [k |-> "matte", kd |-> Tx(<<"1/2", "1/4", "3/4">>), sigma |-> Tx(<<"0">>), bump |-> NoBump]
              [] k = "black" -> [k |-> "matte", kd |-> Tx(Zero3), sigma |-> Tx(<<"0">>), bump |-> NoBump]
              [] k = "mirror" -> [k |-> "mirror", kr |-> Tx(<<"3/4", "1", "1/2">>), bump |-> NoBump]
              [] k = "glass" -> [k |-> "glass", kr |-> Tx(One3), kt |-> Tx(One3), eta |-> Tx(<<"3/2">>), bump |-> NoBump]
Base(k, at) == [m |-> Translate(at), mi |-> Translate(VNeg(at)), moves |-> FALSE, mv |-> <<>>, ro |-> FALSE, mat |-> MatOf(k), emit |-> 0, vary |-> FALSE]
Ground(k) == [kind |-> "disk", rad |-> "8", z0 |-> "0", z1 |-> "0", ri |-> "0", pm |-> "360"] @@ Base(k, <<"0", "0", "-1">>)
Ball(k, at) == [kind |-> "sphere", rad |-> "3/4", z0 |-> "-3/4", z1 |-> "3/4", ri |-> "0", pm |-> "360"] @@ Base(k, at)
Spots == <<<<"-9/10", "1/5", "0">>, <<"1", "-3/10", "1/10">>, <<"1/10", "9/5", "1/5">>>>
ObjOf(s, k) == IF k = 1 THEN Ground(s[1]) ELSE Ball(s[k], Spots[k - 1])
Objects(s) == LET K == SelectSeq([k \in 1..Len(s) |-> k], LAMBDA k : s[k] # "none") IN [j \in 1..Len(K) |-> ObjOf(s, K[j])]
LightOf(l) == CASE l = "point" -> [kind |-> "point", c |-> <<"8", "12", "10">>, m |-> Translate(<<"1", "-2", "4">>), mi |-> Translate(<<"-1", "2", "-4">>)]
                [] l = "distant" -> [kind |-> "distant", c |-> <<"1", "1/2", "2">>, m |-> Id4, mi |-> Id4, di |-> <<"1/4", "-1/2", "1">>]
                [] l = "spot" -> [kind |-> "point", c |-> <<"3", "9", "4">>, m |-> Translate(<<"-2", "-1", "3">>), mi |-> Translate(<<"2", "1", "-3">>)]
                [] OTHER -> [kind |-> "sky", c |-> <<"1/2", "1", "3/4">>]
World(s, l, d) == [shapes |-> Objects(s), lights |-> [k \in 1..Len(l) |-> LightOf(l[k])], integ |-> "whitted", maxd |-> d]
Eye == <<"3/10", "-7", "3/2">>
Aims == {<<"0", "0", "-3/10">>, <<"-4/5", "1/10", "3/10">>, <<"17/10", "1", "-1">>}
Look(w, t) == Trace(w, Placed(w, "0"), [o |-> Eye, d |-> RV(Unit(VSub(t, Eye))), lo |-> "0", band |-> "1e-3"], 0)
Same(a, b) == ~a.ok \/ ~b.ok \/ VNear(a.L, b.L, "1e-12")
Under(a, b) == ~a.ok \/ ~b.ok \/ \A k \in 1..3 : a.L[k] \preceq (b.L[k] (+) "1e-12")
Laws ==
  done /\ integ = "whitted" =>
    \A t \in Aims :
      LET w == World(slots, lights, maxd)
          v == Look(w, t)
      IN /\ Len(lights) = 2 => LET a == Look(World(slots, <<lights[1]>>, maxd), t) b == Look(World(slots, <<lights[2]>>, maxd), t)
                               IN ~a.ok \/ ~b.ok \/ ~v.ok \/ VNear(v.L, VAdd(a.L, b.L), "1e-12")
         /\ Under(v, Look([w EXCEPT !.maxd = @ + 1], t))
         /\ \A k \in 1..Len(w.shapes) : Under(Look([w EXCEPT !.shapes[k].mat = MatOf("black")], t), v)
         /\ Same(v, Look([w EXCEPT !.shapes = [k \in 1..Len(w.shapes) |-> w.shapes[Len(w.shapes) + 1 - k]]], t))
         /\ (\A k \in 1..Len(lights) : lights[k] = "sky") /\ Len(lights) = 1 => \A c \in 1..3 : v.ok => v.L[c] \preceq (w.lights[1].c[c] (+) "1e-12")
         /\ \A c \in 1..3 : v.L[c] \succeq 0
=============================================================================
