---------------------------- MODULE VolumeModel ----------------------------
(* The specification itself: every phase function integrates to one over the  *)
(* sphere of directions, and on small lattices a point of a ray lies in the   *)
(* extent exactly when its parameter lies in the specified interval.          *)
EXTENDS Volume
CONSTANTS Names, Gs, N
Coord == {-1, 0, 1, 3}
Dir == {-1, 0, 1, 2}
VARIABLES what, name, g, o, d
vars == <<what, name, g, o, d>>
Vecs(S) == {<<x, y, z>> : x \in S, y \in S, z \in {0, 1}}
Init == \/ what = "phase" /\ name \in Names /\ g \in Gs /\ o = Zero3 /\ d = Zero3
        \/ what = "ray" /\ name = "" /\ g = 0 /\ o \in Vecs(Coord) /\ d \in Vecs(Dir) \ {<<0, 0, 0>>}
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
C(k) == ((2 (.) k) (/) N) (-) 1
W(k) == IF k = 0 \/ k = N THEN 1 ELSE IF k % 2 = 1 THEN 4 ELSE 2
RECURSIVE Simpson(_)
Simpson(k) == LET t == W(k) (.) Phase(name, C(k), g) IN IF k = 0 THEN t ELSE Simpson(k - 1) (+) RRound(t, 120)
Normalised == what # "phase" \/ Near(((2 (.) PI) (.) Simpson(N)) (.) (2 (/) (3 * N)), 1, "1e-3")
Box == [lo |-> <<"0", "0", "0">>, hi |-> <<"2", "1", "3">>, mi |-> Id4]
Q == [o |-> o, d |-> d, mint |-> "0", maxt |-> "5/2"]
Agrees == what # "ray" \/ \A k \in 0..11 : LET t == (k (/) 4) v == Over(Box, Q)
             IN (t \preceq "5/2" /\ Inside(Box, VAdd(o, VMul(t, d)))) <=> (v.lo \preceq t /\ t \preceq v.hi)
=============================================================================
