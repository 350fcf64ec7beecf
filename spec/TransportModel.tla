---------------------------- MODULE TransportModel ----------------------------
(* The specification itself.  MIS: for every pair of densities over a small   *)
(* set of directions the two weighted parts add up to the light arriving.     *)
(* Path: in every small world the transport the path estimate adds up is the  *)
(* emission over all walks from the eye, each walk once, within the bounce    *)
(* limit (a last non-specular step to a lamp is part of direct lighting).     *)
EXTENDS Integrator
CONSTANTS Grid, MaxD
VARIABLES what, pl, pb, w, d
vars == <<what, pl, pb, w, d>>
D3 == 1..3
\* densities over three directions of equal measure
Dens == {f \in [D3 -> Grid] : RSum(f) \doteq 1}
\* a surface: emission, and one specular and one other way on, each with a factor and a target (0: the sky)
Surface == [em : {0, 1}, sf : {0, 2}, st : 0..2, of : {0, 3}, ot : 0..2]
Init == \/ what = "mis" /\ pl \in Dens /\ pb \in Dens /\ w = <<>> /\ d = 0
        \/ what = "path" /\ pl = <<>> /\ pb = <<>> /\ w \in Surface \X Surface /\ d \in 0..MaxD
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
\* ---- MIS ----
World(x, y, g) ==
  [lights |-> <<[delta |-> FALSE]>>,
   vs |-> <<[n |-> <<"0", "0", "1">>,
             ls |-> <<[wi |-> <<"0", "0", "1">>, L |-> <<g, g, g>>, pdf |-> x, occ |-> FALSE, tr |-> One3, f |-> One3, bpdf |-> y]>>,
             nb |-> <<[wi |-> <<"0", "0", "1">>, f |-> One3, pdf |-> y, spec |-> FALSE, to |-> 0, tr |-> One3, esc |-> <<<<g, g, g>>>>, lp |-> <<x>>]>>]>>]
Arrive(k) == k   \* light arriving from direction k, where the light can be sampled at all
Mis == what # "mis" \/
  LET part(k) == LET r == World(pl[k], pb[k], Arrive(k))
                 IN ((pl[k] (.) LightPart(r, r.vs[1], 1, TRUE)[1]) (+) (pb[k] (.) SurfPart(r, r.vs[1], r.vs[1].nb[1], 1)[1]))
  IN Near(RSum([k \in D3 |-> part(k)]), RSum([k \in D3 |-> IF pl[k] \doteq 0 THEN 0 ELSE Arrive(k)]), "1e-30")
\* ---- paths: integers, one colour, every way on taken with certainty ----
Sky == 1
E(v) == IF v = 0 THEN Sky ELSE w[v].em
RECURSIVE Est1(_, _, _)
Est1(v, k, lit) ==
  (IF lit THEN E(v) ELSE 0) +
  (IF v = 0 THEN 0 ELSE w[v].of * E(w[v].ot) +   \* direct lighting: all lamps through the non-specular part, the sky among them
     (IF k = d THEN 0 ELSE w[v].sf * Est1(w[v].st, k + 1, TRUE) + w[v].of * Est1(w[v].ot, k + 1, FALSE)))
\* all walks of m steps: sequences of "s" / "o"
RECURSIVE At(_, _, _)
At(v, x, j) == IF v = 0 \/ j > Len(x) THEN v ELSE At(IF x[j] = "s" THEN w[v].st ELSE w[v].ot, x, j + 1)
RECURSIVE Fac(_, _, _)
Fac(v, x, j) == IF j > Len(x) THEN 1 ELSE IF v = 0 THEN 0 ELSE (IF x[j] = "s" THEN w[v].sf ELSE w[v].of) * Fac(IF x[j] = "s" THEN w[v].st ELSE w[v].ot, x, j + 1)
RECURSIVE ISum(_)
ISum(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN Fac(1, x, 1) * E(At(1, x, 1)) + ISum(S \ {x})
Walks == UNION {[1..m -> {"s", "o"}] : m \in 0..d} \cup {x \in [1..(d + 1) -> {"s", "o"}] : x[d + 1] = "o"}
PathOnce == what # "path" \/ Est1(1, 0, TRUE) = ISum(Walks)
==============================================================================
