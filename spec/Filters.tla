------------------------------- MODULE Filters -------------------------------
(* The reconstruction kernels as functions over the reals.                   *)
EXTENDS Integers, Sequences, TLC, Rat
Tri1(w, x) == RMax(0, w (-) RAbs(x))
Gau1(w, al, x) == RMax(0, RExp(RNeg(al (.) (x (.) x))) (-) RExp(RNeg(al (.) (w (.) w))))
\* Mitchell-Netravali piecewise cubic over [0, 2]
Mit(B, C, u) ==
  LET x == RAbs(u) x2 == x (.) x x3 == x2 (.) x IN
  IF x \succ 2 THEN "0" ELSE
  IF x \succ 1
  THEN (((((RNeg(B) (-) (6 (.) C)) (.) x3) (+) (((6 (.) B) (+) (30 (.) C)) (.) x2)) (+) ((((0 (-) 12) (.) B) (-) (48 (.) C)) (.) x)) (+) ((8 (.) B) (+) (24 (.) C))) (/) 6
  ELSE (((((12 (-) (9 (.) B)) (-) (6 (.) C)) (.) x3) (+) ((((0 (-) 18) (+) (12 (.) B)) (+) (6 (.) C)) (.) x2)) (+) (6 (-) (2 (.) B))) (/) 6
Sinc(x) == IF x \doteq 0 THEN "1" ELSE RSin(PI (.) x) (/) (PI (.) x)
Lan(tau, u) == LET x == RAbs(u) IN IF x \succ 1 THEN "0" ELSE Sinc(x (.) tau) (.) Sinc(x)
Kernel(r, w, x) ==
  CASE r.kind = "box" -> "1"
    [] r.kind = "triangle" -> Tri1(w, x)
    [] r.kind = "gaussian" -> Gau1(w, r.p[1], x)
    [] r.kind = "mitchell" -> Mit(r.p[1], r.p[2], (2 (.) x) (/) w)
    [] r.kind = "sinc" -> Lan(r.p[1], x (/) w)
Value(r, x, y) == Kernel(r, r.xw, x) (.) Kernel(r, r.yw, y)
Tol(r) == IF r.kind = "sinc" THEN "1e-8" ELSE "1e-10"
P30Fails(r) ==
  IF r.err # "" THEN {"filter-raised"} ELSE
  (IF Len(r.v) # Len(r.x) THEN {"one-value-per-element"} ELSE
   IF \E k \in 1..Len(r.x) : ~NearRel(r.v[k], Value(r, r.x[k], r.y[k]), Tol(r)) THEN {"kernel-value"} ELSE {})
  \cup (IF ~r.keep THEN {"input-left-alone"} ELSE {})
==============================================================================
