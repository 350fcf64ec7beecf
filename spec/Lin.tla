--------------------------------- MODULE Lin ---------------------------------
(* Three-vectors, 4x4 matrices and boxes over exact rationals.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Rat
V(x, y, z) == <<x, y, z>>
VAdd(a, b) == <<a[1] (+) b[1], a[2] (+) b[2], a[3] (+) b[3]>>
VSub(a, b) == <<a[1] (-) b[1], a[2] (-) b[2], a[3] (-) b[3]>>
VMul(s, a) == <<s (.) a[1], s (.) a[2], s (.) a[3]>>
VNeg(a) == <<RNeg(a[1]), RNeg(a[2]), RNeg(a[3])>>
Dot(a, b) == ((a[1] (.) b[1]) (+) (a[2] (.) b[2])) (+) (a[3] (.) b[3])
Cross(a, b) == <<(a[2] (.) b[3]) (-) (a[3] (.) b[2]), (a[3] (.) b[1]) (-) (a[1] (.) b[3]), (a[1] (.) b[2]) (-) (a[2] (.) b[1])>>
Len2(a) == Dot(a, a)
Length(a) == RSqrt(Len2(a))
Unit(a) == LET l == Length(a) IN IF l \doteq 0 THEN a ELSE <<RRound(a[1] (/) l, 200), RRound(a[2] (/) l, 200), RRound(a[3] (/) l, 200)>>
MaxAbs3(a) == RMax(RAbs(a[1]), RMax(RAbs(a[2]), RAbs(a[3])))
VNear(a, b, tol) == \A k \in 1..3 : Near(a[k], b[k], tol)
VNearRel(a, b, tol) == VNear(a, b, tol (.) RMax(1, MaxAbs3(b)))
VEq(a, b) == \A k \in 1..3 : a[k] \doteq b[k]
Parallel(a, b, tol) == VNear(Cross(Unit(a), Unit(b)), <<"0", "0", "0">>, tol)
IsUnit(a, tol) == Near(Len2(a), 1, tol)
Zero3 == <<"0", "0", "0">>

Row(m, i) == m[i]
DotRow(x, b, j) == RRound(((x[1] (.) b[1][j]) (+) (x[2] (.) b[2][j])) (+) ((x[3] (.) b[3][j]) (+) (x[4] (.) b[4][j])), 240)
MRow(x, b) == <<DotRow(x, b, 1), DotRow(x, b, 2), DotRow(x, b, 3), DotRow(x, b, 4)>>
MMul(a, b) == <<MRow(a[1], b), MRow(a[2], b), MRow(a[3], b), MRow(a[4], b)>>
Id4 == [i \in 1..4 |-> [j \in 1..4 |-> IF i = j THEN "1" ELSE "0"]]
MT(m) == [i \in 1..4 |-> [j \in 1..4 |-> m[j][i]]]
RECURSIVE SetMax(_)
SetMax(S) == LET x == CHOOSE x \in S : TRUE IN IF S = {x} THEN x ELSE RMax(x, SetMax(S \ {x}))
MaxAbsM(m) == SetMax({RAbs(m[i][j]) : i \in 1..4, j \in 1..4})
MNear(a, b, tol) == \A i, j \in 1..4 : Near(a[i][j], b[i][j], tol)
Along3(x, v) == ((x[1] (.) v[1]) (+) (x[2] (.) v[2])) (+) (x[3] (.) v[3])
Lin3(m, v) == <<Along3(m[1], v), Along3(m[2], v), Along3(m[3], v)>>
MVec(m, v) == Lin3(m, v)
MPt0(m, p) == <<Along3(m[1], p) (+) m[1][4], Along3(m[2], p) (+) m[2][4], Along3(m[3], p) (+) m[3][4]>>
MW(m, p) == (((m[4][1] (.) p[1]) (+) (m[4][2] (.) p[2])) (+) (m[4][3] (.) p[3])) (+) m[4][4]
MPt(m, p) == LET w == MW(m, p) q == MPt0(m, p) IN IF w \doteq 1 THEN q ELSE <<q[1] (/) w, q[2] (/) w, q[3] (/) w>>
\* normals go by the inverse transpose; mi is the inverse matrix
Down3(mi, n, i) == ((mi[1][i] (.) n[1]) (+) (mi[2][i] (.) n[2])) (+) (mi[3][i] (.) n[3])
MNorm(mi, n) == <<Down3(mi, n, 1), Down3(mi, n, 2), Down3(mi, n, 3)>>
Det3(m) == Dot(<<m[1][1], m[1][2], m[1][3]>>, Cross(<<m[2][1], m[2][2], m[2][3]>>, <<m[3][1], m[3][2], m[3][3]>>))

Translate(d) == <<<<"1", "0", "0", d[1]>>, <<"0", "1", "0", d[2]>>, <<"0", "0", "1", d[3]>>, <<"0", "0", "0", "1">>>>
ScaleM(s) == <<<<s[1], "0", "0", "0">>, <<"0", s[2], "0", "0">>, <<"0", "0", s[3], "0">>, <<"0", "0", "0", "1">>>>
Rad(deg) == (deg (.) PI) (/) 180
\* rotation by an angle in degrees about an axis through the origin (counter-clockwise seen against the axis)
RotM(deg, axis) ==
  LET a == Unit(axis) s == RSin(Rad(deg)) c == RCos(Rad(deg)) d == 1 (-) c
      e(i, j) == (a[i] (.) a[j]) (.) d
  IN <<<<e(1, 1) (+) c, e(1, 2) (-) (a[3] (.) s), e(1, 3) (+) (a[2] (.) s), "0">>,
       <<e(2, 1) (+) (a[3] (.) s), e(2, 2) (+) c, e(2, 3) (-) (a[1] (.) s), "0">>,
       <<e(3, 1) (-) (a[2] (.) s), e(3, 2) (+) (a[1] (.) s), e(3, 3) (+) c, "0">>,
       <<"0", "0", "0", "1">>>>
\* camera to world: the camera sits at pos, looks along +z towards look, +y leans towards up
LookAt(pos, look, up) ==
  LET z == Unit(VSub(look, pos)) x == Unit(Cross(Unit(up), z)) y == Cross(z, x)
  IN <<<<x[1], y[1], z[1], pos[1]>>, <<x[2], y[2], z[2], pos[2]>>, <<x[3], y[3], z[3], pos[3]>>, <<"0", "0", "0", "1">>>>
Ortho(n, f) == <<<<"1", "0", "0", "0">>, <<"0", "1", "0", "0">>, <<"0", "0", 1 (/) (f (-) n), RNeg(n) (/) (f (-) n)>>, <<"0", "0", "0", "1">>>>
Persp(fov, n, f) ==
  LET t == 1 (/) RTan(Rad(fov) (/) 2)
  IN <<<<t, "0", "0", "0">>, <<"0", t, "0", "0">>, <<"0", "0", f (/) (f (-) n), RNeg(f (.) n) (/) (f (-) n)>>, <<"0", "0", "1", "0">>>>
Elem(e) ==
  CASE e.k = "translate" -> Translate(e.v)
    [] e.k = "scale" -> ScaleM(e.v)
    [] e.k = "rotx" -> RotM(e.a, <<"1", "0", "0">>)
    [] e.k = "roty" -> RotM(e.a, <<"0", "1", "0">>)
    [] e.k = "rotz" -> RotM(e.a, <<"0", "0", "1">>)
    [] e.k = "rot" -> RotM(e.a, e.v)
    [] e.k = "look" -> LookAt(e.pos, e.look, e.up)
    [] e.k = "ortho" -> Ortho(e.n, e.f)
    [] e.k = "persp" -> Persp(e.fov, e.n, e.f)
    [] e.k = "id" -> Id4
RECURSIVE Prod(_, _)
Prod(es, k) == IF k = 0 THEN Id4 ELSE IF k = 1 THEN Elem(es[1]) ELSE MMul(Prod(es, k - 1), Elem(es[k]))

\* boxes [lo, hi]; empty when some lo > hi
BEmpty(b) == \E k \in 1..3 : b.lo[k] \succ b.hi[k]
BIn(b, p) == \A k \in 1..3 : b.lo[k] \preceq p[k] /\ p[k] \preceq b.hi[k]
BInTol(b, p, tol) == \A k \in 1..3 : (b.lo[k] (-) tol) \preceq p[k] /\ p[k] \preceq (b.hi[k] (+) tol)
Corners(b) == {<<x, y, z>> : x \in {b.lo[1], b.hi[1]}, y \in {b.lo[2], b.hi[2]}, z \in {b.lo[3], b.hi[3]}}
BEq(a, b) == VEq(a.lo, b.lo) /\ VEq(a.hi, b.hi)
BUnion(a, b) == [lo |-> [k \in 1..3 |-> RMin(a.lo[k], b.lo[k])], hi |-> [k \in 1..3 |-> RMax(a.hi[k], b.hi[k])]]
BExt(b) == VSub(b.hi, b.lo)
==============================================================================
