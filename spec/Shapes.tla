------------------------------- MODULE Shapes -------------------------------
(* Quadrics, disks, triangles and meshes: exact ray intersection.            *)
EXTENDS Lin
M6 == "1e-6"
Two == "2"
TwoPi == 2 (.) PI
\* three-valued membership of a value x in x <= b or x >= b, with a band of doubt
Le3(x, b, e) == IF x \preceq (b (-) e) THEN "in" ELSE IF x \succ (b (+) e) THEN "out" ELSE "doubt"
And3(S) == IF "out" \in S THEN "out" ELSE IF "doubt" \in S THEN "doubt" ELSE "in"

\* ---- P17: shapes s = [kind, rad, z0, z1, ri, pm (degrees), ro] in object space; r.m / r.mi the placement and its inverse ----
PhiMax(s) == Rad(s.pm)
ZMin(s) == IF s.kind = "sphere" THEN RMax(RNeg(s.rad), RMin(s.z0, s.z1)) ELSE RMin(s.z0, s.z1)
ZMax(s) == IF s.kind = "sphere" THEN RMin(s.rad, RMax(s.z0, s.z1)) ELSE RMax(s.z0, s.z1)
Angle(x, y) == LET a == RAtan2(y, x) IN IF a \prec 0 THEN a (+) TwoPi ELSE a
ObjRay(r) == [o |-> MPt(r.mi, r.ray.o), d |-> MVec(r.mi, r.ray.d)]
At(q, t) == VAdd(q.o, VMul(t, q.d))
\* the quadratic a t^2 + b t + c with its discriminant
Quad(s, q) ==
  LET xy == (q.d[1] (.) q.d[1]) (+) (q.d[2] (.) q.d[2])
      a == IF s.kind = "sphere" THEN Len2(q.d) ELSE xy
      b == 2 (.) (((q.d[1] (.) q.o[1]) (+) (q.d[2] (.) q.o[2])) (+) (IF s.kind = "sphere" THEN q.d[3] (.) q.o[3] ELSE 0))
      c == (((q.o[1] (.) q.o[1]) (+) (q.o[2] (.) q.o[2])) (+) (IF s.kind = "sphere" THEN q.o[3] (.) q.o[3] ELSE 0)) (-) (s.rad (.) s.rad)
  IN [a |-> a, b |-> b, c |-> c, D |-> (b (.) b) (-) (4 (.) (a (.) c)), scale |-> (b (.) b) (+) RAbs(4 (.) (a (.) c))]
Roots(s, q) ==
  IF s.kind = "disk"
  THEN IF q.d[3] \doteq 0 THEN [doubt |-> FALSE, ts |-> <<>>]
       ELSE [doubt |-> (RAbs(q.d[3]) \preceq ("1e-12" (.) MaxAbs3(q.d))), ts |-> <<(s.z0 (-) q.o[3]) (/) q.d[3]>>]
  ELSE LET k == Quad(s, q)
       IN IF k.a \doteq 0 THEN [doubt |-> FALSE, ts |-> <<>>]
          ELSE IF k.a \preceq ("1e-10" (.) Len2(q.d)) THEN [doubt |-> TRUE, ts |-> <<>>]
          ELSE IF RAbs(k.D) \preceq ("1e-9" (.) k.scale) THEN [doubt |-> TRUE, ts |-> <<>>]
          ELSE IF k.D \prec 0 THEN [doubt |-> FALSE, ts |-> <<>>]
          ELSE LET w == RSqrt(k.D) IN [doubt |-> FALSE, ts |-> <<RRound((RNeg(k.b) (-) w) (/) (2 (.) k.a), 160), RRound((RNeg(k.b) (+) w) (/) (2 (.) k.a), 160)>>]
Sweep3(s, p) ==
  IF s.pm \succeq 360 THEN "in"
  ELSE IF RMax(RAbs(p[1]), RAbs(p[2])) \preceq (M6 (.) s.rad) THEN "doubt"
  ELSE LET f == Angle(p[1], p[2]) IN IF f \preceq M6 \/ f \succeq (TwoPi (-) M6) THEN "doubt" ELSE Le3(f, PhiMax(s), M6)
Limits3(s, p) ==
  CASE s.kind = "sphere" ->
         And3({IF ZMin(s) \succ RNeg(s.rad) THEN Le3(RNeg(p[3]), RNeg(ZMin(s)), M6 (.) s.rad) ELSE "in",
               IF ZMax(s) \prec s.rad THEN Le3(p[3], ZMax(s), M6 (.) s.rad) ELSE "in", Sweep3(s, p)})
    [] s.kind = "cylinder" -> LET e == M6 (.) RMax(RMax(RAbs(s.z0), RAbs(s.z1)), s.rad) IN And3({Le3(RNeg(p[3]), RNeg(ZMin(s)), e), Le3(p[3], ZMax(s), e), Sweep3(s, p)})
    [] s.kind = "disk" ->
         LET d == RSqrt((p[1] (.) p[1]) (+) (p[2] (.) p[2])) e == M6 (.) s.rad
         IN And3({Le3(d, s.rad, e), IF s.ri \doteq 0 THEN "in" ELSE Le3(RNeg(d), RNeg(s.ri), e), Sweep3(s, p)})
Inside3(s, ray, q, t) ==
  And3({Le3(ray.mint, t, M6 (.) RMax(RAbs(t), "1e-3")), IF ray.maxt = "inf" THEN "in" ELSE Le3(t, ray.maxt, M6 (.) RMax(RAbs(t), "1e-3")), Limits3(s, At(q, t))})
\* "doubt", "miss", or the first parameter
RECURSIVE First(_, _, _, _, _)
First(s, ray, q, ts, k) ==
  IF k > Len(ts) THEN "miss"
  ELSE LET v == Inside3(s, ray, q, ts[k])
       IN IF v = "in" THEN ts[k] ELSE IF v = "doubt" THEN "doubt" ELSE First(s, ray, q, ts, k + 1)
Expected(s, ray, q) == LET rt == Roots(s, q) IN IF rt.doubt THEN "doubt" ELSE First(s, ray, q, rt.ts, 1)
Phi(s, p) == Angle(p[1], p[2])
UofP(s, p) == Phi(s, p) (/) PhiMax(s)
Theta(s, z) == RAcos(RMax(RNeg("1"), RMin(1, z (/) s.rad)))
VofP(s, p) ==
  CASE s.kind = "sphere" -> (Theta(s, p[3]) (-) Theta(s, ZMin(s))) (/) (Theta(s, ZMax(s)) (-) Theta(s, ZMin(s)))
    [] s.kind = "cylinder" -> (p[3] (-) ZMin(s)) (/) (ZMax(s) (-) ZMin(s))
    [] s.kind = "disk" -> 1 (-) ((RSqrt((p[1] (.) p[1]) (+) (p[2] (.) p[2])) (-) s.ri) (/) (s.rad (-) s.ri))
RXY(p) == RSqrt((p[1] (.) p[1]) (+) (p[2] (.) p[2]))
DPDU(s, p) == VMul(PhiMax(s), <<RNeg(p[2]), p[1], "0">>)
DPDV(s, p) ==
  CASE s.kind = "sphere" -> LET dt == Theta(s, ZMax(s)) (-) Theta(s, ZMin(s)) w == RXY(p)
                            IN VMul(dt, <<(p[3] (.) p[1]) (/) w, (p[3] (.) p[2]) (/) w, RNeg(w)>>)
    [] s.kind = "cylinder" -> <<"0", "0", ZMax(s) (-) ZMin(s)>>
    [] s.kind = "disk" -> VMul((s.ri (-) s.rad) (/) RXY(p), <<p[1], p[2], "0">>)
\* outward object-space normal
NOut(s, p) == CASE s.kind = "sphere" -> VMul(1 (/) s.rad, p) [] s.kind = "cylinder" -> VMul(1 (/) s.rad, <<p[1], p[2], "0">>) [] s.kind = "disk" -> <<"0", "0", "1">>
DNDU(s, p) == IF s.kind = "disk" THEN Zero3 ELSE VMul(1 (/) s.rad, DPDU(s, p))
DNDV(s, p) == IF s.kind = "sphere" THEN VMul(1 (/) s.rad, DPDV(s, p)) ELSE Zero3
SignRo(ro, v) == IF ro THEN VNeg(v) ELSE v
VNearMag(a, b, tol) == VNear(a, b, tol (.) RMax("1e-9", RMax(MaxAbs3(a), MaxAbs3(b))))
HitFails(r) ==
  IF r.err # "" THEN {"query-raised"} ELSE
  LET s == r.s
      q == ObjRay(r)
      e == Expected(s, r.ray, q)
  IN (IF ~r.keep THEN {"ray-left-alone"} ELSE {})
     \cup (IF e = "doubt" THEN {} ELSE IF (e = "miss") # ~r.hit THEN {IF r.hit THEN "hit-where-there-is-none" ELSE "missed-hit"} ELSE {})
     \cup (IF e = "doubt" THEN {} ELSE IF (e = "miss") # ~r.occ THEN {"occlusion-query-agrees"} ELSE {})
     \cup (IF e \in {"doubt", "miss"} \/ ~r.hit THEN {} ELSE
           LET p == At(q, e)
               w == RXY(p)
               far == RMax(1, RMax(MaxAbs3(q.o), RAbs(e) (.) MaxAbs3(q.d)) (/) s.rad)   \* rounding grows with distance
               tol == "1e-7" (.) far
               wp == MPt(r.m, p)
               pole == s.kind # "cylinder" /\ w \preceq ("1e-3" (.) s.rad)
           IN (IF ~NearRel(r.t, e, "1e-7") THEN {"smallest-parameter"} ELSE {})
              \cup (IF ~VNear(r.p, wp, ("2e-5" (.) (MaxAbsM(r.m) (.) s.rad)) (+) (tol (.) RMax(1, MaxAbs3(wp)))) THEN {"hit-point"} ELSE {})
              \cup (IF ~pole /\ ~VNear(r.p, wp, tol (.) RMax(MaxAbsM(r.m) (.) s.rad, MaxAbs3(wp))) THEN {"hit-point"} ELSE {})
              \cup (IF ~pole /\ s.pm \succ 0 /\ ~(Near(r.u, UofP(s, p), tol (.) RMax(1, 1 (/) PhiMax(s))) \/ (s.pm \doteq 360 /\ Near(RAbs(r.u (-) UofP(s, p)), 1, tol))) THEN {"parameter-u"} ELSE {})
              \cup (IF ~Near(r.v, VofP(s, p), IF pole THEN "1e-1" ELSE "1e-4" (.) far) THEN {"parameter-v"} ELSE {})
              \cup (IF pole THEN {} ELSE
                    (IF ~VNearMag(r.dpdu, MVec(r.m, DPDU(s, p)), "1e-5" (.) far) \/ ~VNearMag(r.dpdv, MVec(r.m, DPDV(s, p)), "1e-5" (.) far) THEN {"partial-derivatives"} ELSE {})
                    \cup (IF ~VNearMag(r.dndu, MNorm(r.mi, DNDU(s, p)), "1e-4" (.) far) \/ ~VNearMag(r.dndv, MNorm(r.mi, DNDV(s, p)), "1e-4" (.) far) THEN {"normal-derivatives"} ELSE {}))
              \cup (IF ~VNear(r.nn, SignRo(s.ro, Unit(MNorm(r.mi, NOut(s, p)))), IF pole THEN "1e-1" ELSE "1e-5" (.) far) THEN {"normal"} ELSE {})
              \cup (IF ~(0 \preceq r.eps) /\ e \succ "1e-6" THEN {"error-bound"} ELSE {}))
\* sampled points of the surface are inside both bounds
SurfPts(s) ==
  LET as == {PhiMax(s) (.) a : a \in {"0", "1/8", "2/8", "3/8", "4/8", "5/8", "6/8", "7/8", "1"}}
      zs == {ZMin(s) (+) (a (.) (ZMax(s) (-) ZMin(s))) : a \in {"0", "1/4", "1/2", "3/4", "1"}}
      rs == {s.ri, s.rad}
      w(z) == RSqrt(RMax(0, (s.rad (.) s.rad) (-) (z (.) z)))
  IN CASE s.kind = "sphere" -> {<<w(z) (.) RCos(a), w(z) (.) RSin(a), z>> : a \in as, z \in zs}
       [] s.kind = "cylinder" -> {<<s.rad (.) RCos(a), s.rad (.) RSin(a), z>> : a \in as, z \in zs}
       [] s.kind = "disk" -> {<<d (.) RCos(a), d (.) RSin(a), s.z0>> : a \in as, d \in rs}
BoundFails(r) ==
  IF r.err # "" THEN {"bound-raised"} ELSE
  LET pts == SurfPts(r.s)
      big == RMax(1, RMax(MaxAbs3(r.ob.lo), MaxAbs3(r.ob.hi)))
  IN (IF \E p \in pts : ~BInTol(r.ob, p, "1e-9" (.) big) THEN {"object-bound-contains-surface"} ELSE {})
     \cup (IF \E p \in pts : ~BInTol(r.wb, MPt(r.m, p), "1e-9" (.) (RMax(1, MaxAbsM(r.m)) (.) big)) THEN {"world-bound-contains-surface"} ELSE {})
P17Fails(r) == CASE r.op = "hit" -> HitFails(r) [] r.op = "bound" -> BoundFails(r) [] OTHER -> {}

\* ---- P18: triangles; r.v the three world vertices as the specification places them, r.uv their texture coordinates ----
DefUV == <<<<"0", "0">>, <<"1", "0">>, <<"1", "1">>>>
TriExpected(r, v) ==
  LET e1 == VSub(v[2], v[1]) e2 == VSub(v[3], v[1])
      s1 == Cross(r.ray.d, e2) div == Dot(s1, e1)
      d == VSub(r.ray.o, v[1])
      s2 == Cross(d, e1)
  IN IF div \doteq 0 THEN IF r.exact THEN [k |-> "miss"] ELSE [k |-> "doubt"]
     ELSE IF RAbs(div) \preceq ("1e-7" (.) (MaxAbs3(r.ray.d) (.) (MaxAbs3(e1) (.) MaxAbs3(e2)))) THEN [k |-> "doubt"]
     ELSE LET b1 == Dot(d, s1) (/) div
              b2 == Dot(r.ray.d, s2) (/) div
              t == Dot(e2, s2) (/) div
              m == "1e-7" (.) RMax(1, MaxAbs3(d) (/) RMin(MaxAbs3(e1), MaxAbs3(e2)))
              v3 == And3({Le3(RNeg(b1), 0, m), Le3(RNeg(b2), 0, m), Le3(b1 (+) b2, 1, m), Le3(r.ray.mint, t, M6 (.) RMax(RAbs(t), "1e-3")),
                          IF r.ray.maxt = "inf" THEN "in" ELSE Le3(t, r.ray.maxt, M6 (.) RMax(RAbs(t), "1e-3"))})
          IN IF v3 = "in" THEN [k |-> "hit", t |-> t, b |-> <<1 (-) (b1 (+) b2), b1, b2>>] ELSE IF v3 = "out" THEN [k |-> "miss"] ELSE [k |-> "doubt"]
Bary(b, w, n) == [i \in 1..n |-> ((b[1] (.) w[1][i]) (+) (b[2] (.) w[2][i])) (+) (b[3] (.) w[3][i])]
UVDet(uv) == ((uv[1][1] (-) uv[3][1]) (.) (uv[2][2] (-) uv[3][2])) (-) ((uv[2][1] (-) uv[3][1]) (.) (uv[1][2] (-) uv[3][2]))
\* the alpha texture: r.cut = <<a, b, c, d, e, f>>: points where a u + b v + c x + d y + e z < f are cut away
CutValue(c, uv, p) == (((c[1] (.) uv[1]) (+) (c[2] (.) uv[2])) (+) ((c[3] (.) p[1]) (+) (c[4] (.) p[2]))) (+) (c[5] (.) p[3])
\* ... or r.cut = <<su, sv, du, dv>>: the even cells of a checkerboard over (su u + du, sv v + dv) are
Cell3(c, uv, m) == LET s == (c[1] (.) uv[1]) (+) c[3] t == (c[2] (.) uv[2]) (+) c[4]
                       near(a) == RFloor(a (+) m) # RFloor(a (-) m)
                   IN IF near(s) \/ near(t) THEN "doubt" ELSE IF (RFloor(s) + RFloor(t)) % 2 = 0 THEN "in" ELSE "out"
Cut3(c, uv, p, m) == IF c = <<>> THEN "out" ELSE IF Len(c) = 4 THEN Cell3(c, uv, m) ELSE Le3(CutValue(c, uv, p), c[6], m)
TriFails(r) ==
  IF r.err # "" THEN {"triangle-raised"} ELSE
  LET v == [k \in 1..3 |-> MPt(r.m, r.v[k])]
      uv == IF r.hasuv THEN r.uv ELSE DefUV
      x0 == TriExpected(r, v)
      tuv == Bary(x0.b, uv, 2)
      cut3 == Cut3(r.cut, tuv, Bary(x0.b, v, 3), "1e-6" (.) RMax(1, RMax(MaxAbs3(r.ray.o), SetMax({MaxAbs3(v[k]) : k \in 1..3}))))
      x == IF x0.k # "hit" \/ cut3 = "out" THEN x0 ELSE IF cut3 = "in" THEN [k |-> "miss"] ELSE [k |-> "doubt"]
      far == RMax(1, MaxAbs3(r.ray.o))
      siz == RMax(MaxAbs3(VSub(v[2], v[1])), MaxAbs3(VSub(v[3], v[1])))
      n == Cross(VSub(v[2], v[1]), VSub(v[3], v[1]))
      det == UVDet(uv)
      uvx == SetMax({RAbs(uv[i][k] (-) uv[3][k]) : i \in 1..2, k \in 1..2})
      useful == RAbs(det) \succ ("1e-3" (.) RMin(1, uvx (.) uvx))
      edge(i, j) == VNear(VSub(v[i], v[j]), VAdd(VMul(uv[i][1] (-) uv[j][1], r.dpdu), VMul(uv[i][2] (-) uv[j][2], r.dpdv)), "1e-6" (.) RMax(siz, RMax(MaxAbs3(v[1]), MaxAbs3(v[2])) ))
      flip == r.ro # (Det3(r.m) \prec 0)
      sflip == IF "m0" \in DOMAIN r THEN r.ro # (Det3(r.m0) \prec 0) ELSE flip     \* an instance does not turn the shading side
  IN (IF ~r.keep THEN {"ray-left-alone"} ELSE {})
     \cup (IF x.k = "doubt" THEN {} ELSE IF (x.k = "hit") # r.hit THEN {IF r.hit THEN (IF x0.k = "hit" /\ cut3 = "in" THEN "cut-away-point-hit" ELSE "hit-where-there-is-none") ELSE "missed-hit"} ELSE {})
     \cup (IF x.k = "doubt" THEN {} ELSE IF (x.k = "hit") # r.occ THEN {"occlusion-query-agrees"} ELSE {})
     \cup (IF x.k # "hit" \/ ~r.hit THEN {} ELSE
           (IF ~NearRel(r.t, x.t, "1e-6") THEN {"hit-parameter"} ELSE {})
           \cup (IF ~VNear(r.p, Bary(x.b, v, 3), "1e-6" (.) RMax(far, siz)) THEN {"hit-point"} ELSE {})
           \cup (IF ~Near(r.u, tuv[1], "1e-6" (.) far) \/ ~Near(r.v2, tuv[2], "1e-6" (.) far) THEN {"texture-coordinates"} ELSE {})
           \cup (IF useful /\ ~(edge(1, 2) /\ edge(2, 3) /\ edge(3, 1)) THEN {"partial-derivatives"} ELSE {})
           \cup (IF ~IsUnit(r.nn, M6) \/ ~Parallel(r.nn, n, "1e-5") THEN {"normal"} ELSE {})
           \cup (IF useful /\ ~(Dot(r.nn, IF flip THEN VNeg(Cross(r.dpdu, r.dpdv)) ELSE Cross(r.dpdu, r.dpdv)) \succ 0) THEN {"normal-side"} ELSE {})
           \cup (IF r.serr # "" THEN {"shading-raised"} ELSE
                 LET ns == Bary(x.b, r.n, 3)
                     wn == MNorm(r.mi, ns)
                     ok == useful /\ MaxAbs3(wn) \succ "1e-3" /\ MaxAbs3(r.sdpdu) \succ 0
                     dn(i, j) == VNear(MNorm(r.mi, VSub(r.n[i], r.n[j])), VAdd(VMul(uv[i][1] (-) uv[j][1], r.sdndu), VMul(uv[i][2] (-) uv[j][2], r.sdndv)), "1e-5" (.) RMax(1, MaxAbsM(r.mi)))
                 IN (IF ~VNear(r.sp, r.p, 0) \/ ~(r.su \doteq r.u) \/ ~(r.sv \doteq r.v2) THEN {"shading-keeps-point-and-uv"} ELSE {})
                    \cup (IF ~r.diffs THEN {"shading-keeps-screen-derivatives"} ELSE {})
                    \cup (IF ~r.hasn \/ ~ok THEN {} ELSE
                          (IF ~VNear(r.snn, SignRo(sflip, Unit(wn)), "1e-4") THEN {"shading-normal-interpolates"} ELSE {})
                          \cup (IF ~(dn(1, 2) /\ dn(2, 3)) THEN {"shading-normal-derivatives"} ELSE {})
                          \cup (IF r.hass THEN LET ws == MVec(r.m, Bary(x.b, r.sv3, 3)) IN   \* the tangent keeps the side of the given one
                                  IF MaxAbs3(Cross(Unit(ws), Unit(wn))) \succ "1e-2" /\ ~Near(Dot(r.sdpdu, Cross(ws, wn)), 0, "1e-4" (.) RMax(1, MaxAbs3(ws) (.) MaxAbs3(wn))) THEN {"shading-tangent"} ELSE {}
                                ELSE {}))
                    \cup (IF r.hasn /\ det \doteq 0 THEN      \* parameters that do not vary: as at the middle of the triangle
                          LET wm == MNorm(r.mi, Bary(<<"1/3", "1/3", "1/3">>, r.n, 3)) IN
                          (IF MaxAbs3(wm) \succ "1e-3" /\ ~VNear(r.snn, SignRo(sflip, Unit(wm)), "1e-4") THEN {"shading-normal-of-degenerate-parameters"} ELSE {})
                          \cup (IF ~VEq(r.sdndu, Zero3) \/ ~VEq(r.sdndv, Zero3) THEN {"degenerate-parameters-turn-no-normal"} ELSE {})
                          ELSE {})
                    \cup (IF ~r.hasn /\ ~r.hass /\ ~VNear(r.snn, r.nn, M6) THEN {"shading-normal-without-attributes"} ELSE {})))
\* refining a mesh
MeshFails(r) ==
  IF r.err # "" THEN {"mesh-raised"} ELSE
  LET nf == Len(r.vi) \div 3
      wp == [k \in 1..Len(r.P) |-> MPt(r.m, r.P[k])]
      big == RMax(1, SetMax({MaxAbs3(wp[k]) : k \in 1..Len(wp)}))
      corner(f, c) == r.vi[3 * (f - 1) + c] + 1
  IN (IF r.ntris # nf \/ r.nverts # Len(r.P) THEN {"face-and-vertex-counts"} ELSE {})
     \cup (IF Len(r.tris) # nf THEN {"one-triangle-per-face"} ELSE
           (IF \E f \in 1..nf, c \in 1..3 : ~VNear(r.tris[f].v[c], wp[corner(f, c)], "1e-9" (.) big) THEN {"triangle-vertices"} ELSE {})
           \cup (IF \E f \in 1..nf, c \in 1..3 : ~(\A d \in 1..2 : r.tris[f].uv[c][d] \doteq (IF r.hasuv THEN r.uv[2 * (corner(f, c) - 1) + d] ELSE DefUV[c][d])) THEN {"triangle-texture-coordinates"} ELSE {})
           \cup (IF \E f \in 1..nf, c \in 1..3 : ~BInTol(r.tris[f].wb, wp[corner(f, c)], "1e-9" (.) big) \/ ~BInTol(r.tris[f].ob, r.P[corner(f, c)], "1e-7" (.) big) THEN {"triangle-bounds"} ELSE {})
           \cup (IF \E f \in 1..nf : ~Near(4 (.) (r.tris[f].area (.) r.tris[f].area), Len2(Cross(VSub(wp[corner(f, 2)], wp[corner(f, 1)]), VSub(wp[corner(f, 3)], wp[corner(f, 1)]))), "1e-7" (.) (big (.) (big (.) (big (.) big)))) THEN {"triangle-area"} ELSE {}))
     \cup (IF \E k \in 1..Len(wp) : ~BInTol(r.wb, wp[k], "1e-9" (.) big) \/ ~BInTol(r.ob, r.P[k], "1e-7" (.) big) THEN {"mesh-bounds-contain-vertices"} ELSE {})
     \cup (IF r.canint THEN {"mesh-needs-refinement"} ELSE {})
\* coordinates to be discarded where useless: all of them, when some face of some extent has two corners with the same pair
\* (only asked for where the mesh has normals too); a face without extent says nothing
DiscardFails(r) ==
  IF r.err # "" THEN {"discarding-raised"} ELSE
  LET nf == Len(r.vi) \div 3
      ix(f, c) == r.vi[3 * (f - 1) + c] + 1
      twice2(f) == Len2(Cross(VSub(r.P[ix(f, 2)], r.P[ix(f, 1)]), VSub(r.P[ix(f, 3)], r.P[ix(f, 1)])))
      same(i, j) == r.uv[2 * i - 1] \doteq r.uv[2 * j - 1] /\ r.uv[2 * i] \doteq r.uv[2 * j]
      useless(f) == twice2(f) \succ "1e-8" /\ (same(ix(f, 1), ix(f, 2)) \/ same(ix(f, 2), ix(f, 3)) \/ same(ix(f, 3), ix(f, 1)))
      unsure == \E f \in 1..nf : twice2(f) \succ 0 /\ "1e-8" \succeq twice2(f)
      gone == r.asked /\ r.hasn /\ \E f \in 1..nf : useless(f)
  IN (IF r.ntris # nf \/ r.nverts # Len(r.P) \/ Len(r.tris) # nf THEN {"face-and-vertex-counts"} ELSE
      IF ~unsure /\ \E f \in 1..nf, c \in 1..3 : \E d \in 1..2 : ~(r.tris[f].uv[c][d] \doteq (IF gone THEN DefUV[c][d] ELSE r.uv[2 * (ix(f, c) - 1) + d])) THEN {"useless-coordinates-discarded-useful-kept"} ELSE {})
BadFails(r) == IF r.err = "" THEN {"malformed-mesh-accepted-" \o r.why} ELSE {}
\* a ray that never leaves a plane parallel to the triangle's, or a triangle without extent: nothing to hit
SlideFails(r) ==
  IF r.err # "" THEN {"parallel-ray-raised"} ELSE
  LET n == Cross(VSub(r.v[2], r.v[1]), VSub(r.v[3], r.v[1]))
  IN (IF Dot(r.d, n) \doteq 0 /\ (r.hit \/ r.occ) THEN {"hit-along-the-plane"} ELSE {})
     \cup (IF ~Near(4 (.) (r.area (.) r.area), Len2(n), "1e-6") THEN {"triangle-area"} ELSE {})
     \cup (IF ~r.keep THEN {"ray-left-alone"} ELSE {})
P18Fails(r) == CASE r.op = "tri" -> TriFails(r) [] r.op = "mesh" -> MeshFails(r) [] r.op = "badmesh" -> BadFails(r) [] r.op = "discard" -> DiscardFails(r) [] r.op = "slide" -> SlideFails(r) [] OTHER -> {}

\* ---- P37: area sampling; placements are rigid ----
OnSurface(s, q, tol) ==   \* q in object space
  CASE s.kind = "sphere" -> Near(Len2(q), s.rad (.) s.rad, tol (.) (s.rad (.) s.rad)) /\ q[3] \succeq (ZMin(s) (-) (tol (.) s.rad)) /\ q[3] \preceq (ZMax(s) (+) (tol (.) s.rad))
    [] s.kind = "cylinder" -> Near((q[1] (.) q[1]) (+) (q[2] (.) q[2]), s.rad (.) s.rad, tol (.) (s.rad (.) s.rad)) /\ q[3] \succeq (ZMin(s) (-) tol) /\ q[3] \preceq (ZMax(s) (+) tol)
    [] s.kind = "disk" -> Near(q[3], s.z0, tol) /\ RXY(q) \preceq (s.rad (+) tol) /\ RXY(q) \succeq (s.ri (-) tol)
InSweep(s, q) == s.pm \succeq 360 \/ RXY(q) \preceq "1e-6" \/ LET f == Angle(q[1], q[2]) IN f \preceq (PhiMax(s) (+) M6) \/ f \succeq (TwoPi (-) M6)
AreaOf(s) == CASE s.kind \in {"sphere", "cylinder"} -> (PhiMax(s) (.) s.rad) (.) (ZMax(s) (-) ZMin(s))
               [] s.kind = "disk" -> (PhiMax(s) (/) 2) (.) ((s.rad (.) s.rad) (-) (s.ri (.) s.ri))
               [] s.kind = "tri" -> Length(Cross(VSub(s.v[2], s.v[1]), VSub(s.v[3], s.v[1]))) (/) 2
InTri(v, p, tol) ==
  LET e1 == VSub(v[2], v[1]) e2 == VSub(v[3], v[1]) d == VSub(p, v[1]) n == Cross(e1, e2) nn == Len2(n)
      b1 == Dot(Cross(d, e2), n) (/) nn
      b2 == Dot(Cross(e1, d), n) (/) nn
  IN RAbs(Dot(d, n)) \preceq (tol (.) Length(n)) /\ b1 \succeq RNeg(tol) /\ b2 \succeq RNeg(tol) /\ (b1 (+) b2) \preceq (1 (+) tol)
\* r.p, r.n the sample; r.j the area element |dp/du1 x dp/du2| measured by central differences
SampFails(r) ==
  IF r.err # "" THEN {"sample-raised"} ELSE
  LET s == r.s
      q == MPt(r.mi, r.p)
      a == AreaOf(s)
      n == IF s.kind = "tri" THEN Cross(VSub(s.v[2], s.v[1]), VSub(s.v[3], s.v[1])) ELSE MNorm(r.mi, NOut(s, q))
  IN (IF s.kind = "tri" THEN IF ~InTri(s.v, r.p, M6) THEN {"sample-on-surface"} ELSE {}
      ELSE IF ~OnSurface(s, q, "1e-7") \/ ~InSweep(s, q) THEN {"sample-on-surface"} ELSE {})
     \cup (IF s.kind = "tri" THEN IF ~IsUnit(r.n, M6) \/ ~Parallel(r.n, n, "1e-5") THEN {"sample-normal"} ELSE {}
           ELSE IF ~VNear(r.n, SignRo(s.ro, Unit(n)), "1e-5") THEN {"sample-normal"} ELSE {})
     \cup (IF ~NearRel(r.area, a, "1e-9") THEN {"area"} ELSE {})
     \cup (IF ~Near(r.pdf (.) a, 1, "1e-9") THEN {"area-density"} ELSE {})
     \cup (IF r.smooth /\ ~Near(r.j, a, "1e-3" (.) a) THEN {"sampling-is-uniform-over-area"} ELSE {})
\* r.cells: how often an n x n grid of random numbers falls in each of the equal-area cells of the surface
CellFails(r) == IF r.err # "" THEN {"sample-raised"} ELSE
  IF \E k \in 1..Len(r.cells) : 2 * r.cells[k] < r.each \/ 2 * r.cells[k] > 3 * r.each THEN {"samples-cover-the-surface-evenly"} ELSE {}
\* sampling and density as seen from a point; r.hit.. what the shape's own intersect reports along wi
SeenFails(r) ==
  IF r.err # "" THEN {"seen-raised"} ELSE
  LET d2 == Len2(VSub(r.p, r.from))
      cos == RAbs(Dot(r.nn, r.wi))
      cone == r.s.kind = "sphere" /\ r.s.pm \doteq 360 /\ r.s.full
      ctr == MPt(r.m, Zero3)
      dc2 == Len2(VSub(r.from, ctr))
      ct == RSqrt(1 (-) ((r.s.rad (.) r.s.rad) (/) dc2))
      outside == r.s.kind = "sphere" /\ dc2 \succ ((r.s.rad (.) r.s.rad) (+) "1e-3")
      \* where a sphere is hit at its very pole, the point may be moved off the pole by a hundred-thousandth of the radius
      q == MPt(r.mi, r.p)
      pole == r.s.kind = "sphere" /\ RAbs(q[1]) \preceq ("1e-4" (.) r.s.rad) /\ RAbs(q[2]) \preceq ("1e-4" (.) r.s.rad)
      near == r.s.kind = "sphere" /\ ~outside /\ dc2 \succ ((r.s.rad (.) r.s.rad) (-) "1e-3")
  IN IF near THEN {} ELSE
     IF outside
     THEN IF ~cone THEN {}
          ELSE IF r.hit /\ ~NearRel(r.pdf, 1 (/) (TwoPi (.) (1 (-) ct)), "1e-6") THEN {"cone-density"} ELSE {}
     ELSE IF r.hit THEN IF cos \succ "1e-4" /\ ~NearRel(r.pdf, d2 (/) (cos (.) r.area), IF pole THEN "1e-2" ELSE "1e-6") THEN {"density-is-distance-squared-over-cosine-times-area"} ELSE {}
          ELSE IF ~(r.pdf \doteq 0) THEN {"density-zero-for-misses"} ELSE {}
\* sampling towards the shape: the solid-angle element of the direction times the density is one
TowardFails(r) ==
  IF r.err # "" THEN {"toward-raised"} ELSE
  (IF r.smooth /\ r.visible /\ ~Near(r.j (.) r.pdf, 1, "2e-3") THEN {"direction-density-matches-sampling"} ELSE {})
  \cup (IF r.s.kind = "sphere" /\ ~Near(Len2(MPt(r.mi, r.p)), r.s.rad (.) r.s.rad, "1e-3" (.) (r.s.rad (.) r.s.rad)) THEN {"sample-on-surface"} ELSE {})
  \* an observer clearly outside a whole sphere is only given points of the side he sees
  \cup (IF r.s.kind = "sphere" /\ r.s.pm \doteq 360 /\ r.s.full
          THEN LET p == MPt(r.mi, r.p) f == MPt(r.mi, r["from"]) d == VSub(f, p) IN
               IF Len2(f) \succ ("1.003" (.) (r.s.rad (.) r.s.rad)) /\ Dot(p, d) \prec RNeg("1e-2" (.) (r.s.rad (.) Length(d))) THEN {"samples-face-the-observer"} ELSE {}
          ELSE {})
\* a set of shapes: r.mem = [area, pdf(wi), npdf] per member
SetFails(r) ==
  IF r.err # "" THEN {"set-raised"} ELSE
  LET n == Len(r.mem)
      sum == RSum([k \in 1..n |-> r.mem[k].area])
      w == RSum([k \in 1..n |-> r.mem[k].area (.) r.mem[k].pdf])
  IN (IF r.count # n THEN {"set-members"} ELSE {})
     \cup (IF ~NearRel(r.sum, sum, "1e-9") THEN {"set-area"} ELSE {})
     \cup (IF ~NearRel(r.pdf, w (/) sum, "1e-6") THEN {"set-density-weights-by-area"} ELSE {})
     \cup (IF ~NearRel(r.apdf, 1 (/) sum, "1e-6") THEN {"set-area-density"} ELSE {})
     \* r.got[k]: fraction of a fine grid of component numbers that chose member k
     \cup (IF \E k \in 1..n : ~Near(r.got[k], r.mem[k].area (/) sum, "1/100") THEN {"set-chooses-by-area"} ELSE {})
P37Fails(r) == CASE r.op = "samp" -> SampFails(r) [] r.op = "cells" -> CellFails(r) [] r.op = "seen" -> SeenFails(r)
                 [] r.op = "toward" -> TowardFails(r) [] r.op = "set" -> SetFails(r) [] OTHER -> {}

\* ---- P38: differential geometry and frames ----
DiffFails(r) ==
  IF r.err # "" THEN {"differential-raised"} ELSE
  IF ~r.has THEN IF VEq(r.dpdx, Zero3) /\ VEq(r.dpdy, Zero3) /\ (\A f \in {"dudx", "dvdx", "dudy", "dvdy"} : r[f] \doteq 0) THEN {} ELSE {"no-differentials-means-zero"}
  ELSE
  LET cx == Dot(r.nn, r.rxd) cy == Dot(r.nn, r.ryd)
      hit(o, d, c) == VAdd(o, VMul(Dot(r.nn, VSub(r.p, o)) (/) c, d))
      px == VSub(hit(r.rxo, r.rxd, cx), r.p)
      py == VSub(hit(r.ryo, r.ryd, cy), r.p)
      mag == RMax(1, RMax(MaxAbs3(px), MaxAbs3(py)))
      skip == RAbs(cx) \preceq ("1e-3" (.) Length(r.rxd)) \/ RAbs(cy) \preceq ("1e-3" (.) Length(r.ryd))
      inplane(a, b, d) == VNear(VAdd(VMul(a, r.dpdu), VMul(b, r.dpdv)), d, "1e-6" (.) (mag (.) RMax(1, RMax(MaxAbs3(r.dpdu), MaxAbs3(r.dpdv)))))
  IN IF skip THEN {} ELSE
     (IF ~VNear(r.dpdx, px, "1e-7" (.) mag) \/ ~VNear(r.dpdy, py, "1e-7" (.) mag) THEN {"position-differentials"} ELSE {})
     \cup (IF r.degen /\ (\E f \in {"dudx", "dvdx", "dudy", "dvdy"} : ~(r[f] \doteq 0)) THEN {"degenerate-parameters-do-not-vary"} ELSE {})
     \cup (IF ~r.degen /\ (~inplane(r.dudx, r.dvdx, px) \/ ~inplane(r.dudy, r.dvdy, py)) THEN {"parameter-differentials"} ELSE {})
     \cup (IF ~r.copied THEN {"copy-keeps-everything"} ELSE {})
     \cup (IF ~r.independent THEN {"copy-is-independent"} ELSE {})
FrameFails(r) ==
  IF r.err # "" THEN {"frame-raised"} ELSE
  IF (IF MaxAbs3(r.v) \doteq 0 THEN ~IsUnit(r.a, "1e-9") ELSE ~VNear(r.a, r.v, "1e-12")) \/ (\E w \in {r.b, r.c} : ~IsUnit(w, "1e-9")) \/ ~Near(Dot(r.a, r.b), 0, "1e-9") \/ ~Near(Dot(r.a, r.c), 0, "1e-9") \/ ~Near(Dot(r.b, r.c), 0, "1e-9")
  THEN {"frame-orthonormal"} ELSE IF ~VNear(Cross(r.a, r.b), r.c, "1e-9") THEN {"frame-handedness"} ELSE {}
SphFails(r) ==
  IF r.err # "" THEN {"spherical-raised"} ELSE
  LET st == RSin(r.theta) ct == RCos(r.theta) d == <<st (.) RCos(r.phi), st (.) RSin(r.phi), ct>>
      w == VAdd(VAdd(VMul(d[1], r.x), VMul(d[2], r.y)), VMul(d[3], r.z))
  IN (IF ~VNear(r.dir, d, "1e-9") \/ ~VNear(r.dirb, w, "1e-9") THEN {"spherical-direction"} ELSE {})
     \cup (IF ~Near(r.th, r.theta, "1e-6") THEN {"spherical-theta"} ELSE {})
     \cup (IF RAbs(st) \succ "1e-3" /\ ~(Near(r.ph, r.phi, "1e-6") \/ Near(RAbs(r.ph (-) r.phi), TwoPi, "1e-6")) THEN {"spherical-phi"} ELSE {})
FaceFails(r) == IF r.err # "" THEN {"face-raised"} ELSE
  (IF ~(VEq(r.got, r.n) \/ VEq(r.got, VNeg(r.n))) \/ Dot(r.got, r.v) \prec 0 THEN {"face-forward"} ELSE {}) \cup (IF ~r.keep THEN {"operands-left-alone"} ELSE {})
P38Fails(r) == CASE r.op = "diff" -> DiffFails(r) [] r.op = "frame" -> FrameFails(r) [] r.op = "sph" -> SphFails(r) [] r.op = "face" -> FaceFails(r) [] OTHER -> {}
=============================================================================
