-------------------------------- MODULE Light --------------------------------
(* Light sources (P23): what a receiving point sees of a light, what leaves   *)
(* it, its density over directions and its power.  r.m / r.mi are the         *)
(* light-to-world matrix and its inverse; a profile map is r.map.             *)
EXTENDS Texture
One3 == <<"1", "1", "1">>
Z3 == <<"0", "0", "0">>
Col(a, b) == \A k \in 1..3 : NearRel(a[k], b[k], M9)
CScale(s, c) == [k \in 1..3 |-> s (.) c[k]]
CProd(a, b) == [k \in 1..3 |-> a[k] (.) b[k]]
Pos(r) == MPt(r.m, Z3)
\* map lookups are bilinear on the image, repeated at its borders; nothing stands for a missing image
MapAt(r, s, t) == IF r.map = <<>> THEN One3 ELSE Bilin([levels |-> <<r.map>>, wrap |-> "repeat", nc |-> 3], 0, s, t)
PhiOf(v) == LET p == RAtan2(v[2], v[1]) IN IF p \preceq 0 THEN p (+) (2 (.) PI) ELSE p
ThetaOf(v) == RAcos(RMin(1, RMax(-1, v[3])))
Aspect(r) == IF r.map = <<>> THEN "1" ELSE Len(r.map[1]) (/) Len(r.map)
ScrX(r) == IF Aspect(r) \succ 1 THEN Aspect(r) ELSE "1"
ScrY(r) == IF Aspect(r) \succ 1 THEN "1" ELSE 1 (/) Aspect(r)
\* fraction of the intensity sent into world direction w: [v, doubt]
Profile(r, w) ==
  LET wl == Unit(MVec(r.mi, w))
  IN CASE r.kind = "point" -> [v |-> One3, doubt |-> FALSE]
       [] r.kind = "spot" ->
            LET cw == RCos(Rad(r.width)) cf == RCos(Rad(r.fall))
                d == (wl[3] (-) cw) (/) (cf (-) cw)
                f == IF wl[3] \prec cw THEN "0" ELSE IF wl[3] \succ cf THEN "1" ELSE RPow(d, 4)
            IN [v |-> <<f, f, f>>, doubt |-> FALSE]
       [] r.kind = "proj" ->
            LET k == 1 (/) RTan(Rad(r.fov) (/) 2)
                x == (k (.) wl[1]) (/) wl[3] y == (k (.) wl[2]) (/) wl[3]
                edge(a, b) == Near(RAbs(a), b, "1e-7")
            IN IF wl[3] \prec "1e-5" THEN [v |-> Z3, doubt |-> wl[3] \succ "0.99e-5"]
               ELSE IF edge(x, ScrX(r)) \/ edge(y, ScrY(r)) THEN [v |-> Z3, doubt |-> TRUE]
               ELSE IF RAbs(x) \succ ScrX(r) \/ RAbs(y) \succ ScrY(r) THEN [v |-> Z3, doubt |-> FALSE]
               ELSE [v |-> MapAt(r, (x (+) ScrX(r)) (/) (2 (.) ScrX(r)), (y (+) ScrY(r)) (/) (2 (.) ScrY(r))), doubt |-> FALSE]
       [] r.kind = "gonio" ->
            LET u == <<wl[1], wl[3], wl[2]>>
            IN [v |-> MapAt(r, PhiOf(u) (/) (2 (.) PI), ThetaOf(u) (/) PI), doubt |-> FALSE]
\* the shadow query covers the segment from clearance eps to the far end (or without bound), at the sample's time
Shadow(r, wi, far) ==
  (IF ~VNear(r.vis.o, r.p, M9) \/ ~VNear(r.vis.d, wi, M9) THEN {"visibility-segment"} ELSE {})
  \cup (IF ~(r.vis.mint \doteq r.eps) \/ ~NearRel(r.vis.maxt, far, M9) THEN {"visibility-extent"} ELSE {})
  \cup (IF ~(r.vis.time \doteq r.time) THEN {"visibility-time"} ELSE {})
PointSample(r) ==
  LET d == VSub(Pos(r), r.p) l == Length(d) wi == Unit(d) f == Profile(r, VNeg(wi))
  IN (IF ~VNear(r.wi, wi, M9) THEN {"direction-to-light"} ELSE {})
     \cup (IF ~f.doubt /\ ~Col(r.v, CScale(1 (/) Len2(d), CProd(r.c, f.v))) THEN {"radiance-profile-and-falloff"} ELSE {})
     \cup (IF ~(r.pdf \doteq 1) THEN {"sampled-density"} ELSE {})
     \cup (IF ~(r.pdf2 \doteq 0) THEN {"no-density-elsewhere"} ELSE {})
     \cup Shadow(r, wi, l)
ConeCos(r) == IF r.kind = "spot" THEN RCos(Rad(r.width))
              ELSE LET t == RTan(Rad(r.fov) (/) 2) IN 1 (/) RSqrt(1 (+) ((t (.) t) (.) ((ScrX(r) (.) ScrX(r)) (+) (ScrY(r) (.) ScrY(r)))))
Sphere4 == "1" (/) (4 (.) PI)
\* r.warp: the declared warp of the random numbers (over the sphere, or over the cone of directions); rays keep their time
Leaving(r) == (IF ~(r.ray.time \doteq r.time) THEN {"leaving-ray-time"} ELSE {})
              \cup (IF ~(r.ray.maxt \doteq "inf") \/ r.ray.depth # 0 THEN {"leaving-ray-extent"} ELSE {})
              \cup (IF ~IsUnit(r.ray.d, M9) THEN {"leaving-ray-unit"} ELSE {})
PointEmit(r) ==
  LET cone == r.kind \in {"spot", "proj"}
      ct == Unit(MVec(r.mi, r.ray.d))[3]
      w == IF cone THEN MVec(r.m, r.warp) ELSE r.warp
      f == Profile(r, r.ray.d)
  IN Leaving(r)
     \cup (IF ~VNear(r.ray.o, Pos(r), M9) THEN {"leaves-from-the-light"} ELSE {})
     \cup (IF ~VNear(r.ray.d, w, M9) THEN {"leaving-direction"} ELSE {})
     \cup (IF cone /\ ct \prec (ConeCos(r) (-) M9) THEN {"leaves-inside-the-cone"} ELSE {})
     \cup (IF ~NearRel(r.pdf, IF cone THEN 1 (/) ((2 (.) PI) (.) (1 (-) ConeCos(r))) ELSE Sphere4, M9) THEN {"leaving-density"} ELSE {})
     \cup (IF ~VNear(r.n, r.ray.d, M9) THEN {"leaving-normal"} ELSE {})
     \cup (IF ~f.doubt /\ ~Col(r.v, CProd(r.c, f.v)) THEN {"leaving-radiance"} ELSE {})
\* ---- distant ----
Ctr(b) == CScale("1/2", VAdd(b.lo, b.hi))
BRad(b) == Length(VSub(b.hi, Ctr(b)))
DistantSample(r) ==
  LET wi == Unit(MVec(r.m, r.di))
  IN (IF ~VNear(r.wi, wi, M9) THEN {"direction-to-light"} ELSE {})
     \cup (IF ~Col(r.v, r.c) THEN {"radiance-profile-and-falloff"} ELSE {})
     \cup (IF ~(r.pdf \doteq 1) THEN {"sampled-density"} ELSE {})
     \cup (IF ~(r.pdf2 \doteq 0) THEN {"no-density-elsewhere"} ELSE {})
     \cup Shadow(r, wi, "inf")
\* the origin lies on the disk facing direction d just outside the scene, at the radius the declared disk warp gives
OnDisk(r, d) ==
  LET off == VSub(r.ray.o, Ctr(r.box)) rad == BRad(r.box)
      along == Dot(off, d) perp == VSub(off, VMul(along, d))
  IN Near(along, RNeg(rad), "1e-9" (.) RMax(1, rad))
     /\ Near(Length(perp), rad (.) RSqrt((r.disk[1] (.) r.disk[1]) (+) (r.disk[2] (.) r.disk[2])), "1e-8" (.) RMax(1, rad))
DistantEmit(r) ==
  LET d == VNeg(Unit(MVec(r.m, r.di))) rad == BRad(r.box)
  IN Leaving(r)
     \cup (IF ~VNear(r.ray.d, d, M9) THEN {"leaving-direction"} ELSE {})
     \cup (IF ~OnDisk(r, d) THEN {"leaves-from-the-light"} ELSE {})
     \cup (IF ~NearRel(r.pdf, 1 (/) (PI (.) (rad (.) rad)), M9) THEN {"leaving-density"} ELSE {})
     \cup (IF ~VNear(r.n, r.ray.d, M9) THEN {"leaving-normal"} ELSE {})
     \cup (IF ~Col(r.v, r.c) THEN {"leaving-radiance"} ELSE {})
\* ---- area lights; r.parts: area, sampled point and normal, density towards r.wi of every member shape ----
RECURSIVE AreaTo(_, _)
AreaTo(r, k) == IF k = 0 THEN "0" ELSE AreaTo(r, k - 1) (+) r.parts[k].area
Area(r) == AreaTo(r, Len(r.parts))
Pick(r) == CHOOSE k \in 1..Len(r.parts) : /\ AreaTo(r, k - 1) \preceq (r.ucom (.) Area(r))
                                          /\ (k = Len(r.parts) \/ AreaTo(r, k) \succ (r.ucom (.) Area(r)))
PickSure(r) == \A k \in 1..(Len(r.parts) - 1) : ~Near(AreaTo(r, k) (/) Area(r), r.ucom, M9)
RECURSIVE DensTo(_, _)
DensTo(r, k) == IF k = 0 THEN "0" ELSE DensTo(r, k - 1) (+) (r.parts[k].area (.) r.parts[k].dens)
AreaSample(r) ==
  LET q == r.parts[Pick(r)] d == VSub(q.pt, r.p) l == Length(d) wi == Unit(d)
      side == Dot(q.n, VNeg(wi))
      dens == DensTo(r, Len(r.parts)) (/) Area(r)
  IN IF ~PickSure(r) \/ l \prec "1e-6" THEN {} ELSE
     (IF ~VNear(r.wi, wi, M9) THEN {"direction-to-light"} ELSE {})
     \cup (IF RAbs(side) \succ M9 /\ ~Col(r.v, IF side \succ 0 THEN r.c ELSE Z3) THEN {"one-sided-radiance"} ELSE {})
     \cup (IF ~NearRel(r.pdf, dens, M9) THEN {"sampled-density"} ELSE {})
     \cup (IF ~NearRel(r.pdf2, r.pdf, M9) THEN {"density-agrees-with-sampling"} ELSE {})
     \cup Shadow(r, wi, l (.) (1 (-) "1e-5"))
AreaEmit(r) ==
  LET q == r.parts[Pick(r)] side == Dot(r.warp, q.n)
      d == IF side \prec 0 THEN VNeg(r.warp) ELSE r.warp
  IN IF ~PickSure(r) THEN {} ELSE
     Leaving(r)
     \cup (IF ~VNear(r.ray.o, q.pt, M9) THEN {"leaves-from-the-light"} ELSE {})
     \cup (IF ~VNear(r.n, q.n, M9) THEN {"leaving-normal"} ELSE {})
     \cup (IF RAbs(side) \succ M9 /\ ~VNear(r.ray.d, d, M9) THEN {"leaving-direction"} ELSE {})
     \cup (IF ~(r.ray.mint \succ 0) THEN {"leaving-ray-extent"} ELSE {})
     \cup (IF ~NearRel(r.pdf, 1 (/) ((2 (.) PI) (.) Area(r)), M9) THEN {"leaving-density"} ELSE {})
     \cup (IF RAbs(side) \succ M9 /\ ~Col(r.v, r.c) THEN {"leaving-radiance"} ELSE {})
AreaSide(r) == LET s == Dot(r.n, r.w) IN IF Near(s, 0, M9) \/ Col(r.v, IF s \succ 0 THEN r.c ELSE Z3) THEN {} ELSE {"one-sided-radiance"}
\* ---- environment ----
EnvAt(r, w) == LET v == Unit(MVec(r.mi, w)) IN IF r.map = <<>> THEN r.c ELSE MapAt(r, PhiOf(v) (/) (2 (.) PI), ThetaOf(v) (/) PI)
\* r.grid[v][u]: the light's density at the centre of cell (u, v), turned to a density over the unit square
Nu(r) == Len(r.grid[1])
Nv(r) == Len(r.grid)
RECURSIVE RowTo(_, _)
RowTo(row, k) == IF k = 0 THEN "0" ELSE RowTo(row, k - 1) (+) row[k]
RowSum(r, v) == RowTo(r.grid[v], Nu(r))
RECURSIVE ColTo(_, _)
ColTo(r, v) == IF v = 0 THEN "0" ELSE ColTo(r, v - 1) (+) RowSum(r, v)
\* inverse of a piecewise-constant distribution: [x, sure], cum(k) being the unnormalised sum of the first k of n cells
Inverse(cum(_), n, u) ==
  LET tot == cum(n)
      k == CHOOSE k \in 1..n : cum(k - 1) \preceq (u (.) tot) /\ (cum(k) \succ (u (.) tot) \/ k = n)
  IN [k |-> k, x |-> ((k - 1) (+) (((u (.) tot) (-) cum(k - 1)) (/) (cum(k) (-) cum(k - 1)))) (/) n,
      sure |-> \A j \in 0..n : ~Near(cum(j) (/) tot, u, "1e-9")]
EnvUV(r) ==
  LET v == Inverse(LAMBDA k : ColTo(r, k), Nv(r), r.u[2])
      u == Inverse(LAMBDA k : RowTo(r.grid[v.k], k), Nu(r), r.u[1])
  IN [u |-> u.x, v |-> v.x, sure |-> u.sure /\ v.sure, d |-> r.grid[v.k][u.k]]
EnvDir(r, q) == LET t == q.v (.) PI p == (2 (.) PI) (.) q.u IN MVec(r.m, <<RSin(t) (.) RCos(p), RSin(t) (.) RSin(p), RCos(t)>>)
EnvDens(q) == q.d (/) ((2 (.) (PI (.) PI)) (.) RSin(q.v (.) PI))
\* a wholly black environment has nothing to sample: no density, no radiance
Dark(r) == ColTo(r, Nv(r)) \doteq 0
DarkFails(r) == (IF ~Col(r.v, Z3) THEN {"radiance-profile-and-falloff"} ELSE {}) \cup (IF ~(r.pdf \doteq 0) THEN {"sampled-density"} ELSE {})
EnvSample(r) ==
  IF Dark(r) THEN DarkFails(r) ELSE
  LET q == EnvUV(r) wi == EnvDir(r, q)
  IN IF ~q.sure THEN {} ELSE
     (IF ~VNear(r.wi, wi, "1e-7") THEN {"direction-drawn-from-its-density"} ELSE {})
     \cup (IF ~Col(r.v, EnvAt(r, r.wi)) THEN {"radiance-profile-and-falloff"} ELSE {})
     \cup (IF ~NearRel(r.pdf, EnvDens(q), "1e-6") THEN {"sampled-density"} ELSE {})
     \cup (IF ~NearRel(r.pdf2, r.pdf, "1e-6") THEN {"density-agrees-with-sampling"} ELSE {})
     \cup Shadow(r, r.wi, "inf")
EnvEmit(r) ==
  IF Dark(r) THEN DarkFails(r) ELSE
  LET q == EnvUV(r) d == VNeg(EnvDir(r, q)) rad == BRad(r.box)
  IN IF ~q.sure THEN {} ELSE
     Leaving(r)
     \cup (IF ~VNear(r.ray.d, d, "1e-7") THEN {"leaving-direction"} ELSE {})
     \cup (IF ~OnDisk(r, r.ray.d) THEN {"leaves-from-the-light"} ELSE {})
     \cup (IF ~NearRel(r.pdf, EnvDens(q) (/) (PI (.) (rad (.) rad)), "1e-6") THEN {"leaving-density"} ELSE {})
     \cup (IF ~VNear(r.n, r.ray.d, M9) THEN {"leaving-normal"} ELSE {})
     \cup (IF ~Col(r.v, EnvAt(r, VNeg(r.ray.d))) THEN {"leaving-radiance"} ELSE {})
EnvGrid(r) == IF Dark(r) /\ r.map = <<>> /\ Col(r.c, Z3) THEN {} ELSE LET s == ColTo(r, Nv(r)) IN IF NearRel(s (/) (Nu(r) * Nv(r)), 1, "1e-6") THEN {} ELSE {"density-integrates-to-one"}
\* ---- power ----
MapMin(r, k) == RNeg(SetMax({RNeg(r.map[t][s][k]) : t \in 1..Len(r.map), s \in 1..Len(r.map[1])}))
MapMax(r, k) == SetMax({r.map[t][s][k] : t \in 1..Len(r.map), s \in 1..Len(r.map[1])})
Factor(r) == CASE r.kind = "point" -> 4 (.) PI
               [] r.kind = "spot" -> (2 (.) PI) (.) (1 (-) ((RCos(Rad(r.width)) (+) RCos(Rad(r.fall))) (/) 2))
               [] r.kind = "proj" -> (2 (.) PI) (.) (1 (-) ConeCos(r))
               [] r.kind = "gonio" -> 4 (.) PI
               [] r.kind \in {"distant", "env"} -> PI (.) (BRad(r.box) (.) BRad(r.box))
               [] r.kind = "area" -> PI (.) Area(r)
\* an area light is its whole shape: the mesh's triangles r.tris, or a quadric of area r.whole
Tri2(t) == Length(Cross(VSub(t[2], t[1]), VSub(t[3], t[1]))) (/) 2
Whole(r) == IF r.tris = <<>> THEN r.whole ELSE RSum([k \in 1..Len(r.tris) |-> Tri2(r.tris[k])])
MemberFails(r) == IF r.kind = "area" /\ ~NearRel(Area(r), Whole(r), M9) THEN {"light-is-its-whole-shape"} ELSE {}
PowerFails(r) ==
  LET c == IF r.kind = "env" /\ r.map # <<>> THEN One3 ELSE r.c
      base == CScale(Factor(r), c)
  IN IF r.map = <<>> THEN IF Col(r.v, base) THEN {} ELSE {"power"}
     ELSE IF \A k \in 1..3 : /\ r.v[k] \succeq (base[k] (.) (MapMin(r, k) (.) "0.999999"))
                             /\ r.v[k] \preceq (base[k] (.) (MapMax(r, k) (.) "1.000001")) THEN {} ELSE {"power"}
MaxRGB(v) == RMax(v[1], RMax(v[2], v[3]))
P23Fails(r) ==
  IF r.err # "" THEN {"light-raised"} ELSE
  CASE r.op = "sample" -> (IF r.kind = "distant" THEN DistantSample(r) ELSE IF r.kind = "area" THEN AreaSample(r) ELSE IF r.kind = "env" THEN EnvSample(r) ELSE PointSample(r))
    [] r.op = "emit" -> (IF r.kind = "distant" THEN DistantEmit(r) ELSE IF r.kind = "area" THEN AreaEmit(r) ELSE IF r.kind = "env" THEN EnvEmit(r) ELSE PointEmit(r))
    [] r.op = "power" -> PowerFails(r) \cup MemberFails(r)
    [] r.op = "side" -> AreaSide(r)
    [] r.op = "grid" -> EnvGrid(r)
    [] r.op = "le" -> (IF Col(r.v, IF r.kind = "env" THEN EnvAt(r, r.w) ELSE Z3) THEN {} ELSE {"escaping-rays-see-only-the-environment"})
                      \cup (IF r.kind = "env" /\ MaxRGB(r.v) \succ "1e-6" /\ RAbs(MVec(r.mi, r.w)[3]) \prec "0.9999" /\ ~(r.dens \succ 0) THEN {"light-arrives-from-directions-never-sampled"} ELSE {})
                      \cup (IF r.delta # (r.kind \in {"point", "spot", "proj", "gonio", "distant"}) THEN {"point-like-lights-say-so"} ELSE {})
==============================================================================
