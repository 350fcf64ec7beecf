------------------------------ MODULE Geometry ------------------------------
(* Transforms, animated transforms, boxes and rays.                          *)
EXTENDS Lin
\* ---- P14 ----
Mag(m) == RMax(1, MaxAbsM(m))
ComposeFails(r) ==
  IF r.err # "" THEN {"compose-raised"} ELSE
  LET M == Prod(r.es, Len(r.es))
      ref == IF r.inv THEN r.mi ELSE r.m
  IN (IF ~MNear(ref, M, "1e-9" (.) Mag(M)) THEN {"matrix-of-" \o (IF Len(r.es) = 1 THEN r.es[1].k ELSE "composition")} ELSE {})
     \cup (IF ~MNear(MMul(r.m, r.mi), Id4, "1e-9" (.) (Mag(r.m) (.) Mag(r.mi))) THEN {"inverse-undoes"} ELSE {})
Tol(m, a) == "1e-10" (.) (Mag(m) (.) RMax(1, a))
ApplyFails(r) ==
  IF r.err # "" THEN {"apply-raised"} ELSE
  CASE r.k = "point" ->
         LET w == MW(r.m, r.a) IN
         IF RAbs(w) \prec "1e-6" THEN {} ELSE
         IF ~VNear(r.b, MPt(r.m, r.a), Tol(r.m, MaxAbs3(r.a)) (/) RMin(1, RAbs(w))) THEN {"point-law"} ELSE {}
    [] r.k = "vector" -> IF ~VNear(r.b, MVec(r.m, r.a), Tol(r.m, MaxAbs3(r.a))) THEN {"vector-law"} ELSE {}
    [] r.k = "normal" -> (IF ~VNear(r.b, MNorm(r.mi, r.a), Tol(r.mi, MaxAbs3(r.a))) THEN {"normal-law"} ELSE {})
                         \cup (IF ~Near(Dot(r.b, r.tb), Dot(r.a, r.ta), "1e-8" (.) ((Mag(r.m) (.) Mag(r.mi)) (.) RMax(1, MaxAbs3(r.a) (.) MaxAbs3(r.ta)))) THEN {"normals-stay-perpendicular"} ELSE {})
    [] r.k = "box" ->
         LET tol == Tol(r.m, MaxAbs3(r.a.lo) (+) MaxAbs3(r.a.hi))
             bounds(b) == \A c \in Corners(r.a) : BInTol(b, MPt(r.m, c), tol)
             tight(b) == \A k \in 1..3 : (\E c \in Corners(r.a) : Near(b.lo[k], MPt(r.m, c)[k], tol)) /\ (\E c \in Corners(r.a) : Near(b.hi[k], MPt(r.m, c)[k], tol))
             two == VNear(r.b.lo, MPt(r.m, r.a.lo), tol) /\ VNear(r.b.hi, MPt(r.m, r.a.hi), tol)
         IN (IF bounds(r.b) THEN {} ELSE IF two THEN {"box-spans-only-two-opposite-corners"} ELSE {"box-contains-images"})
            \cup (IF r.hasbd /\ ~bounds(r.bd) THEN {"bound-contains-images"} ELSE {})
            \cup (IF r.hasbd /\ ~tight(r.bd) THEN {"bound-is-tight"} ELSE {})
    [] r.k = "ray" ->
         (IF ~(VNear(r.b.o, MPt(r.m, r.a.o), Tol(r.m, MaxAbs3(r.a.o))) /\ VNear(r.b.d, MVec(r.m, r.a.d), Tol(r.m, MaxAbs3(r.a.d)))) THEN {"ray-images-at-same-parameters"} ELSE {})
         \cup (IF ~(r.b.mint \doteq r.a.mint /\ r.b.maxt \doteq r.a.maxt /\ r.b.depth = r.a.depth /\ r.b.time \doteq r.a.time) THEN {"ray-keeps-interval-depth-time"} ELSE {})
         \cup (IF r.diff /\ ~(r.b.has = r.a.has
                  /\ (r.a.has => (VNear(r.b.rxo, MPt(r.m, r.a.rxo), Tol(r.m, MaxAbs3(r.a.rxo))) /\ VNear(r.b.ryo, MPt(r.m, r.a.ryo), Tol(r.m, MaxAbs3(r.a.ryo)))
                  /\ VNear(r.b.rxd, MVec(r.m, r.a.rxd), Tol(r.m, MaxAbs3(r.a.rxd))) /\ VNear(r.b.ryd, MVec(r.m, r.a.ryd), Tol(r.m, MaxAbs3(r.a.ryd))))))
               THEN {"auxiliary-rays-carried"} ELSE {})
    [] r.k = "hand" -> LET d == Det3(r.m) size(k) == RSqrt(Len2(<<r.m[1][k], r.m[2][k], r.m[3][k]>>)) IN
                       IF RAbs(d) \succ ("1e-6" (.) (size(1) (.) (size(2) (.) size(3)))) /\ r.swap # (d \prec 0) THEN {"handedness"} ELSE {}
    [] r.k = "kind" -> {"operand-of-other-kind-accepted"}
TypeFails(r) == IF r.err = "" /\ ~r.typeok THEN {"result-kind"} ELSE {}
KeepFails(r) == IF r.err = "" /\ ~r.keep THEN {"operand-left-alone"} ELSE {}
P14Fails(r) == CASE r.op = "compose" -> ComposeFails(r)
                 [] r.op = "apply" -> ApplyFails(r) \cup TypeFails(r) \cup KeepFails(r)
                 [] OTHER -> {}

\* ---- P15: a pose is translate(t) * R * diag(s); the second pose's rotation is R1 * rot(axis, deg) ----
PoseAt(r, u) ==
  LET t == VAdd(VMul(1 (-) u, r.t1), VMul(u, r.t2))
      R == MMul(RotM(r.ang, r.ax), RotM(u (.) r.deg, r.axis))
      s == VAdd(VMul(1 (-) u, r.s1), VMul(u, r.s2))
  IN MMul(Translate(t), MMul(R, ScaleM(s)))
Frac(r, time) == IF time \preceq r.tm1 THEN "0" ELSE IF time \succeq r.tm2 THEN "1" ELSE (time (-) r.tm1) (/) (r.tm2 (-) r.tm1)
AnimFails(r) ==
  IF r.err # "" THEN {"animated-raised"} ELSE
  LET u == Frac(r, r.time)
      M == PoseAt(r, u)
      tol == "2e-6" (.) Mag(M)
  IN (IF ~MNear(r.m, M, tol) THEN {IF u \doteq 0 \/ u \doteq 1 THEN "end-pose" ELSE "interpolated-pose"} ELSE {})
     \cup (IF ~VNear(r.qp, MPt(r.m, r.p), Tol(r.m, MaxAbs3(r.p))) \/ ~VNear(r.qv, MVec(r.m, r.v), Tol(r.m, MaxAbs3(r.v))) THEN {"point-or-vector-at-time"} ELSE {})
     \cup (IF ~VNear(r.ro, MPt(r.m, r.p), Tol(r.m, MaxAbs3(r.p))) \/ ~VNear(r.rd, MVec(r.m, r.v), Tol(r.m, MaxAbs3(r.v))) THEN {"ray-at-its-time"} ELSE {})
     \cup (IF ~r.pkeep THEN {"operands-left-alone"} ELSE {})
     \cup (IF ~r.rkeep THEN {"ray-keeps-interval-depth-time"} ELSE {})
\* r.poses: the interpolated matrices (or their inverses) at sampled times
MotionFails(r) ==
  IF r.err # "" THEN {"motion-bound-raised"} ELSE
  IF \E k \in 1..Len(r.poses) : \E c \in Corners(r.box) :
       ~BInTol(r.bound, MPt(r.poses[k], c), "1e-3" (.) RMax(1, RMax(MaxAbs3(BExt(r.bound)), MaxAbs3(c)))) THEN {"motion-bound-contains-motion"} ELSE {}
StaticFails(r) == IF r.err # "" THEN {"static-raised"} ELSE
  (IF ~MNear(r.m, r.m0, 0) THEN {"static-pose"} ELSE {}) \cup (IF r.animated THEN {"static-not-animated"} ELSE {})
QuatFails(r) == IF r.err # "" THEN {"quaternion-raised"} ELSE IF ~MNear(r.m, r.m0, "1e-7") THEN {"quaternion-round-trip"} ELSE {}
P15Fails(r) == CASE r.op = "anim" -> AnimFails(r) [] r.op = "motion" -> MotionFails(r) [] r.op = "static" -> StaticFails(r) [] r.op = "quat" -> QuatFails(r) [] OTHER -> {}

\* ---- P16 ----
\* exact parameter interval in which the ray is in the closed box, clipped to [mint, maxt]; "no" or <<t0, t1>>
RECURSIVE Clip(_, _, _, _)
Clip(b, ray, k, iv) ==
  IF k > 3 THEN iv
  ELSE IF ray.d[k] \doteq 0
       THEN IF b.lo[k] \preceq ray.o[k] /\ ray.o[k] \preceq b.hi[k] THEN Clip(b, ray, k + 1, iv) ELSE <<"1", "0">>
       ELSE LET p == (b.lo[k] (-) ray.o[k]) (/) ray.d[k]
                q == (b.hi[k] (-) ray.o[k]) (/) ray.d[k]
            IN Clip(b, ray, k + 1, <<RMax(iv[1], RMin(p, q)), RMin(iv[2], RMax(p, q))>>)
Interval(b, ray) == Clip(b, ray, 1, <<ray.mint, ray.maxt>>)
Grow(b, e) == [lo |-> [k \in 1..3 |-> b.lo[k] (-) e], hi |-> [k \in 1..3 |-> b.hi[k] (+) e]]
HitFails(r) ==
  IF r.err # "" THEN {"ray-box-raised"} ELSE
  IF BEmpty(r.box) THEN (IF r.hit THEN {"hits-box-it-does-not-meet"} ELSE {}) ELSE
  LET iv == Interval(r.box, r.ray)
      e == "1e-9" (.) RMax(1, RMax(MaxAbs3(r.ray.o), RMax(MaxAbs3(r.box.lo), MaxAbs3(r.box.hi))))
      fat == Interval(Grow(r.box, e), r.ray)
      flat(k) == r.box.lo[k] \doteq r.box.hi[k]
      shrunk == [lo |-> [k \in 1..3 |-> IF flat(k) THEN r.box.lo[k] ELSE r.box.lo[k] (+) e], hi |-> [k \in 1..3 |-> IF flat(k) THEN r.box.hi[k] ELSE r.box.hi[k] (-) e]]
      inner == \A k \in 1..3 : shrunk.lo[k] \preceq shrunk.hi[k]
      thin == Interval(shrunk, r.ray)
      \* the ray passes through the box, and not only along its boundary
      sure == inner /\ (IF \E k \in 1..3 : flat(k) THEN thin[1] \preceq thin[2] /\ (\A k \in 1..3 : flat(k) => ~(r.ray.d[k] \doteq 0))
                          /\ ("1e-9" \prec RAbs(thin[1] (-) r.ray.mint)) /\ ("1e-9" \prec RAbs(thin[2] (-) r.ray.maxt))
                        ELSE (thin[1] (+) "1e-9") \preceq thin[2])
      never == fat[1] \succ (fat[2] (+) "1e-9")
  IN (IF sure /\ ~r.hit THEN {"misses-box-it-meets"} ELSE {})
     \cup (IF never /\ r.hit THEN {"hits-box-it-does-not-meet"} ELSE {})
     \cup (IF sure /\ r.hit /\ ~(NearRel(r.t0, iv[1], "1e-9") /\ NearRel(r.t1, iv[2], "1e-9")) THEN {"entry-and-exit"} ELSE {})
     \cup (IF ~r.keep THEN {"ray-left-alone"} ELSE {})
BoxFails(r) ==
  IF r.err # "" THEN {"box-raised"} ELSE
  LET E == BExt(r.a)
      big == SetMax({E[1], E[2], E[3]})
      full == ~BEmpty(r.a)
      sz == RMax(1, RMax(MaxAbs3(r.a.lo), MaxAbs3(r.a.hi)))
      t9 == "1e-10" (.) (sz (.) sz)
  IN (IF ~BEq(r.ab, BUnion(r.a, r.b)) \/ ~BEq(r.iab, r.ab) THEN {"union-is-least-box"} ELSE {})
     \cup (IF ~BEq(r.ab, r.ba) THEN {"union-commutes"} ELSE {})
     \cup (IF ~BEq(r.abc1, r.abc2) THEN {"union-associates"} ELSE {})
     \cup (IF ~BEq(r.aa, r.a) \/ ~BEq(r.ae, r.a) THEN {"union-idempotent-empty-identity"} ELSE {})
     \cup (IF ~BEq(r.ap, BUnion(r.a, [lo |-> r.p, hi |-> r.p])) THEN {"union-with-point"} ELSE {})
     \cup (IF r.inside # BIn(r.a, r.p) THEN {"inside"} ELSE {})
     \cup (IF r.overlaps # (\A k \in 1..3 : r.a.hi[k] \succeq r.b.lo[k] /\ r.a.lo[k] \preceq r.b.hi[k]) THEN {"overlaps"} ELSE {})
     \cup (IF r.eq # BEq(r.a, r.b) THEN {"equal"} ELSE {})
     \cup (IF ~BEq(r.by_index, r.a) THEN {"corners-by-index"} ELSE {})
     \cup (IF r.ne # ~BEq(r.a, r.b) THEN {"unequal"} ELSE {})
     \cup (IF full /\ ~Near(r.area, 2 (.) (((E[1] (.) E[2]) (+) (E[2] (.) E[3])) (+) (E[1] (.) E[3])), t9) THEN {"surface-area"} ELSE {})
     \cup (IF full /\ ~Near(r.vol, (E[1] (.) E[2]) (.) E[3], t9 (.) sz) THEN {"volume"} ELSE {})
     \cup (IF full /\ ~(E[r.axis + 1] \doteq big) THEN {"longest-axis"} ELSE {})
     \cup (IF full /\ ~(\A k \in 1..3 : Near(r.grown.lo[k], r.a.lo[k] (-) r.by, t9) /\ Near(r.grown.hi[k], r.a.hi[k] (+) r.by, t9)) THEN {"expand"} ELSE {})
     \cup (IF full /\ ~(\A k \in 1..3 : Near(r.lerp[k], r.a.lo[k] (+) (r.tt[k] (.) E[k]), t9)) THEN {"lerp"} ELSE {})
     \cup (IF full /\ (\A k \in 1..3 : E[k] \succ 0) /\ ~(\A k \in 1..3 : Near(r.off[k] (.) E[k], r.p[k] (-) r.a.lo[k], "1e-9" (.) (sz (.) sz))) THEN {"offset"} ELSE {})
     \cup (IF full /\ ~(\A c \in Corners(r.a) : Len2(VSub(c, r.sphc)) \preceq ((r.sphr (.) r.sphr) (+) ("1e-9" (.) (sz (.) sz)))) THEN {"bounding-sphere-contains"} ELSE {})
     \cup (IF full /\ ~((4 (.) (r.sphr (.) r.sphr)) \preceq (Len2(E) (+) ("1e-8" (.) (sz (.) sz)))) THEN {"bounding-sphere-tight"} ELSE {})
     \cup (IF ~r.keep THEN {"operands-left-alone"} ELSE {})
P16Fails(r) == CASE r.op = "box" -> BoxFails(r) [] r.op = "raybox" -> HitFails(r) [] OTHER -> {}

\* ---- P36: a chain of ray operations, replayed on the specification ----
\* state of a ray
RayEq(a, b, tol) == /\ VNear(a.o, b.o, tol) /\ VNear(a.d, b.d, tol) /\ a.mint \doteq b.mint /\ a.maxt \doteq b.maxt
                    /\ a.depth = b.depth /\ a.time \doteq b.time
AuxEq(a, b, tol) == a.has = b.has /\ (~a.has \/ \A f \in {"rxo", "ryo", "rxd", "ryd"} : VNear(a[f], b[f], tol))
ScaleAux(a, s) == [a EXCEPT !.rxo = VAdd(a.o, VMul(s, VSub(a.rxo, a.o))), !.ryo = VAdd(a.o, VMul(s, VSub(a.ryo, a.o))),
                            !.rxd = VAdd(a.d, VMul(s, VSub(a.rxd, a.d))), !.ryd = VAdd(a.d, VMul(s, VSub(a.ryd, a.d)))]
NoAux(a) == [a EXCEPT !.has = FALSE, !.rxo = Zero3, !.ryo = Zero3, !.rxd = Zero3, !.ryd = Zero3]
After(a, s) == \* the ray a becomes
  CASE s.k = "copy" -> a
    [] s.k = "plain" -> NoAux(a)          \* built from a ray without its auxiliary rays
    [] s.k = "spawn" -> [NoAux(a) EXCEPT !.o = s.o, !.d = s.d, !.mint = s.mint, !.maxt = s.maxt, !.depth = a.depth + 1]
    [] s.k = "scale" -> ScaleAux(a, s.s)
    [] s.k = "edit" -> [a EXCEPT !.o = s.o, !.d = s.d, !.maxt = s.maxt, !.rxo = s.o, !.ryo = s.o, !.rxd = s.d, !.ryd = s.d]
RECURSIVE ChainFails(_, _, _)
ChainFails(r, a, k) ==
  IF k > Len(r.steps) THEN {}
  ELSE LET s == r.steps[k]
           e == After(a, s)
           f == (IF ~RayEq(s.got, e, "1e-11" (.) RMax(1, RMax(MaxAbs3(e.o), MaxAbs3(e.d)))) THEN {"ray-fields-after-" \o s.k} ELSE {})
                \cup (IF r.diff /\ ~AuxEq(s.got, e, "1e-9" (.) RMax(1, RMax(MaxAbs3(e.rxo), MaxAbs3(e.ryo)))) THEN {"auxiliary-rays-after-" \o s.k} ELSE {})
                \cup (IF ~s.parent THEN {"source-ray-changed-by-" \o s.k} ELSE {})
                \cup (IF ~VNear(s.at, VAdd(s.got.o, VMul(s.t, s.got.d)), "1e-10" (.) RMax(1, MaxAbs3(s.at))) THEN {"point-at-parameter"} ELSE {})
                \cup (IF ~s.atpoint THEN {"point-at-parameter-is-a-point"} ELSE {})
       IN f \cup ChainFails(r, s.got, k + 1)
AffineFails(r) ==
  (IF r.err # r.expecterr THEN {"affine-typing-" \o r.k} ELSE {})
  \cup (IF r.err = "" /\ r.expecterr = "" /\ r.kind # r.expectkind THEN {"affine-kind-" \o r.k} ELSE {})
  \cup (IF r.err = "" /\ r.expecterr = "" /\ ~VNear(r.v, IF r.k \in {"p-p", "p-v", "v-v"} THEN VSub(r.a, r.b) ELSE VAdd(r.a, r.b), "1e-12" (.) RMax(1, RMax(MaxAbs3(r.a), MaxAbs3(r.b)))) THEN {"affine-value-" \o r.k} ELSE {})
P36Fails(r) == CASE r.op = "chain" -> (IF r.err # "" THEN {"ray-raised"} ELSE ChainFails(r, r.start, 1)) [] r.op = "affine" -> AffineFails(r) [] OTHER -> {}
==============================================================================
