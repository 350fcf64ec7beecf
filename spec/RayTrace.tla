------------------------------ MODULE RayTrace ------------------------------
(* Whole renderings (P39): the radiance of a camera sample is what recursive   *)
(* ray tracing of the scene gives.  The reference below follows each ray to    *)
(* the nearest surface, adds what the surface emits and what it reflects from  *)
(* the unoccluded lights, and follows the mirrored and the refracted ray.      *)
(*   r.shapes[k]  kind, extent (as in Shapes; "tri": corners v, coordinates    *)
(*                uv, corner normals n or none), placement m / mi, motion mv,  *)
(*                material mat, light it carries (emit, 0: none)               *)
(*   r.lights[k]  as in Light, plus "area" (carried by shapes) and "sky"       *)
(*   r.smp[k]     film position, lens point and time of a sample, radiance L   *)
(* Only what the scene determines is judged: a ray that passes a border by     *)
(* less than rounding, or a light estimate that depends on random numbers,     *)
(* makes the sample undetermined.                                              *)
EXTENDS Material
LOCAL Sh == INSTANCE Shapes
LOCAL Li == INSTANCE Light
LOCAL Ca == INSTANCE Camera
RV(v) == <<RRound(v[1], 160), RRound(v[2], 160), RRound(v[3], 160)>>
Off(s, time) ==
  LET x == RMax(0, RMin(1, (time (-) s.mv.t0) (/) (s.mv.t1 (-) s.mv.t0)))
  IN [k \in 1..3 |-> RRound(((1 (-) x) (.) s.mv.d0[k]) (+) (x (.) s.mv.d1[k]), 160)]
\* placements at a time
Placed(r, time) == TLCEval(
  [k \in 1..Len(r.shapes) |->
     LET s == r.shapes[k] IN
     IF ~s.moves THEN [m |-> s.m, mi |-> s.mi]
     ELSE LET d == Off(s, time) IN [m |-> MMul(Translate(d), s.m), mi |-> MMul(s.mi, Translate(VNeg(d)))]])
Corner(M, s) == <<MPt(M.m, s.v[1]), MPt(M.m, s.v[2]), MPt(M.m, s.v[3])>>
\* near the start of a ray: ignored below Skip (the surface it left), undecided up to Band
Skip == "1e-6"
Band == "1/50"
\* a triangle, less what its alpha texture cuts away
Sheet(s, v, q0) ==
  LET x == Sh!TriExpected([ray |-> q0, exact |-> FALSE], v)
      c == IF x.k # "hit" \/ s.cut = <<>> THEN "out" ELSE Sh!Cut3(s.cut, Sh!Bary(x.b, s.uv, 2), Sh!Bary(x.b, v, 3), "1e-5")
  IN IF x.k # "hit" THEN x.k ELSE IF c = "out" THEN x.t ELSE IF c = "in" THEN "miss" ELSE "doubt"
\* "doubt", "miss" or the parameter of the first hit on one shape
Meets(s, M, ray) ==
  LET q0 == [mint |-> ray.lo, maxt |-> "inf", o |-> ray.o, d |-> ray.d]
      e == IF s.kind = "tri" THEN Sheet(s, Corner(M, s), q0)
           ELSE Sh!Expected(s, q0, [o |-> RV(MPt(M.mi, ray.o)), d |-> MVec(M.mi, ray.d)])
  IN IF e \in {"doubt", "miss"} THEN e ELSE IF e \prec ray.band THEN "doubt" ELSE e
Found(r, P, ray) == TLCEval([k \in 1..Len(r.shapes) |-> Meets(r.shapes[k], P[k], ray)])
\* the nearest: [k, t], k = 0 for none, k = -1 when undecided
Nearest(f) ==
  IF \E k \in DOMAIN f : f[k] = "doubt" THEN [k |-> -1, t |-> "0"]
  ELSE LET H == {k \in DOMAIN f : f[k] # "miss"} IN
       IF H = {} THEN [k |-> 0, t |-> "inf"]
       ELSE LET b == CHOOSE k \in H : \A j \in H : f[k] \preceq f[j]
            IN IF \E j \in H \ {b} : NearRel(f[j], f[b], "1e-6") THEN [k |-> -1, t |-> "0"] ELSE [k |-> b, t |-> f[b]]
\* occlusion of the open segment of length far (may be "inf"): "yes", "no", "doubt"
Blocked(f, far) ==
  IF \E k \in DOMAIN f : f[k] \notin {"doubt", "miss"} /\ (far = "inf" \/ f[k] \prec (far (-) "1e-3")) THEN "yes"
  ELSE IF \E k \in DOMAIN f : f[k] # "miss" /\ (f[k] = "doubt" \/ f[k] \prec (far (+) "1e-3")) THEN "doubt" ELSE "no"
\* the surface at a hit: point, geometric normal ng, shading normal nn, texture coordinates, and whether rounding could tell otherwise
Surface(s, M, ray, t) ==
  LET p == RV(VAdd(ray.o, VMul(t, ray.d)))
      flip == s.ro # (Det3(M.m) \prec 0)
  IN IF s.kind = "tri"
     THEN LET v == Corner(M, s)
              b == Sh!TriExpected([ray |-> [mint |-> ray.lo, maxt |-> "inf", o |-> ray.o, d |-> ray.d], exact |-> FALSE], v).b
              g == Cross(VSub(v[2], v[1]), VSub(v[3], v[1]))
              n == Unit(IF flip # (Sh!UVDet(s.uv) \prec 0) THEN VNeg(g) ELSE g)
              sn == IF s.n = <<>> THEN n ELSE Sh!SignRo(flip, Unit(MNorm(M.mi, Sh!Bary(b, s.n, 3))))
              tuv == Sh!Bary(b, s.uv, 2)
          IN [p |-> p, ng |-> RV(n), nn |-> RV(sn), u |-> RRound(tuv[1], 160), v |-> RRound(tuv[2], 160), ok |-> TRUE]
     ELSE LET q == RV(MPt(M.mi, p))
              n == RV(Sh!SignRo(s.ro, Unit(MNorm(M.mi, Sh!NOut(s, q)))))
              w == Sh!RXY(q)
              pole == s.kind # "cylinder" /\ w \prec ("1/200" (.) s.rad)
              u == IF pole THEN "0" ELSE Sh!UofP(s, q)
          IN [p |-> p, ng |-> n, nn |-> n, u |-> RRound(u, 160), v |-> IF pole THEN "0" ELSE RRound(Sh!VofP(s, q), 160),
              ok |-> ~pole /\ (~(s.pm \doteq 360) \/ (u \succ "1e-7" /\ u \prec "0.9999999"))]
AnyTangent(n) == Unit(Cross(n, IF RAbs(n[1]) \prec "1/2" THEN <<"1", "0", "0">> ELSE <<"0", "1", "0">>))
Axes(n) == LET s == RV(AnyTangent(n)) IN [s |-> s, t |-> RV(Cross(n, s)), n |-> n]
Local3(f, w) == RV(ToLocal(f, w))
NonSpec(cs) == \E k \in 1..Len(cs) : cs[k].t \in {5, 9}
\* light k as seen from p
Toward(l, p) ==
  IF l.kind = "distant" THEN [wi |-> RV(Unit(MVec(l.m, l.di))), L |-> l.c, far |-> "inf", ok |-> TRUE]
  ELSE LET d == VSub(Li!Pos(l), p) n == Length(d) wi == RV(Unit(d)) f == Li!Profile(l, VNeg(wi))
           edge == l.kind = "spot" /\ LET c == Unit(MVec(l.mi, VNeg(wi)))[3] IN Near(c, RCos(Rad(l.width)), M9) \/ Near(c, RCos(Rad(l.fall)), M9)
       IN [wi |-> wi, L |-> VMul(1 (/) Len2(d), CMul(l.c, f.v)), far |-> n, ok |-> n \succ "1/10" /\ ~f.doubt /\ ~edge]
Delta(l) == l.kind \notin {"area", "sky"}
\* [L, ok]: radiance and whether the scene determines it
Add(a, b) == [L |-> RV(VAdd(a.L, b.L)), ok |-> a.ok /\ b.ok]
Nothing == [L |-> Zero3, ok |-> TRUE]
Open == [L |-> Zero3, ok |-> FALSE]
RECURSIVE AddAll(_, _)
AddAll(f(_), k) == IF k = 0 THEN Nothing ELSE Add(AddAll(f, k - 1), f(k))
Sky(r) == LET S == {k \in 1..Len(r.lights) : r.lights[k].kind = "sky"} IN
          AddAll(LAMBDA k : IF k \in S THEN [L |-> r.lights[k].c, ok |-> TRUE] ELSE Nothing, Len(r.lights))
From(p, d) == [o |-> p, d |-> d, lo |-> Skip, band |-> Band]
\* direct light from light k
Direct(r, P, x, cs, wo, k) ==
  LET l == r.lights[k] IN
  IF ~NonSpec(cs) THEN Nothing
  ELSE IF ~Delta(l) THEN Open
  ELSE LET w == Toward(l, x.p)
           f == Axes(x.nn)
           a == Local3(f, wo) b == Local3(f, w.wi)
           gs == Dot(wo, x.ng) (.) Dot(w.wi, x.ng)
           val == Total(cs, 31, a, b)
       IN IF ~w.ok THEN Open
          ELSE IF \A j \in 1..3 : w.L[j] \doteq 0 THEN Nothing
          ELSE IF RAbs(gs) \prec "1e-6" \/ RAbs(a[3]) \prec "1e-4" \/ RAbs(b[3]) \prec "1e-4" THEN Open
          ELSE IF gs \prec 0 THEN Nothing
          ELSE IF (a[3] (.) b[3]) \prec 0 THEN Open             \* the two normals disagree
          ELSE IF \A j \in 1..3 : (val[j] (.) w.L[j]) \prec "1e-9" THEN Nothing
          ELSE LET h == Blocked(Found(r, P, From(x.p, w.wi)), w.far)
               IN IF h = "doubt" THEN Open ELSE IF h = "yes" THEN Nothing
                  ELSE [L |-> RV(VMul(RAbs(b[3]), CMul(val, w.L))), ok |-> TRUE]
\* integrators: "whitted", "direct" (every light), "one" (one light), "path"; r.maxd surfaces are met at most
Determined(r, cs, depth) ==
  CASE r.integ = "one" -> ~NonSpec(cs) \/ Len(r.lights) < 2
    [] r.integ = "path" -> IF NonSpec(cs) THEN depth + 1 = r.maxd /\ Len(r.lights) < 2 ELSE Len(cs) < 2
    [] OTHER -> TRUE
RECURSIVE Trace(_, _, _, _)
Trace(r, P, ray, depth) ==
  LET h == Nearest(Found(r, P, ray)) IN
  IF h.k = -1 THEN Open
  ELSE IF h.k = 0 THEN Sky(r)
  ELSE
    LET s == r.shapes[h.k]
        x == Surface(s, P[h.k], ray, h.t)
        cs == TLCEval(Describe(s.mat, [u |-> x.u, v |-> x.v]))
        wo == VNeg(ray.d)
        f == Axes(x.nn)
        a == Local3(f, wo)
        emitted == IF s.emit = 0 THEN Nothing
                   ELSE IF RAbs(Dot(x.ng, wo)) \prec M6 THEN Open
                   ELSE IF Dot(x.ng, wo) \succ 0 THEN [L |-> r.lights[s.emit].c, ok |-> TRUE] ELSE Nothing
        lit == AddAll(LAMBDA k : Direct(r, P, x, cs, wo, k), Len(r.lights))
        on(k) == LET c == cs[k] IN
                 IF c.t \notin {17, 18} THEN Nothing
                 ELSE IF RAbs(a[3]) \prec "1/50" \/ Near(SinT2(c, a), 1, "1e-4") \/ NearTIR(c.fr, a[3]) THEN Open
                 ELSE IF SinT2(c, a) \succ 1 THEN Nothing
                 ELSE LET wi == SpecWi(c, a)
                          val == RV(VMul(RAbs(wi[3]), SpecVal(c, a)))
                          below == Trace(r, P, From(x.p, RV(Unit(ToWorld(f, wi)))), depth + 1)
                      IN IF \A j \in 1..3 : val[j] \prec "1e-4" THEN (IF \A j \in 1..3 : val[j] \doteq 0 THEN Nothing ELSE Open)
                         ELSE [L |-> RV(CMul(val, below.L)), ok |-> below.ok]
    IN IF (s.vary /\ ~x.ok) \/ ~Determined(r, cs, depth) \/ RAbs(a[3]) \prec "1e-5" THEN Open
       ELSE Add(Add(emitted, lit), IF depth + 1 < r.maxd THEN AddAll(on, Len(cs)) ELSE Nothing)
\* ---- judging ----
CamRay(r, q) == LET w == Ca!World([kind |-> r.cam.kind, win |-> r.cam.win, res |-> r.cam.res, fov |-> r.cam.fov, lensr |-> r.cam.lensr, focal |-> r.cam.focal, m |-> r.cam.m, lens |-> q.lens, px |-> q.px, py |-> q.py], q.px, q.py)
                IN [o |-> RV(w.o), d |-> RV(Unit(w.d)), lo |-> "0", band |-> "1e-3"]
Expect(r, q) == Trace(r, Placed(r, q.time), CamRay(r, q), 0)
SampleOk(r, q) == LET e == Expect(r, q) IN ~e.ok \/ \A k \in 1..3 : NearRel(q.L[k], e.L[k], "1e-5")
\* every sample of the frame was rendered once (the sampler's count), and each carries the light of the scene
P39Fails(r) ==
  IF r.err # "" THEN {"rendering-raised"} ELSE
  (IF \E k \in 1..Len(r.smp) : ~SampleOk(r, r.smp[k]) THEN {"radiance-is-the-light-transported-to-the-sample"} ELSE {})
  \cup (IF r.total # r.want THEN {"every-sample-rendered-once"} ELSE {})
  \cup (IF r.lost > 0 THEN {"finite-radiance"} ELSE {})
=============================================================================
