------------------------------- MODULE Material -------------------------------
(* Materials (P34): which scattering components a material's parameters call  *)
(* for at a point, with which colours and indices; mixtures; bump mapping;    *)
(* measured data.  A material is a tree of records, its textures are affine   *)
(* in the surface coordinates: value = a + b u + c v, per channel.            *)
EXTENDS Scatter, SequencesExt
LOCAL Clip(c) == [k \in DOMAIN c |-> RMax(0, c[k])]
LOCAL TexAt(t, d) == [k \in DOMAIN t.a |-> (t.a[k] (+) (t.b[k] (.) d.u)) (+) (t.c[k] (.) d.v)]
ColAt(t, d) == Clip(TexAt(t, d))
NumAt(t, d) == TexAt(t, d)[1]
IsBlack(c) == \A k \in 1..3 : RAbs(c[k]) \prec "1e-5"
NoDist == [kind |-> "blinn", e |-> "1"]
NoFr == [kind |-> "full"]
Air(i) == [kind |-> "diel", ei |-> "1", et |-> i]
\* one component: type bits, model, colour, roughness or distribution, Fresnel term, indices, scale
Comp(t, k, col, sg, dist, fr) == [t |-> t, kind |-> k, col |-> col, sigma |-> sg, dist |-> dist, fr |-> fr, sc |-> One3]
If(cond, s) == IF cond THEN s ELSE <<>>
Lam(col) == If(~IsBlack(col), <<Comp(5, "lambert", col, "0", NoDist, NoFr)>>)
Gloss(col, rough, fr) == If(~IsBlack(col), <<Comp(9, "torrance", col, "0", [kind |-> "blinn", e |-> RMin(10000, 1 (/) rough)], fr)>>)
Mirr(col, fr) == If(~IsBlack(col), <<Comp(17, "mirror", col, "0", NoDist, fr)>>)
Refr(col, i) == If(~IsBlack(col), <<Comp(18, "refract", col, "0", NoDist, Air(i))>>)
Scaled(cs, s) == [k \in 1..Len(cs) |-> [cs[k] EXCEPT !.sc = CMul(@, s)]]
RECURSIVE Describe(_, _)
Describe(m, d) ==
  CASE m.k = "matte" -> LET c == ColAt(m.kd, d) s == RMin(90, RMax(0, NumAt(m.sigma, d)))
                        IN IF s \doteq 0 THEN Lam(c) ELSE If(~IsBlack(c), <<Comp(5, "oren", c, s, NoDist, NoFr)>>)
    [] m.k = "plastic" -> Lam(ColAt(m.kd, d)) \o Gloss(ColAt(m.ks, d), NumAt(m.rough, d), Air("3/2"))
    [] m.k = "mirror" -> Mirr(ColAt(m.kr, d), NoFr)
    [] m.k = "metal" -> Gloss(One3, NumAt(m.rough, d), [kind |-> "cond", eta |-> TexAt(m.eta, d), k |-> TexAt(m.kk, d)])
    [] m.k = "glass" -> LET i == NumAt(m.eta, d) IN Mirr(ColAt(m.kr, d), Air(i)) \o Refr(ColAt(m.kt, d), i)
    [] m.k = "uber" -> LET o == ColAt(m.op, d) i == NumAt(m.eta, d)
                       IN Refr(Clip(VSub(One3, o)), "1") \o Lam(CMul(o, ColAt(m.kd, d))) \o Gloss(CMul(o, ColAt(m.ks, d)), NumAt(m.rough, d), Air(i))
                          \o Mirr(CMul(o, ColAt(m.kr, d)), Air(i)) \o Refr(CMul(o, ColAt(m.kt, d)), i)
    [] m.k \in {"subsurface", "kdsubsurface"} -> Mirr(ColAt(m.kr, d), Air(NumAt(m.eta, d)))
    [] m.k = "mix" -> LET s == ColAt(m.scale, d) IN Scaled(Describe(m.m1, d), s) \o Scaled(Describe(m.m2, d), Clip(VSub(One3, s)))

\* ---- bump mapping: the surface moved along its normal by an affine displacement a + b u + c v + g.p ----
Disp(t, d) == NumAt(t, d) (+) Dot(t.g, d.p)
Bumped(t, d, ng) ==
  LET h == Disp(t, d)
      pu == VAdd(VAdd(d.dpdu, VMul(t.b[1] (+) Dot(t.g, d.dpdu), d.nn)), VMul(h, d.dndu))
      pv == VAdd(VAdd(d.dpdv, VMul(t.c[1] (+) Dot(t.g, d.dpdv), d.nn)), VMul(h, d.dndv))
      n == Unit(Cross(pu, pv))
  IN [dpdu |-> pu, nn |-> IF Dot(n, ng) \prec 0 THEN VNeg(n) ELSE n]
\* the surface a mixture reports is the one of its first part
RECURSIVE BumpOf(_)
BumpOf(m) == IF m.k = "mix" THEN BumpOf(m.m1) ELSE m.bump
HasBump(m) == BumpOf(m).k # "none"
Surf(r) == IF HasBump(r.m) THEN Bumped(BumpOf(r.m), r.dgs, r.ng) ELSE [dpdu |-> r.dgs.dpdu, nn |-> r.dgs.nn]
Flat(t, d) == Disp(t, d) \doteq 0 /\ t.b[1] \doteq 0 /\ t.c[1] \doteq 0 /\ VEq(t.g, Zero3)

\* ---- what the components answer ----
CVal(c, wo, wi) == IF c.t \notin {5, 9} THEN Black ELSE CMul(c.sc, Model([kind |-> c.kind, col |-> c.col, sigma |-> c.sigma, dist |-> c.dist, fr |-> c.fr, wo |-> wo, wi |-> wi]))
RECURSIVE Total(_, _, _, _)
Total(cs, mask, wo, wi) == IF cs = <<>> THEN Black ELSE CAdd(IF Subset(cs[1].t, mask) THEN CVal(cs[1], wo, wi) ELSE Black, Total(Tail(cs), mask, wo, wi))
CountT(cs, t) == Cardinality({k \in 1..Len(cs) : cs[k].t = t})
Tol == "1e-6"
PairFails(cs, r, o) ==
  LET f == Frame(Surf(r)) wo == ToLocal(f, o.wo) wi == ToLocal(f, o.wi)
      gs == Dot(o.wo, r.ng) (.) Dot(o.wi, r.ng)
      ls == wo[3] (.) wi[3]
      ok == RAbs(wo[3]) \succ "1/50" /\ RAbs(wi[3]) \succ "1/50" /\ RAbs(gs) \succ "1e-4"
  IN IF ~ok THEN {}
     ELSE IF gs \prec 0 THEN (IF CRel(o.all, Black, Tol) THEN {} ELSE {"nothing-but-refraction-crosses-the-surface"})
     ELSE IF ls \prec 0 THEN {}
     ELSE (IF ~CRel(o.all, Total(cs, 31, wo, wi), Tol) THEN {"value-is-that-of-the-declared-components"} ELSE {})
          \cup (IF ~CRel(o.diff, Total(cs, 5, wo, wi), Tol) THEN {"diffuse-part"} ELSE {})
          \cup (IF ~CRel(o.gloss, Total(cs, 9, wo, wi), Tol) THEN {"glossy-part"} ELSE {})
\* specular components, each asked in turn
SpecWi(c, wo) == IF c.t = 17 THEN <<RNeg(wo[1]), RNeg(wo[2]), wo[3]>>
                 ELSE LET up == wo[3] \succ 0 q == IF up THEN 1 (/) c.fr.et ELSE c.fr.et
                          ct == RSqrt(RMax(0, 1 (-) (Sq(q) (.) RMax(0, 1 (-) Sq(wo[3])))))
                      IN <<RNeg(q (.) wo[1]), RNeg(q (.) wo[2]), IF up THEN RNeg(ct) ELSE ct>>
SinT2(c, wo) == IF c.t = 17 THEN "0" ELSE Sq(IF wo[3] \succ 0 THEN 1 (/) c.fr.et ELSE c.fr.et) (.) RMax(0, 1 (-) Sq(wo[3]))
SpecVal(c, wo) ==
  LET wi == SpecWi(c, wo)
  IN IF c.t = 17 THEN VMul(1 (/) RAbs(wi[3]), CMul(c.sc, CMul(Fres(c.fr, wo[3]), c.col)))
     ELSE LET q == IF wo[3] \succ 0 THEN 1 (/) c.fr.et ELSE c.fr.et
          IN VMul((Sq(q) (.) (1 (-) FrDiel(wo[3], "1", c.fr.et))) (/) RAbs(wi[3]), CMul(c.sc, c.col))
RECURSIVE SumV(_)
SumV(s) == IF s = <<>> THEN Black ELSE CAdd(s[1], SumV(Tail(s)))
SpecFails(cs, r, o) ==
  LET f == Frame(Surf(r)) wo == ToLocal(f, o.wo)
      mine == SelectSeq(cs, LAMBDA c : c.t = o.t)
      n == Len(mine)
      unsure == RAbs(wo[3]) \prec "1/50" \/ \E k \in 1..n : Near(SinT2(mine[k], wo), 1, M6) \/ (mine[k].t = 17 /\ NearTIR(mine[k].fr, wo[3]))
      live == SelectSeq(mine, LAMBDA c : SinT2(c, wo) \prec 1)
      got == SelectSeq(o.smp, LAMBDA s : s.pdf \succ 0)
  IN IF unsure \/ Len(o.smp) # n THEN {}
     ELSE IF Len(got) # Len(live) THEN {"specular-component-answers-where-it-can"}
     ELSE (IF \E k \in 1..Len(got) : ~Near(got[k].pdf, 1 (/) n, M9) THEN {"specular-density"} ELSE {})
          \cup (IF \E k \in 1..Len(got) : ~\E j \in 1..Len(live) : VNear(got[k].wi, ToWorld(f, SpecWi(live[j], wo)), "1e-7") THEN {"specular-direction-by-the-declared-index"} ELSE {})
          \cup (IF ~CRel(SumV([k \in 1..Len(got) |-> got[k].f]), SumV([k \in 1..Len(live) |-> SpecVal(live[k], wo)]), Tol) THEN {"specular-colour-and-reflectance"} ELSE {})
DescribeFails(r) ==
  IF r.err # "" THEN {"description-raised"} ELSE
  LET cs == Describe(r.m, r.dgs) s == Surf(r) f == Frame(s)
  IN (IF r.total # Len(cs) \/ r.n5 # CountT(cs, 5) \/ r.n9 # CountT(cs, 9) \/ r.n17 # CountT(cs, 17) \/ r.n18 # CountT(cs, 18)
      THEN {"exactly-the-components-called-for"} ELSE {})
     \cup (IF r.total2 # r.total THEN {"querying-again-adds-nothing"} ELSE {})
     \cup (IF \E k \in 1..Len(r.pairs) : ~CRel(r.pairs[k].again, r.pairs[k].all, M9) THEN {"querying-again-answers-the-same"} ELSE {})
     \cup (IF r.kept THEN {} ELSE {"surface-description-handed-in-is-left-alone"})
     \cup (IF ~VNear(r.ln, s.nn, M6) \/ ~VNear(r.ls, f.s, M6) \/ ~VNear(r.lt, f.t, M6) THEN {"shading-frame"} ELSE {})
     \cup (IF HasBump(r.m) /\ Dot(r.ln, r.ng) \prec 0 THEN {"bumped-normal-stays-on-its-side"} ELSE {})
     \cup (IF HasBump(r.m) /\ Flat(BumpOf(r.m), r.dgs) /\ Dot(r.dgs.nn, r.ng) \succ 0 /\ ~VNear(r.ln, r.dgs.nn, M9) THEN {"flat-bump-changes-nothing"} ELSE {})
     \cup UNION {PairFails(cs, r, r.pairs[k]) : k \in 1..Len(r.pairs)}
     \cup UNION {SpecFails(cs, r, r.specs[k]) : k \in 1..Len(r.specs)}
\* the subsurface part: coefficients scaled, index as declared; other materials have none
BssFails(r) ==
  IF r.err # "" THEN {"subsurface-description-raised"} ELSE
  IF ~r.given THEN (IF r.m.k = "subsurface" THEN {"subsurface-description-missing"} ELSE {})
  ELSE IF r.m.k # "subsurface" THEN {"subsurface-description-unasked"}
  ELSE (IF ~CRel(r.sa, VMul(r.m.unit, TexAt(r.m.sa, r.dgs)), M9) \/ ~CRel(r.ss, VMul(r.m.unit, TexAt(r.m.ss, r.dgs)), M9) THEN {"subsurface-coefficients-scaled"} ELSE {})
       \cup (IF ~NearRel(r.eta, NumAt(r.m.eta, r.dgs), M9) THEN {"subsurface-index"} ELSE {})

\* ---- measured data ----
\* irregular samples: coordinates of a pair of directions, isotropic and the same for both orders
Phi(w) == RAtan2(w[2], w[1])
Remap(wo, wi) ==
  LET d == RAbs(Phi(wi) (-) Phi(wo)) e == IF d \succ PI THEN (2 (.) PI) (-) d ELSE d
  IN <<SinT(wi) (.) SinT(wo), e (/) PI, wi[3] (.) wo[3]>>
Dist2(a, b) == Len2(VSub(a, b))
\* growing balls until more than two samples are inside (or everything is)
RECURSIVE Grow(_, _, _)
Grow(ps, m, r) == LET S == {k \in 1..Len(ps) : Dist2(ps[k], m) \preceq Sq(r)} IN IF Cardinality(S) > 2 \/ r \succ "3/2" THEN <<S, r>> ELSE Grow(ps, m, r (.) "1414/1000")
RECURSIVE WSum(_, _, _, _)
WSum(S, w, v, k) == IF S = {} THEN "0" ELSE LET j == CHOOSE j \in S : TRUE IN (w[j] (.) (IF k = 0 THEN "1" ELSE v[j][k])) (+) WSum(S \ {j}, w, v, k)
RECURSIVE Radii(_)
Radii(r) == IF r \succ "3/2" THEN {r} ELSE {r} \cup Radii(r (.) "1414/1000")
MeasuredFails(r) ==
  IF r.err # "" THEN {"measured-material-raised"} ELSE
  LET ps == [k \in 1..Len(r.smp) |-> Remap(r.smp[k].wo, r.smp[k].wi)]
      m == Remap(r.wo, r.wi)
      g == Grow(ps, m, "1/100")
      S == g[1]
      w == [k \in 1..Len(ps) |-> IF k \in S THEN RExp(RNeg(100 (.) Dist2(ps[k], m))) ELSE "0"]
      v == [k \in 1..Len(ps) |-> r.smp[k].v]
      tot == WSum(S, w, v, 0)
      exp == [k \in 1..3 |-> RMax(0, WSum(S, w, v, k) (/) tot)]
      unsure == \E k \in 1..Len(ps) : \E q \in Radii("1/100") : Near(Dist2(ps[k], m), Sq(q), "1e-9")
      lo == [k \in 1..3 |-> RNeg(SetMax({RNeg(v[j][k]) : j \in 1..Len(v)}))]
      hi == [k \in 1..3 |-> SetMax({v[j][k] : j \in 1..Len(v)})]
  IN (IF r.total # 1 \/ r.n9 # 1 THEN {"exactly-the-components-called-for"} ELSE {})
     \cup (IF \E k \in 1..3 : r.f[k] \prec (lo[k] (-) M6) \/ r.f[k] \succ (RMax(0, hi[k]) (+) M6) THEN {"between-the-measured-values"} ELSE {})
     \cup (IF ~unsure /\ ~CRel(r.f, exp, Tol) THEN {"weighted-mean-of-the-nearest-samples"} ELSE {})
     \cup (IF ~CRel(r.frev, r.f, Tol) THEN {"measured-reciprocal"} ELSE {})
     \cup (IF ~CRel(r.fagain, r.f, M9) THEN {"loading-again-answers-the-same"} ELSE {})
\* regular tables over the half angle (square root spacing), the difference angle and its azimuth; directions above the surface
BinOf(x, n) == LET i == RFloor(x (.) n) IN IF i < 0 THEN 0 ELSE IF i > n - 1 THEN n - 1 ELSE i
OnEdge(x, n) == LET y == x (.) n IN Near(y, RFloor(y (+) "1/2"), "1e-7")
TableFails(r) ==
  IF r.err # "" THEN {"tabulated-material-raised"} ELSE
  LET h == Half(r.wo, r.wi)
      th == RAcos(h[3])
      st == SinT(h)
      cp == h[1] (/) st
      sp == h[2] (/) st
      d == <<Dot(r.wi, <<cp (.) h[3], sp (.) h[3], RNeg(st)>>), Dot(r.wi, <<RNeg(sp), cp, "0">>), Dot(r.wi, h)>>
      x == RSqrt(th (/) (PI (/) 2))
      y == RAcos(Cl1(d[3])) (/) (PI (/) 2)
      p == RAtan2(d[2], d[1]) (/) PI
      z == IF p \prec 0 THEN p (+) 1 ELSE p
      degenerate == st \prec "1e-4" \/ y \prec "1e-4"
  IN IF degenerate \/ OnEdge(x, r.nh) \/ OnEdge(y, r.nd) \/ OnEdge(z, r.np) THEN {}
     ELSE IF Near(r.cell, (BinOf(x, r.nh) * r.nd + BinOf(y, r.nd)) * r.np + BinOf(z, r.np), "1/4") THEN {} ELSE {"tabulated-bin-of-the-angles"}
P34Fails(r) == CASE r.op = "describe" -> DescribeFails(r) [] r.op = "bss" -> BssFails(r) [] r.op = "measured" -> MeasuredFails(r)
                 [] r.op = "table" -> TableFails(r) [] OTHER -> {}
=============================================================================
