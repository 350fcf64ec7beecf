------------------------------- MODULE Scatter -------------------------------
(* Surface scattering: composites of flagged components (P20), the local      *)
(* shading frame (P21) and the elementary models (P22).  Directions are       *)
(* sequences of 3 numbers, colours too.                                       *)
EXTENDS Lin
M9 == "1e-9"
M6 == "1e-6"
Black == Zero3
Col(a, b, tol) == \A k \in 1..3 : NearRel(a[k], b[k], tol)
CMul(a, b) == <<a[1] (.) b[1], a[2] (.) b[2], a[3] (.) b[3]>>
CAdd(a, b) == VAdd(a, b)
One3 == <<"1", "1", "1">>

\* ---- component flags: bits 1 reflection, 2 transmission, 4 diffuse, 8 glossy, 16 specular ----
Bit(x, b) == (x \div b) % 2 = 1
Subset(t, m) == \A b \in {1, 2, 4, 8, 16} : Bit(t, b) => Bit(m, b)
Drop(m, b) == IF Bit(m, b) THEN m - b ELSE m
Match(r, m) == {k \in 1..Len(r.comps) : Subset(r.comps[k].t, m)}
\* the n-th (from 0) matching component, in order
Nth(S, n) == CHOOSE k \in S : Cardinality({j \in S : j < k}) = n
\* ---- shading frame: z is the shading normal, x the tangent, y completes it ----
Frame(r) == LET s == Unit(r.dpdu) IN [s |-> s, t |-> Cross(r.nn, s), n |-> r.nn]
ToLocal(f, w) == <<Dot(w, f.s), Dot(w, f.t), Dot(w, f.n)>>
ToWorld(f, w) == VAdd(VMul(w[1], f.s), VAdd(VMul(w[2], f.t), VMul(w[3], f.n)))
\* the stand-in components: a declared function and density of the local directions
CompF(c, wo, wi) == [k \in 1..3 |-> ((c.f[1] (+) (c.f[2] (.) wi[1])) (+) (c.f[3] (.) (wi[3] (.) wo[3]))) (.) c.col[k]]
CompPdf(c, wo, wi) == IF Bit(c.t, 16) THEN "0" ELSE c.p[1] (+) (c.p[2] (.) (wi[3] (.) wi[3]))
RECURSIVE SumF(_, _, _, _)
SumF(r, S, wo, wi) == IF S = {} THEN Black ELSE LET k == CHOOSE k \in S : TRUE IN CAdd(CompF(r.comps[k], wo, wi), SumF(r, S \ {k}, wo, wi))
RECURSIVE SumPdf(_, _, _, _)
SumPdf(r, S, wo, wi) == IF S = {} THEN "0" ELSE LET k == CHOOSE k \in S : TRUE IN CompPdf(r.comps[k], wo, wi) (+) SumPdf(r, S \ {k}, wo, wi)
Sided(r, wo, wi, m) == IF (Dot(wi, r.ng) (.) Dot(wo, r.ng)) \succ 0 THEN Drop(m, 2) ELSE Drop(m, 1)
Clear(r, w) == RAbs(Dot(w, r.ng)) \succ M6
EvalFails(r) ==
  IF r.err # "" THEN {"evaluation-raised"} ELSE
  LET f == Frame(r) wo == ToLocal(f, r.wo) wi == ToLocal(f, r.wi)
      S == Match(r, r.mask)
      side == Match(r, Sided(r, r.wo, r.wi, r.mask))
  IN (IF r.n # Cardinality(S) \/ r.total # Len(r.comps) THEN {"matching-components-counted"} ELSE {})
     \cup (IF Clear(r, r.wo) /\ Clear(r, r.wi) /\ ~Col(r.f, SumF(r, side, wo, wi), M9) THEN {"value-sums-matching-components-of-the-side"} ELSE {})
     \cup (IF ~NearRel(r.pdf, IF S = {} THEN "0" ELSE SumPdf(r, S, wo, wi) (/) Cardinality(S), M9) THEN {"density-averages-matching-components"} ELSE {})
SampleFails(r) ==
  IF r.err # "" THEN {"sampling-raised"} ELSE
  LET f == Frame(r) wo == ToLocal(f, r.wo)
      S == Match(r, r.mask)
      n == Cardinality(S)
      c == r.comps[Nth(S, RFloor(r.u (.) n))]
      wi == c.wi
      wiw == ToWorld(f, wi)
      spec == Bit(c.t, 16)
      p0 == IF spec THEN c.p[1] ELSE CompPdf(c, wo, wi)
      val == IF spec THEN c.col ELSE SumF(r, Match(r, Sided(r, r.wo, wiw, r.mask)), wo, wi)
      den == IF spec THEN p0 (/) n ELSE SumPdf(r, S, wo, wi) (/) n
  IN IF n = 0 THEN IF r.pdf \doteq 0 /\ Col(r.f, Black, M9) THEN {} ELSE {"no-matching-component-is-black"}
     ELSE IF c.zero THEN IF r.pdf \doteq 0 /\ Col(r.f, Black, M9) THEN {} ELSE {"failed-sample-is-black"}
     ELSE (IF r.type # c.t THEN {"picks-components-with-equal-probability"} ELSE
           (IF ~r.haswi \/ ~VNear(r.wi, wiw, M9) THEN {"sampled-direction"} ELSE {})
           \cup (IF ~NearRel(r.pdf, den, M9) THEN {"sampled-density-consistent"} ELSE {})
           \cup (IF Clear(r, r.wo) /\ Clear(r, wiw) /\ ~Col(r.f, val, M9) THEN {"sampled-value-consistent"} ELSE {}))
\* reflectances estimated over n by n strata, every random number being r.ph: the mean of f cos / density over the directions
\* each matching component would be sampled in (and, for the hemispherical one, over uniform outgoing directions)
Strata(r) == [k \in 1..(r.n * r.n) |-> <<(((k - 1) % r.n) (+) r.ph) (/) r.n, (((k - 1) \div r.n) (+) r.ph) (/) r.n>>]
Upper(u) == LET s == RSqrt(RMax(0, 1 (-) (u[1] (.) u[1]))) p == (2 (.) PI) (.) u[2] IN <<s (.) RCos(p), s (.) RSin(p), u[1]>>
RhoOne(c, wo) ==
  IF c.zero THEN Black
  ELSE LET f == IF Bit(c.t, 16) THEN c.col ELSE CompF(c, wo, c.wi)
           p == IF Bit(c.t, 16) THEN c.p[1] ELSE CompPdf(c, wo, c.wi)
       IN VMul(RAbs(c.wi[3]) (/) p, f)
RECURSIVE SumRho(_, _, _)
SumRho(r, S, wo) == IF S = {} THEN Black ELSE LET k == CHOOSE k \in S : TRUE IN CAdd(RhoOne(r.comps[k], wo), SumRho(r, S \ {k}, wo))
RECURSIVE MeanHH(_, _, _, _)
MeanHH(r, S, u, k) == IF k = 0 THEN Black ELSE CAdd(VMul((2 (.) u[k][1]) (/) Len(u), SumRho(r, S, Upper(u[k]))), MeanHH(r, S, u, k - 1))
BsdfRhoFails(r) ==
  IF r.err # "" THEN {"reflectance-raised"} ELSE
  LET S == Match(r, r.mask) IN
  (IF ~Col(r.hd, SumRho(r, S, ToLocal(Frame(r), r.wo)), M9) THEN {"directional-reflectance-sums-matching-components"} ELSE {})
  \cup (IF ~Col(r.hh, MeanHH(r, S, Strata(r), r.n * r.n), M9) THEN {"hemispherical-reflectance-sums-matching-components"} ELSE {})
\* adapters around one component: scaling multiplies the value only; the flipped adapter answers for the mirrored direction
Flip(w) == <<w[1], w[2], RNeg(w[3])>>
FlipType(t) == Drop(Drop(t, 1), 2) + (IF Bit(t, 1) THEN 2 ELSE 0) + (IF Bit(t, 2) THEN 1 ELSE 0)
AdaptFails(r) ==
  IF r.err # "" THEN {"adapter-raised"} ELSE
  LET c == r.comps[1]
      m(w) == IF r.kind = "flip" THEN Flip(w) ELSE w
      sc == IF r.kind = "flip" THEN One3 ELSE r.scale
  IN (IF r.type # (IF r.kind = "flip" THEN FlipType(c.t) ELSE c.t) THEN {"adapter-type"} ELSE {})
     \cup (IF ~Col(r.f, CMul(sc, CompF(c, r.wo, m(r.wi))), M9) THEN {"adapter-value"} ELSE {})
     \cup (IF ~NearRel(r.pdf, CompPdf(c, r.wo, m(r.wi)), M9) THEN {"adapter-density"} ELSE {})
     \cup (IF ~VNear(r.swi, m(c.wi), M9) \/ ~NearRel(r.spdf, CompPdf(c, r.wo, c.wi), M9) \/ ~Col(r.sf, CMul(sc, CompF(c, r.wo, c.wi)), M9) THEN {"adapter-sample"} ELSE {})
Kept20(r) == IF r.op \in {"eval", "sample"} /\ ~r.kept THEN {"surface-directions-and-mask-left-as-they-were"} ELSE {}
P20Fails(r) == Kept20(r) \cup CASE r.op = "eval" -> EvalFails(r) [] r.op = "sample" -> SampleFails(r) [] r.op = "adapt" -> AdaptFails(r) [] r.op = "rho" -> BsdfRhoFails(r) [] OTHER -> {}

\* ---- P21 ----
FrameFails(r) ==
  IF r.err # "" THEN {"frame-raised"} ELSE
  (IF ~VNear(r.back, r.w, "1e-9") THEN {"round-trip"} ELSE {})
  \cup (IF ~VNear(r.fwd, r.w, "1e-9") THEN {"round-trip-from-local"} ELSE {})
  \cup (IF ~NearRel(Len2(r.l), Len2(r.w), M9) THEN {"length-preserved"} ELSE {})
  \cup (IF ~Near(Dot(r.l, r.l2), Dot(r.w, r.w2), M9) THEN {"angles-preserved"} ELSE {})
  \cup (IF ~VNear(r.ln, <<"0", "0", "1">>, M9) THEN {"normal-is-local-z"} ELSE {})
  \cup (IF ~Near(r.l[3], Dot(r.w, r.nn), M9) \/ ~Near(r.cos, r.l[3], M9) \/ ~Near(r.acos, RAbs(r.l[3]), M9) THEN {"local-cosine"} ELSE {})
  \cup (IF Near(Len2(r.w), 1, M9) /\ ~(Near(r.sin2, RMax(0, 1 (-) (r.l[3] (.) r.l[3])), M9)) THEN {"local-sine"} ELSE {})
  \cup (IF Near(Len2(r.w), 1, M9) /\ r.sin2 \succ "1e-4" /\ (~Near(r.cphi (.) RSqrt(r.sin2), r.l[1], M6) \/ ~Near(r.sphi (.) RSqrt(r.sin2), r.l[2], M6)) THEN {"local-azimuth"} ELSE {})
HelperFails(r) ==
  IF r.err # "" THEN {"helper-frame-raised"} ELSE
  (IF ~VNear(r.a, r.w, M9) THEN {"helper-frame-contains-vector"} ELSE {})
  \cup (IF ~(IsUnit(r.a, M9) /\ IsUnit(r.b, M9) /\ IsUnit(r.c, M9) /\ Near(Dot(r.a, r.b), 0, M9) /\ Near(Dot(r.b, r.c), 0, M9) /\ Near(Dot(r.a, r.c), 0, M9))
        THEN {"helper-frame-orthonormal"} ELSE {})
\* spherical coordinates against a direction
SphFails(r) ==
  IF r.err # "" THEN {"spherical-raised"} ELSE
  (IF ~Near(RCos(r.th), r.w[3], M9) \/ r.th \prec 0 \/ r.th \succ (PI (+) M9) THEN {"spherical-theta"} ELSE {})
  \cup (IF r.ph \prec 0 \/ r.ph \succ ((2 (.) PI) (+) M9) THEN {"spherical-phi-range"} ELSE {})
  \cup (IF ~VNear(r.back, r.w, "1e-7") THEN {"spherical-round-trip"} ELSE {})
\* the local angles of a unit direction, down to the poles: some azimuth is always given
LocalFails(r) ==
  IF r.err # "" THEN {"local-angles-raised"} ELSE
  (IF ~(r.cos \doteq r.l[3]) \/ ~(r.acos \doteq RAbs(r.l[3])) THEN {"local-cosine"} ELSE {})
  \cup (IF ~Near(r.sin2, RMax(0, 1 (-) (r.l[3] (.) r.l[3])), M9) \/ ~Near(r.sin (.) r.sin, r.sin2, M9) \/ r.sin \prec 0 THEN {"local-sine"} ELSE {})
  \cup (IF ~Near(r.cphi (.) r.sin, r.l[1], M6) \/ ~Near(r.sphi (.) r.sin, r.l[2], M6) THEN {"local-azimuth"} ELSE {})
  \cup (IF ~(RAbs(r.cphi) \preceq 1) \/ ~(RAbs(r.sphi) \preceq 1) \/ ((r.sin2 \doteq 0 \/ r.sin2 \succ "1e-6") /\ ~Near((r.cphi (.) r.cphi) (+) (r.sphi (.) r.sphi), 1, M6)) THEN {"local-azimuth-is-an-angle"} ELSE {})
P21Fails(r) == CASE r.op = "local" -> LocalFails(r) [] r.op = "frame" -> FrameFails(r) [] r.op = "helper" -> HelperFails(r) [] r.op = "sph" -> SphFails(r) [] OTHER -> {}

\* ---- P22: Fresnel ----
Sq(x) == x (.) x
Cl1(x) == RMax("-1", RMin(1, x))
FrDiel(c0, e1, e2) ==
  LET c == Cl1(c0)
      ei == IF c \prec 0 THEN e2 ELSE e1
      et == IF c \prec 0 THEN e1 ELSE e2
      ci == RAbs(c)
      s2 == (Sq(ei) (/) Sq(et)) (.) (1 (-) Sq(ci))
      ct == RSqrt(RMax(0, 1 (-) s2))
      par == ((et (.) ci) (-) (ei (.) ct)) (/) ((et (.) ci) (+) (ei (.) ct))
      per == ((ei (.) ci) (-) (et (.) ct)) (/) ((ei (.) ci) (+) (et (.) ct))
  IN IF s2 \succeq 1 THEN "1" ELSE (Sq(par) (+) Sq(per)) (/) 2
FrCond(c0, eta, k) ==
  LET c == RAbs(c0)
      ek == Sq(eta) (+) Sq(k)
      par == (((ek (.) Sq(c)) (-) ((2 (.) eta) (.) c)) (+) 1) (/) (((ek (.) Sq(c)) (+) ((2 (.) eta) (.) c)) (+) 1)
      per == ((ek (-) ((2 (.) eta) (.) c)) (+) Sq(c)) (/) ((ek (+) ((2 (.) eta) (.) c)) (+) Sq(c))
  IN (par (+) per) (/) 2
\* r.fr: [kind, ei, et] / [kind, eta, k] / [kind]
Fres(fr, c) == CASE fr.kind = "diel" -> [j \in 1..3 |-> FrDiel(c, fr.ei, fr.et)]
                 [] fr.kind = "cond" -> [j \in 1..3 |-> FrCond(c, fr.eta[j], fr.k[j])]
                 [] fr.kind = "full" -> One3
NearTIR(fr, c) == fr.kind = "diel" /\ LET q == IF c \prec 0 THEN fr.et (/) fr.ei ELSE fr.ei (/) fr.et IN Near(Sq(q) (.) (1 (-) Sq(Cl1(c))), 1, M6)
FresFails(r) ==
  IF r.err # "" THEN {"fresnel-raised"} ELSE
  (IF \E k \in 1..3 : r.v[k] \prec 0 \/ r.v[k] \succ (1 (+) M9) THEN {"reflectance-in-unit-interval"} ELSE {})
  \cup (IF ~NearTIR(r.fr, r.c) /\ ~Col(r.v, Fres(r.fr, r.c), M9) THEN {"fresnel-equations"} ELSE {})
\* mirror
MirrorFails(r) ==
  IF r.err # "" THEN {"reflection-raised"} ELSE
  LET F == Fres(r.fr, r.wo[3]) IN
  (IF r.tp # 17 THEN {"declares-its-kind"} ELSE {}) \cup      \* reflection, specular
  (IF ~(r.pdf \doteq 1) \/ ~VNear(r.wi, <<RNeg(r.wo[1]), RNeg(r.wo[2]), r.wo[3]>>, M9) THEN {"mirrored-direction"} ELSE {})
  \cup (IF ~NearTIR(r.fr, r.wo[3]) /\ ~Col(VMul(RAbs(r.wi[3]), r.f), CMul(F, r.col), M6) THEN {"mirror-value"} ELSE {})
  \cup (IF ~Col(r.f0, Black, M9) \/ ~(r.p0 \doteq 0) THEN {"specular-is-zero-off-the-sampled-direction"} ELSE {})
\* refraction: the tangential part scales by ni/nt, the normal part changes side
RefractFails(r) ==
  IF r.err # "" THEN {"transmission-raised"} ELSE
  LET up == r.wo[3] \succ 0
      ni == IF up THEN r.ei ELSE r.et
      nt == IF up THEN r.et ELSE r.ei
      q == ni (/) nt
      s2 == Sq(q) (.) RMax(0, 1 (-) Sq(r.wo[3]))
      F == FrDiel(r.wo[3], r.ei, r.et)
      ct == RSqrt(RMax(0, 1 (-) s2))
      exact == <<RNeg(q (.) r.wo[1]), RNeg(q (.) r.wo[2]), IF up THEN RNeg(ct) ELSE ct>>
  IN IF Near(s2, 1, M6) THEN {} ELSE
     IF r.tp # 18 THEN {"declares-its-kind"} ELSE       \* transmission, specular
     IF s2 \succ 1 THEN (IF r.pdf \doteq 0 THEN {} ELSE {"total-internal-reflection-returns-nothing"})
     ELSE IF ~r.haswi \/ ~(r.pdf \doteq 1) \/ ~VNear(r.wi, exact, M9) THEN {"snell-direction"}
     ELSE (IF ~Col(VMul(RAbs(r.wi[3]), r.f), VMul(Sq(q) (.) (1 (-) F), r.col), M6) THEN {"transmitted-value"} ELSE {})
          \cup (IF ~Col(r.f0, Black, M9) \/ ~(r.p0 \doteq 0) THEN {"specular-is-zero-off-the-sampled-direction"} ELSE {})
\* reflected plus transmitted fraction of the energy (the radiance compression (ni/nt)^2 taken out) never exceeds one
EnergyFails(r) ==
  IF r.err # "" THEN {"energy-raised"} ELSE
  LET q == IF r.wo[3] \succ 0 THEN r.ei (/) r.et ELSE r.et (/) r.ei
      re == r.refl (.) RAbs(r.wo[3])
      tr == IF r.tpdf \doteq 0 THEN "0" ELSE (r.trans (.) RAbs(r.twi[3])) (/) Sq(q)
  IN IF (re (+) tr) \preceq (1 (+) M6) THEN {} ELSE {"energy-never-exceeds-incident"}

\* ---- rough models; wo, wi on the same side ----
Half(a, b) == Unit(VAdd(a, b))
SinT(w) == RSqrt(RMax(0, 1 (-) Sq(w[3])))
Oren(r) ==
  LET sg == (r.sigma (.) PI) (/) 180 s2 == Sq(sg)
      A == 1 (-) (s2 (/) (2 (.) (s2 (+) "0.33")))
      B == ("0.45" (.) s2) (/) (s2 (+) "0.09")
      si == SinT(r.wi) so == SinT(r.wo)
      cd == IF si \prec "1e-5" \/ so \prec "1e-5" THEN "0" ELSE RMax(0, ((r.wi[1] (.) r.wo[1]) (+) (r.wi[2] (.) r.wo[2])) (/) (si (.) so))
      ai == RAbs(r.wi[3]) ao == RAbs(r.wo[3])
      sa == IF ai \succ ao THEN so ELSE si
      tb == IF ai \succ ao THEN si (/) ai ELSE so (/) ao
  IN VMul((A (+) ((B (.) cd) (.) (sa (.) tb))) (/) PI, r.col)
DistD(d, wh) ==
  LET c == RAbs(wh[3]) IN
  IF d.kind = "blinn" THEN ((d.e (+) 2) (/) (2 (.) PI)) (.) RPowR(c, d.e)
  ELSE LET s == 1 (-) Sq(c) e == ((d.ex (.) Sq(wh[1])) (+) (d.ey (.) Sq(wh[2]))) (/) s
       IN (RSqrt((d.ex (+) 2) (.) (d.ey (+) 2)) (/) (2 (.) PI)) (.) RPowR(c, e)
DistPdf(d, wo, wh) ==
  LET c == RAbs(wh[3]) dn == 4 (.) Dot(wo, wh) IN
  IF Dot(wo, wh) \preceq 0 THEN "0" ELSE
  IF d.kind = "blinn" THEN (((d.e (+) 1) (/) (2 (.) PI)) (.) RPowR(c, d.e)) (/) dn
  ELSE LET s == 1 (-) Sq(c) e == ((d.ex (.) Sq(wh[1])) (+) (d.ey (.) Sq(wh[2]))) (/) s
       IN ((RSqrt((d.ex (+) 1) (.) (d.ey (+) 1)) (/) (2 (.) PI)) (.) RPowR(c, e)) (/) dn
Torrance(r) ==
  LET wh == Half(r.wo, r.wi) F == Fres(r.fr, Dot(r.wi, wh))
      cw == RAbs(Dot(r.wo, wh))
      G == RMin(1, RMin(((2 (.) RAbs(wh[3])) (.) RAbs(r.wo[3])) (/) cw, ((2 (.) RAbs(wh[3])) (.) RAbs(r.wi[3])) (/) cw))
  IN VMul(((DistD(r.dist, wh) (.) G) (/) (4 (.) RAbs(r.wi[3] (.) r.wo[3]))), CMul(F, r.col))
Fifth(x) == RPow(x, 5)
Blend(r) ==
  LET wh == Half(r.wo, r.wi) cw == Dot(r.wi, wh)
      df == ((28 (/) (23 (.) PI)) (.) (1 (-) Fifth(1 (-) (RAbs(r.wi[3]) (/) 2)))) (.) (1 (-) Fifth(1 (-) (RAbs(r.wo[3]) (/) 2)))
      sp == DistD(r.dist, wh) (/) ((4 (.) RAbs(cw)) (.) RMax(RAbs(r.wi[3]), RAbs(r.wo[3])))
  IN [k \in 1..3 |-> ((df (.) r.col[k]) (.) (1 (-) r.spec[k])) (+) (sp (.) (r.spec[k] (+) (Fifth(1 (-) cw) (.) (1 (-) r.spec[k]))))]
Model(r) == CASE r.kind = "lambert" -> VMul(1 (/) PI, r.col) [] r.kind = "oren" -> Oren(r)
              [] r.kind = "torrance" -> Torrance(r) [] r.kind = "blend" -> Blend(r)
PdfOf(r, wo, wi) ==
  LET cosp == RAbs(wi[3]) (/) PI IN
  IF (wo[3] (.) wi[3]) \preceq 0 THEN "0"
  ELSE CASE r.kind \in {"lambert", "oren"} -> cosp
         [] r.kind = "torrance" -> DistPdf(r.dist, wo, Half(wo, wi))
         [] r.kind = "blend" -> (cosp (+) DistPdf(r.dist, wo, Half(wo, wi))) (/) 2
CRel(a, b, tol) == \A k \in 1..3 : Near(a[k], b[k], tol (.) RMax("1e-6", RAbs(b[k])))
RoughFails(r) ==
  IF r.err # "" THEN {"rough-model-raised"} ELSE
  LET same == (r.wo[3] (.) r.wi[3]) \succ 0
  IN (IF \E k \in 1..3 : ~(r.f[k] \succeq 0) THEN {"non-negative"} ELSE {})
     \cup (IF r.tp # (IF r.kind \in {"lambert", "oren"} THEN 5 ELSE 9) THEN {"declares-its-kind"} ELSE {})   \* reflection, diffuse or glossy
     \cup (IF same THEN
        (IF ~CRel(r.f, r.frev, M6) THEN {"reciprocal"} ELSE {})
                    \cup (IF ~CRel(r.f, Model(r), M6) THEN {"model-formula"} ELSE {})
      ELSE {})
     \cup (IF ~Near(r.pdf, PdfOf(r, r.wo, r.wi), M6 (.) RMax(1, r.pdf)) THEN {"density-formula"} ELSE {})
\* sampling: unit direction, value and density agreeing with f and pdf there; area element measured by differences
RoughSampleFails(r) ==
  IF r.err # "" THEN {"rough-sampling-raised"} ELSE
  LET lit == \E k \in 1..3 : r.f[k] \succ 0
      el == Length(Cross(VSub(r.b, r.a), VSub(r.d, r.c))) (/) ((4 (.) r.h) (.) r.h)
      smooth == MaxAbs3(VSub(VAdd(r.a, r.b), VMul(2, r.wi))) \prec (r.h (.) "1/200") /\ MaxAbs3(VSub(VAdd(r.c, r.d), VMul(2, r.wi))) \prec (r.h (.) "1/200")
      same == (r.wo[3] (.) r.wi[3]) \succ 0
  IN (IF ~IsUnit(r.wi, M6) THEN {"sampled-direction-unit"} ELSE {})
     \cup (IF lit /\ ~same THEN {"vanishes-across-the-surface"} ELSE {})
     \cup (IF same /\ r.pdf \succ 0 /\ ~CRel(r.f, r.fat, M6) THEN {"sampled-value-agrees"} ELSE {})
     \cup (IF same /\ ~NearRel(r.pdf, r.pat, M6) THEN {"sampled-density-agrees"} ELSE {})
     \cup (IF same /\ r.kind # "blend" /\ smooth /\ r.pdf \succ "1/100" /\ el \succ "1/100" /\ ~Near(el (.) r.pdf, 1, "1/50") THEN {"density-is-reciprocal-measure"} ELSE {})
RhoFails(r) == IF r.err # "" THEN {"rho-raised"} ELSE IF Col(r.hd, r.col, M9) /\ Col(r.hh, r.col, M9) THEN {} ELSE {"lambertian-reflectance"}
\* reflectances estimated from given random numbers: r.ds, r.hs are the samples those numbers give
Est(x) == IF x.pdf \succ 0 THEN VMul(RAbs(x.wi[3]) (/) x.pdf, x.f) ELSE Zero3
RECURSIVE SumEst(_, _, _)
SumEst(s, w, k) == IF k = 0 THEN Zero3 ELSE VAdd(VMul(IF w THEN 2 (.) RAbs(s[k].wo[3]) ELSE "1", Est(s[k])), SumEst(s, w, k - 1))
RhosFails(r) ==
  IF r.err # "" THEN {"reflectance-raised"} ELSE
  IF r.kind = "lambert" THEN (IF Col(r.hd, r.col, M9) /\ Col(r.hh, r.col, M9) THEN {} ELSE {"lambertian-reflectance"})
  ELSE (IF ~CRel(r.hd, VMul(1 (/) r.n, SumEst(r.ds, FALSE, r.n)), M6) THEN {"directional-reflectance-averages-samples"} ELSE {})
       \cup (IF ~CRel(r.hh, VMul(1 (/) r.n, SumEst(r.hs, TRUE, r.n)), M6) THEN {"hemispherical-reflectance-averages-samples"} ELSE {})
       \cup (IF \E k \in 1..r.n : ~Near(r.hs[k].wo[3], r.vs[k][1], M6) THEN {"outgoing-directions-uniform"} ELSE {})
\* the share of samples falling into each eighth of the hemisphere is the density's integral over it
HistoFails(r) ==
  IF r.err # "" THEN {"rough-sampling-raised"} ELSE
  IF \E k \in 1..8 : ~Near(r.got[k], r.want[k], "3/100") THEN {"sampling-follows-density-everywhere"} ELSE {}
\* one direction exactly in the surface: a microfacet surface shows nothing, a Lambertian its constant, and no direction is chosen there
GrazingFails(r) ==
  IF r.err # "" THEN {"rough-model-raised"} ELSE
  IF ~RIsNum(r.pdf) \/ \E k \in 1..3 : ~RIsNum(r.f[k]) THEN {"finite-at-grazing"} ELSE
  (IF \E k \in 1..3 : ~Near(r.f[k], IF r.kind = "torrance" THEN "0" ELSE r.col[k] (/) PI, M6) THEN {"model-at-grazing"} ELSE {})
  \cup (IF ~(r.pdf \doteq 0) THEN {"density-at-grazing"} ELSE {})
P22Fails(r) == CASE r.op = "grazing" -> GrazingFails(r) [] r.op = "rhos" -> RhosFails(r) [] r.op = "histo" -> HistoFails(r) [] r.op = "fresnel" -> FresFails(r) [] r.op = "mirror" -> MirrorFails(r) [] r.op = "refract" -> RefractFails(r)
                 [] r.op = "energy" -> EnergyFails(r) [] r.op = "rough" -> RoughFails(r) [] r.op = "roughsample" -> RoughSampleFails(r)
                 [] r.op = "rho" -> RhoFails(r) [] OTHER -> {}
=============================================================================
