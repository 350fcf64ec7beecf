------------------------------ MODULE Integrator ------------------------------
(* Direct lighting (P25) and light transport (P26) in a scripted world.       *)
(*   r.lights[i]  delta (point-like), env (lights escaping rays), ns          *)
(*   r.vs[v]      surface points: normal n, outgoing direction wo, emission   *)
(*                le of light emit (0: none), light samples ls[i], and the    *)
(*                directions the surface can be sampled in: nb (non-specular, *)
(*                for direct light), pb (any), sr, st (mirrored, refracted)   *)
(*   a direction e: wi, f, pdf, spec, the point met (to, 0: none), tr the     *)
(*                transmittance on the way, lvi the light scattered in by     *)
(*                media, esc[i] what escaping rays get from light i, lp[i]    *)
(*                the density with which light i would sample it              *)
EXTENDS Lin
R3(c) == [k \in 1..3 |-> RRound(c[k], 200)]
CMul(s, c) == [k \in 1..3 |-> s (.) c[k]]
CC(a, b) == R3([k \in 1..3 |-> a[k] (.) b[k]])
Blk(c) == \A k \in 1..3 : c[k] \doteq 0
One3 == <<"1", "1", "1">>
Yw == <<"0.212671", "0.715160", "0.072169">>
Lum(c) == Dot(Yw, c)
RECURSIVE CSum(_, _)
CSum(f(_), k) == IF k = 0 THEN Zero3 ELSE VAdd(CSum(f, k - 1), f(k))
ACos(a, b) == RAbs(Dot(a, b))
Power(p, g) == (p (.) p) (/) ((p (.) p) (+) (g (.) g))
Lit(r) == Len(r.lights)
\* what escaping rays see: every light that shines on them
Esc(r, e) == CSum(LAMBDA i : e.esc[i], Lit(r))
\* ---- one light at one point ----
LightPart(r, v, i, mis) ==
  LET s == v.ls[i] IN
  IF s.pdf \preceq 0 \/ Blk(s.L) \/ Blk(s.f) \/ s.occ THEN Zero3
  ELSE LET w == IF ~mis \/ r.lights[i].delta THEN "1" ELSE Power(s.pdf, s.bpdf)
       IN CMul(RRound((ACos(s.wi, v.n) (.) w) (/) s.pdf, 200), CC(CC(s.f, s.L), s.tr))
SurfPart(r, v, e, i) ==
  IF r.lights[i].delta \/ e.pdf \preceq 0 \/ Blk(e.f) THEN Zero3
  ELSE IF ~e.spec /\ e.lp[i] \doteq 0 THEN Zero3
  ELSE LET w == IF e.spec THEN "1" ELSE Power(e.pdf, e.lp[i])
           L == IF e.to = 0 THEN e.esc[i] ELSE IF r.vs[e.to].emit = i THEN r.vs[e.to].le ELSE Zero3
       IN CMul(RRound((ACos(e.wi, v.n) (.) w) (/) e.pdf, 200), CC(CC(e.f, L), e.tr))
Est(r, v, i) == VAdd(LightPart(r, v, i, TRUE), SurfPart(r, v, v.nb[1], i))
\* ---- P25: estimates from the samples taken ----
ColNear(a, b, t) == \A k \in 1..3 : NearRel(a[k], b[k], t)
T8 == "1e-8"
OfLight(r, i) == {k \in 1..Len(r.lsl) : r.lsl[k].i = i}
OfSurf(r, i) == {k \in 1..Len(r.nbl) : \E x \in 1..Len(r.who[k]) : r.who[k][x] = i}
RECURSIVE SumSet(_, _)
SumSet(f(_), S) == IF S = {} THEN Zero3 ELSE LET x == CHOOSE x \in S : TRUE IN VAdd(f(x), SumSet(f, S \ {x}))
PartsOf(r, i, mis) ==
  LET v == r.vs[1] IN
  VAdd(SumSet(LAMBDA k : CMul(r.lsl[k].fac, LightPart(r, v, i, mis)), OfLight(r, i)),
       IF ~mis THEN Zero3 ELSE SumSet(LAMBDA k : CMul(r.nbl[k].fac, SurfPart(r, v, v.nb[k], i)), OfSurf(r, i)))
\* the emission seen at the point itself belongs to the integrator, not to the estimate; the point of P25 emits nothing
Expect25(r) ==
  CASE r.op = "all" -> CSum(LAMBDA i : CMul(1 (/) r.lights[i].ns, PartsOf(r, i, TRUE)), Lit(r))
    [] r.op = "allr" -> CSum(LAMBDA i : PartsOf(r, i, TRUE), Lit(r))
    [] r.op \in {"one", "oner"} -> CMul(Lit(r), CSum(LAMBDA i : PartsOf(r, i, TRUE), Lit(r)))
    [] r.op = "whitted" -> CSum(LAMBDA i : PartsOf(r, i, FALSE), Lit(r))
    [] r.op = "est" -> Est(r, r.vs[1], 1)
Times(r, i) == IF r.op = "all" THEN r.lights[i].ns ELSE 1
Chosen(r) == {r.lsl[k].i : k \in 1..Len(r.lsl)}
Min(a, b) == IF a < b THEN a ELSE b
PickOf(u, n) == Min(RFloor(u (.) n), n - 1) + 1
Counts25(r) ==
  LET n == Lit(r) IN
  CASE r.op \in {"all", "allr", "whitted"} -> \A i \in 1..n : Cardinality(OfLight(r, i)) = Times(r, i)
    [] r.op \in {"one", "oner"} -> Len(r.lsl) = Min(n, 1)
    [] OTHER -> TRUE
SurfCounts(r) ==
  LET n == Lit(r) IN
  CASE r.op \in {"all", "allr"} -> /\ Len(r.nbl) >= RFloor(RSum([i \in 1..n |-> IF r.lights[i].delta THEN 0 ELSE Times(r, i)]))
                                   /\ Len(r.nbl) <= RFloor(RSum([i \in 1..n |-> Times(r, i)]))
                                   /\ \A i \in 1..n : Cardinality(OfSurf(r, i)) <= Times(r, i)
    [] r.op \in {"one", "oner"} -> Len(r.nbl) <= Cardinality(Chosen(r)) /\ Len(r.nbl) >= Cardinality({i \in Chosen(r) : ~r.lights[i].delta})
    [] r.op = "whitted" -> Len(r.nbl) = 0
    [] OTHER -> TRUE
\* requested values: found, index-aligned, used once; the sets of one light have the length it asked for
Uses(r) == [k \in 1..(Len(r.lsl) + Len(r.nbl)) |-> IF k <= Len(r.lsl) THEN r.lsl[k].use ELSE r.nbl[k - Len(r.lsl)].use]
Consumed(r) ==
  LET u == Uses(r) IN
  /\ \A k \in DOMAIN u : \A x \in 1..4 : u[k][x] >= 0
  /\ \A k \in DOMAIN u : u[k][2] = u[k][4]
  /\ \A j, k \in DOMAIN u : j # k => <<u[j][1], u[j][2]>> # <<u[k][1], u[k][2]>> /\ <<u[j][3], u[j][4]>> # <<u[k][3], u[k][4]>>
  /\ \A j, k \in 1..Len(r.lsl) : r.lsl[j].i = r.lsl[k].i => u[j][1] = u[k][1] /\ u[j][3] = u[k][3]
RaysFine(r, k) == LET q == r.rays[k] IN q.kind = "?" \/ (q.time = r.time /\ q.mint = r.vs[q.fr].eps /\ q.maxt = "inf")
ShadowFine(r) == \A k \in 1..Len(r.shadow) : r.shadow[k].time = r.time /\ r.shadow[k].mint = r.shadow[k].eps
P25Fails(r) ==
  IF r.err # "" THEN {"raised"} ELSE
  IF r.op = "cdf" THEN
    LET y == [i \in 1..Len(r.power) |-> Lum(r.power[i])] tot == RSum(y)
        below(k) == RSum([i \in 1..k |-> y[i]]) (/) tot
    IN IF \A j \in 1..Len(r.us) : LET k == r.k[j] + 1 u == r.us[j] IN (below(k - 1) (-) "1e-9") \preceq u /\ u \preceq (below(k) (+) "1e-9") THEN {} ELSE {"selection-by-power"}
  ELSE
  (IF ~ColNear(r.L, Expect25(r), T8) THEN {"estimate"} ELSE {})
  \cup (IF ~Counts25(r) THEN {"light-samples-taken"} ELSE {})
  \cup (IF ~SurfCounts(r) THEN {"surface-samples-taken"} ELSE {})
  \cup (IF r.op \in {"all", "one"} /\ ~Consumed(r) THEN {"requested-samples-used-once"} ELSE {})
  \cup (IF r.op = "oner" /\ Lit(r) > 0 /\ Chosen(r) # {PickOf(r.c, Lit(r))} THEN {"every-light-equally-likely"} ELSE {})
  \cup (IF r.op = "one" /\ Lit(r) > 0 /\ \A k \in 1..Len(r.sel) : Chosen(r) # {PickOf(r.sel[k], Lit(r))} THEN {"every-light-equally-likely"} ELSE {})
  \cup (IF \E k \in 1..Len(r.rays) : ~RaysFine(r, k) THEN {"rays-keep-time-and-clearance"} ELSE {})
  \cup (IF ~ShadowFine(r) THEN {"rays-keep-time-and-clearance"} ELSE {})
  \cup (IF Len(r.odd) > 0 THEN {"asks-about-the-right-directions"} ELSE {})
\* ---- P26: transport ----
Emit(r, v) == IF r.vs[v].emit = 0 THEN Zero3 ELSE r.vs[v].le
SumLights(r, v) == CSum(LAMBDA i : Est(r, r.vs[v], i), Lit(r))
OneLight(r, v) == IF Lit(r) = 0 THEN Zero3 ELSE CMul(Lit(r), Est(r, r.vs[v], r.pick))
Scat(v, e) == IF Blk(e.f) \/ e.pdf \preceq 0 THEN Zero3 ELSE R3(CMul(ACos(e.wi, v.n) (/) e.pdf, e.f))
RECURSIVE Path(_, _, _, _, _)
\* radiance carried by the path from point v on, after k bounces, with the throughput thr so far; lit: emission at v not yet counted
Path(r, v, k, thr, lit) ==
  LET vx == r.vs[v] e == vx.pb
      here == VAdd(IF lit THEN CC(thr, Emit(r, v)) ELSE Zero3, CC(thr, OneLight(r, v)))
      t1 == CC(thr, Scat(vx, e))
      go == RMin("1/2", Lum(t1))
      roul == k > 3
      t2 == CC(IF roul THEN R3(CMul(1 (/) go, t1)) ELSE t1, e.tr)
  IN IF Blk(e.f) \/ e.pdf \preceq 0 \/ k = r.maxd \/ (roul /\ r.c \succeq go) THEN here
     ELSE IF e.to = 0 THEN VAdd(here, IF e.spec THEN CC(t2, Esc(r, e)) ELSE Zero3)
     ELSE VAdd(here, Path(r, e.to, k + 1, t2, e.spec))
RECURSIVE Unclear(_, _, _, _)
\* the random number lies on the border of the roulette
Unclear(r, v, k, thr) ==
  LET vx == r.vs[v] e == vx.pb t1 == CC(thr, Scat(vx, e)) go == RMin("1/2", Lum(t1)) roul == k > 3
  IN IF Blk(e.f) \/ e.pdf \preceq 0 \/ k = r.maxd THEN FALSE
     ELSE (roul /\ Near(r.c, go, "1e-9")) \/ (~(roul /\ r.c \succeq go) /\ e.to # 0 /\ Unclear(r, e.to, k + 1, CC(IF roul THEN R3(CMul(1 (/) go, t1)) ELSE t1, e.tr)))
RECURSIVE Rec(_, _, _)
Along(r, v, e, depth) ==
  IF Blk(e.f) \/ e.pdf \preceq 0 THEN Zero3
  ELSE CC(Scat(r.vs[v], e), VAdd(CC(e.tr, IF e.to = 0 THEN Esc(r, e) ELSE Rec(r, e.to, depth + 1)), e.lvi))
Rec(r, v, depth) ==
  VAdd(VAdd(Emit(r, v), CASE r.op = "all" -> SumLights(r, v) [] r.op = "one" -> OneLight(r, v)
                          [] r.op = "whitted" -> CSum(LAMBDA i : LightPart(r, r.vs[v], i, FALSE), Lit(r))),
       IF depth + 1 < r.maxd THEN VAdd(Along(r, v, r.vs[v].sr, depth), Along(r, v, r.vs[v].st, depth)) ELSE Zero3)
Expect26(r) ==
  LET e == r.cam IN
  VAdd(CC(e.tr, IF e.to = 0 THEN Esc(r, e) ELSE IF r.op = "path" THEN Path(r, e.to, 0, One3, TRUE) ELSE Rec(r, e.to, r.depth0)), e.lvi)
\* depths of points and the rays between them
RECURSIVE DepthOf(_, _)
DepthOf(r, v) ==
  IF v = r.cam.to THEN r.depth0
  ELSE LET P == {u \in 1..Len(r.vs) : r.vs[u].pb.to = v \/ r.vs[u].sr.to = v \/ r.vs[u].st.to = v} IN IF P = {} THEN -1 ELSE LET u == CHOOSE u \in P : TRUE IN DepthOf(r, u) + 1
Bounce(q) == q.kind \in {"pb", "sr", "st"}
RayFine26(r, q) ==
  q.kind = "cam" \/ q.kind = "?" \/
  (/\ q.time = r.time /\ q.mint = r.vs[q.fr].eps /\ q.maxt = "inf"
   /\ (Bounce(q) => q.depth = DepthOf(r, q.fr) + 1))
Reflect(w, n) == VSub(VMul(2 (.) Dot(w, n), n), w)
Refract(w, n, eta) ==
  LET c == Dot(w, n) h == IF c \succ 0 THEN 1 (/) eta ELSE eta
      ct == RSqrt(RMax(0, 1 (-) ((h (.) h) (.) (1 (-) (c (.) c)))))
  IN VAdd(VMul(RNeg(h), w), VMul((h (.) c) (-) (IF c \succ 0 THEN ct ELSE RNeg(ct)), n))
\* the auxiliary ray is the neighbouring ray mirrored or refracted at the neighbouring point, to first order
AuxFine(r, q) ==
  LET v == r.vs[q.fr] e == IF q.kind = "sr" THEN v.sr ELSE v.st
      ok(inc, dn, dp, d, o) ==
        LET w == VNeg(inc) n == Unit(VAdd(v.n, dn))
            s == RMax(MaxAbs3(VSub(w, v.wo)), MaxAbs3(dn)) tol == ("4000" (.) (s (.) s)) (+) "1e-11"
            x == IF q.kind = "sr" THEN Reflect(w, n) ELSE Refract(w, n, v.eta)
        IN s \succ "1e-2" \/ ACos(e.wi, v.n) \prec "1/10" \/ (VNear(d, x, tol) /\ VNear(o, VAdd(v.p, dp), "1e-9" (.) RMax(1, MaxAbs3(v.p))))
  IN ok(q.inx, q.dnx, q.dpx, q.rxd, q.rxo) /\ ok(q.iny, q.dny, q.dpy, q.ryd, q.ryo)
\* requested values serve one purpose at one bounce
Fresh(r) ==
  LET u == r.lsl \o r.nbl \o r.pbl
  IN \A j, k \in 1..Len(u) : j # k /\ u[j].use[1] >= 0 /\ u[k].use[1] >= 0 =>
       <<u[j].use[1], u[j].use[2]>> # <<u[k].use[1], u[k].use[2]>> /\ <<u[j].use[3], u[j].use[4]>> # <<u[k].use[3], u[k].use[4]>>
\* a path's first three points take their choices from the camera sample, later ones from the source of random numbers
Requested(r) ==
  LET u == r.lsl \o r.nbl \o r.pbl
  IN \A j \in 1..Len(u) : (DepthOf(r, u[j].v) - r.depth0 < 3) = (u[j].use[1] >= 0 /\ u[j].use[3] >= 0)
P26Fails(r) ==
  IF r.err # "" THEN {"raised"} ELSE
  (IF ~(r.op = "path" /\ r.cam.to # 0 /\ Unclear(r, r.cam.to, 0, One3)) /\ ~ColNear(r.L, Expect26(r), T8) THEN {"radiance"} ELSE {})
  \cup (IF ~VNear(r.T, r.cam.tr, T8) THEN {"transmittance-comes-with-the-radiance"} ELSE {})
  \cup (IF r.op = "path" /\ Cardinality({k \in 1..Len(r.rays) : r.rays[k].kind = "pb"}) > r.maxd THEN {"bounces-bounded"} ELSE {})
  \cup (IF r.op # "path" /\ \E k \in 1..Len(r.rays) : r.rays[k].kind \in {"sr", "st"} /\ r.rays[k].depth >= r.maxd THEN {"bounces-bounded"} ELSE {})
  \cup (IF \E k \in 1..Len(r.rays) : ~RayFine26(r, r.rays[k]) THEN {"rays-carry-depth-and-time"} ELSE {})
  \cup (IF ~ShadowFine(r) THEN {"rays-carry-depth-and-time"} ELSE {})
  \cup (IF \E k \in 1..Len(r.rays) : r.rays[k].kind \in {"sr", "st"} /\ (r.rays[k].lost \/ (r.rays[k].has /\ ~AuxFine(r, r.rays[k]))) THEN {"auxiliary-rays-follow"} ELSE {})
  \cup (IF r.op = "path" /\ ~Fresh(r) THEN {"samples-are-fresh-at-every-bounce"} ELSE {})
  \cup (IF r.op = "path" /\ ~Requested(r) THEN {"first-points-use-the-requested-samples"} ELSE {})
  \cup (IF ~r.keep THEN {"the-given-ray-is-kept"} ELSE {})
  \cup (IF Len(r.odd) > 0 THEN {"asks-about-the-right-directions"} ELSE {})
================================================================================
