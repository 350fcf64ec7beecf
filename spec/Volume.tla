------------------------------- MODULE Volume -------------------------------
(* Participating media (P32).  A region g of r.regs has its kind, spectra     *)
(* sa, ss, le, asymmetry g, extent [lo, hi] in its own frame, region-to-world *)
(* matrix m with inverse mi, and its density: a grid [z][y][x] or a, b, up.   *)
EXTENDS Lin
M9 == "1e-9"
Yw == <<"0.212671", "0.715160", "0.072169">>
Lum(c) == Dot(Yw, c)
Fin(x) == RIsNum(x)
\* ---- density at a point of the region's own frame ----
Clamp(k, n) == IF k < 0 THEN 0 ELSE IF k > n - 1 THEN n - 1 ELSE k
Cell(g, x, y, z) == g.grid[Clamp(z, Len(g.grid)) + 1][Clamp(y, Len(g.grid[1])) + 1][Clamp(x, Len(g.grid[1][1])) + 1]
Mix(t, a, b) == a (+) (t (.) (b (-) a))
GridAt(g, q) ==
  LET n == <<Len(g.grid[1][1]), Len(g.grid[1]), Len(g.grid)>>
      v == [k \in 1..3 |-> (((q[k] (-) g.lo[k]) (/) (g.hi[k] (-) g.lo[k])) (.) n[k]) (-) "1/2"]
      i == [k \in 1..3 |-> RFloor(v[k])]
      d == [k \in 1..3 |-> v[k] (-) i[k]]
      row(y, z) == Mix(d[1], Cell(g, i[1], y, z), Cell(g, i[1] + 1, y, z))
      slab(z) == Mix(d[2], row(i[2], z), row(i[2] + 1, z))
  IN Mix(d[3], slab(i[3]), slab(i[3] + 1))
Inside(g, q) == \A k \in 1..3 : g.lo[k] \preceq q[k] /\ q[k] \preceq g.hi[k]
Edge(g, q) == \E k \in 1..3 : Near(q[k], g.lo[k], M9) \/ Near(q[k], g.hi[k], M9)
Dens(g, q) == IF ~Inside(g, q) THEN "0" ELSE
              CASE g.kind = "homog" -> "1"
                [] g.kind = "expo" -> g.a (.) RExp(RNeg(g.b (.) Dot(VSub(q, g.lo), Unit(g.up))))
                [] g.kind = "grid" -> GridAt(g, q)
Own(g, p) == MPt(g.mi, p)
CMul(s, c) == [k \in 1..3 |-> s (.) c[k]]
RECURSIVE CSum(_, _)
CSum(f(_), k) == IF k = 0 THEN Zero3 ELSE VAdd(CSum(f, k - 1), f(k))
At(r, field, p) == CSum(LAMBDA k : CMul(Dens(r.regs[k], Own(r.regs[k], p)), r.regs[k][field]), Len(r.regs))
Hg(g, c) == ((1 (-) (g (.) g)) (/) RPowR((1 (+) (g (.) g)) (-) ((2 (.) g) (.) c), "1.5")) (/) (4 (.) PI)
\* one region: its phase function (none outside a homogeneous region); several: the mean weighted by how much each scatters
PhaseOf(g, p, c) == IF g.kind = "homog" /\ ~Inside(g, Own(g, p)) THEN "0" ELSE Hg(g.g, c)
PhaseAt(r, p, c) ==
  IF ~r.agg THEN PhaseOf(r.regs[1], p, c)
  ELSE LET w == [k \in 1..Len(r.regs) |-> Lum(CMul(Dens(r.regs[k], Own(r.regs[k], p)), r.regs[k].ss))]
           tot == RSum(w)
       IN IF tot \preceq "1e-12" THEN "0" ELSE RSum([k \in 1..Len(r.regs) |-> w[k] (.) PhaseOf(r.regs[k], p, c)]) (/) tot
ColNear(a, b, t) == \A k \in 1..3 : NearRel(a[k], b[k], t)
PointFails(r) ==
  IF r.err # "" THEN {"region-raised"} ELSE
  IF \E k \in 1..Len(r.regs) : Edge(r.regs[k], Own(r.regs[k], r.p)) THEN {} ELSE
  LET a == At(r, "sa", r.p) s == At(r, "ss", r.p) IN
  (IF ~ColNear(r.sa, a, M9) THEN {"absorption"} ELSE {})
  \cup (IF ~ColNear(r.ss, s, M9) THEN {"scattering"} ELSE {})
  \cup (IF ~ColNear(r.st, VAdd(a, s), M9) THEN {"attenuation-is-their-sum"} ELSE {})
  \cup (IF ~ColNear(r.le, At(r, "le", r.p), M9) THEN {"emission"} ELSE {})
  \cup (IF ~(r.agg /\ Lum(s) \preceq "1e-12" /\ r.ph \succeq 0) /\ ~NearRel(r.ph, PhaseAt(r, r.p, Dot(r.w, r.wp)), "1e-7") THEN {"phase-function"} ELSE {})
  \cup (IF ~r.again THEN {"queries-do-not-change-the-medium"} ELSE {})
\* ---- the interval a ray overlaps a region ----
Slab(g, o, d, k) ==
  IF d[k] \doteq 0 THEN IF g.lo[k] \preceq o[k] /\ o[k] \preceq g.hi[k] THEN [lo |-> "-inf", hi |-> "inf"] ELSE [lo |-> "inf", hi |-> "-inf"]
  ELSE LET a == (g.lo[k] (-) o[k]) (/) d[k] b == (g.hi[k] (-) o[k]) (/) d[k] IN [lo |-> RMin(a, b), hi |-> RMax(a, b)]
Over(g, q) ==
  LET o == MPt(g.mi, q.o) d == MVec(g.mi, q.d) s == [k \in 1..3 |-> Slab(g, o, d, k)]
  IN [lo |-> RMax(q.mint, RMax(s[1].lo, RMax(s[2].lo, s[3].lo))), hi |-> RMin(q.maxt, RMin(s[1].hi, RMin(s[2].hi, s[3].hi)))]
Hits(v) == v.lo \preceq v.hi
\* misses or hits by less than rounding, or runs along a face
Unsure(v) == Fin(v.lo) /\ Fin(v.hi) /\ NearRel(v.lo, v.hi, "1e-8")
AnyUnsure(r) == \E k \in 1..Len(r.regs) : Unsure(Over(r.regs[k], r.ray))
HitSet(r) == {k \in 1..Len(r.regs) : Hits(Over(r.regs[k], r.ray))}
Hull(r) == LET H == HitSet(r) IN [lo |-> RNeg(SetMax({RNeg(Over(r.regs[k], r.ray).lo) : k \in H})), hi |-> SetMax({Over(r.regs[k], r.ray).hi : k \in H})]
IntervalFails(r) ==
  IF r.err # "" THEN {"region-raised"} ELSE IF AnyUnsure(r) THEN {} ELSE
  IF r.hit # (HitSet(r) # {}) THEN {"overlaps-exactly-when-crossing"} ELSE
  IF ~r.hit THEN {} ELSE
  LET h == Hull(r) IN IF ~NearRel(r.t0, h.lo, "1e-8") \/ ~NearRel(r.t1, h.hi, "1e-8") THEN {"interval-of-the-extent"} ELSE {}
\* ---- optical thickness: exact for a homogeneous region, the declared sum over regular steps (from the entry, offset by u) otherwise ----
RECURSIVE Steps(_, _, _, _, _, _)
Steps(g, q, t, t1, step, n) ==
  IF t \succeq t1 \/ n = 0 THEN "0"
  ELSE Dens(g, Own(g, VAdd(q.o, VMul(t, q.d)))) (+) Steps(g, q, t (+) step, t1, step, n - 1)
RECURSIVE StepEdge(_, _, _, _, _, _)
StepEdge(g, q, t, t1, step, n) ==
  IF n = 0 THEN FALSE ELSE Near(t, t1, "1e-8") \/ (t \prec t1 /\ (Edge(g, Own(g, VAdd(q.o, VMul(t, q.d)))) \/ StepEdge(g, q, t (+) step, t1, step, n - 1)))
TauOf(g, r) ==
  LET v == Over(g, r.ray) l == Length(r.ray.d) st == VAdd(g.sa, g.ss) IN
  IF ~Hits(v) THEN [v |-> Zero3, sure |-> TRUE]
  ELSE IF g.kind = "homog" THEN [v |-> CMul((v.hi (-) v.lo) (.) l, st), sure |-> TRUE]
  ELSE LET q == [o |-> r.ray.o, d |-> Unit(r.ray.d)] a == (v.lo (.) l) (+) (r.u (.) r.step)
       IN [v |-> CMul(r.step (.) Steps(g, q, a, v.hi (.) l, r.step, 3000), st), sure |-> ~StepEdge(g, q, a, v.hi (.) l, r.step, 3000)]
TauFails(r) ==
  IF r.err # "" THEN {"region-raised"} ELSE IF AnyUnsure(r) THEN {} ELSE
  LET t == [k \in 1..Len(r.regs) |-> TauOf(r.regs[k], r)] IN
  IF \E k \in 1..Len(r.regs) : ~t[k].sure THEN {} ELSE
  IF ~ColNear(r.tau, CSum(LAMBDA k : t[k].v, Len(r.regs)), "1e-7") THEN {"optical-thickness"} ELSE {}
\* ---- bounds ----
CornersOf(g) == {MPt(g.m, <<x, y, z>>) : x \in {g.lo[1], g.hi[1]}, y \in {g.lo[2], g.hi[2]}, z \in {g.lo[3], g.hi[3]}}
BoundFails(r) ==
  IF r.err # "" THEN {"region-raised"} ELSE
  LET C == UNION {CornersOf(r.regs[k]) : k \in 1..Len(r.regs)} IN
  (IF \E c \in C : \E k \in 1..3 : c[k] \prec (r.lo[k] (-) "1e-7") \/ c[k] \succ (r.hi[k] (+) "1e-7") THEN {"bound-holds-the-medium"} ELSE {})
  \cup (IF \E k \in 1..3 : (\A c \in C : c[k] \succ (r.lo[k] (+) "1e-7")) \/ (\A c \in C : c[k] \prec (r.hi[k] (-) "1e-7")) THEN {"bound-is-tight"} ELSE {})
  \cup (IF \E c \in C : \E k \in 1..3 : c[k] \prec (r.slo[k] (-) "1e-7") \/ c[k] \succ (r.shi[k] (+) "1e-7") THEN {"scene-holds-the-medium"} ELSE {})
  \cup (IF \E k \in 1..3 : r.alo[k] \prec r.slo[k] \/ r.ahi[k] \succ r.shi[k] THEN {"scene-holds-the-surfaces"} ELSE {})
  \cup (IF \E k \in 1..3 : ~(r.slo[k] \doteq RMin(r.alo[k], r.lo[k])) \/ ~(r.shi[k] \doteq RMax(r.ahi[k], r.hi[k])) THEN {"scene-bound-is-the-union"} ELSE {})
  \cup (IF r.lo2 # r.lo \/ r.hi2 # r.hi \/ r.alo2 # r.alo \/ r.ahi2 # r.ahi THEN {"bounds-keep-their-value-when-a-scene-is-made"} ELSE {})
\* ---- phase functions, of the cosine c ----
Half(c) == (1 (+) c) (/) 2
Phase(name, c, g) ==
  LET k == ("1.55" (.) g) (-) ("0.55" (.) RPow(g, 3)) IN
  (CASE name = "iso" -> "1"
     [] name = "rayleigh" -> "3/4" (.) (1 (+) (c (.) c))
     [] name = "hazy" -> "1/2" (+) ("9/2" (.) RPow(Half(c), 8))
     [] name = "murky" -> "1/2" (+) ("33/2" (.) RPow(Half(c), 32))
     [] name = "hg" -> (4 (.) PI) (.) Hg(g, c)
     [] name = "schlick" -> (1 (-) (k (.) k)) (/) RPow(1 (-) (k (.) c), 2)) (/) (4 (.) PI)
PhaseFails(r) == IF r.err # "" THEN {"phase-raised"} ELSE IF ~NearRel(r.v, Phase(r.name, Dot(r.w, r.wp), r.g), "1e-8") THEN {"phase-" \o r.name} ELSE {}
\* measured liquids: both spectra are present, and milk, cream and skin scatter far more than they absorb
MeasuredFails(r) ==
  IF r.err # "" THEN {"measured-raised"} ELSE
  IF r.unknown THEN IF r.none THEN {} ELSE {"unknown-name-has-no-data"} ELSE
  (IF \E k \in 1..3 : r.sa[k] \prec 0 \/ r.ss[k] \prec 0 THEN {"measured-coefficients"} ELSE {})
  \cup (IF r.milky /\ \E k \in 1..3 : r.sa[k] \succ r.ss[k] THEN {"measured-absorption-and-scattering"} ELSE {})
P32Fails(r) ==
  CASE r.op = "point" -> PointFails(r)
    [] r.op = "interval" -> IntervalFails(r)
    [] r.op = "tau" -> TauFails(r)
    [] r.op = "still" -> IF r.err # "" THEN {"region-raised"} ELSE IF \E k \in 1..3 : ~(r.tau[k] \doteq 0) THEN {"thickness-of-no-distance"} ELSE {}
    [] r.op = "bound" -> BoundFails(r)
    [] r.op = "phase" -> PhaseFails(r)
    [] r.op = "measured" -> MeasuredFails(r)
==============================================================================
