------------------------------ MODULE Sampling ------------------------------
(* Piecewise-constant distributions (P27) and warps of the unit square (P28). *)
EXTENDS Lin
M9 == "1e-9"
M6 == "1e-6"
\* ---- piecewise-constant distributions over [0, 1) ----
Sum(f) == RSum(f)
\* cumulative probability of position x under table f
Cum(f, x) ==
  LET n == Len(f)
      y == x (.) n
      b == IF RFloor(y) >= n THEN n ELSE RFloor(y)          \* complete bins below x
      part == IF b = n THEN "0" ELSE (y (-) b) (.) f[b + 1]
  IN (RSumTo(f, b) (+) part) (/) Sum(f)
\* bins (1-based) whose closure contains x
BinsAt(f, x) == {k \in 1..Len(f) : (x (.) Len(f)) \succeq ((k - 1) (-) M9) /\ (x (.) Len(f)) \preceq (k (+) M9)}
Dens(f, k) == (f[k] (.) Len(f)) (/) Sum(f)
\* the specification's own inversion: smallest bin whose upper cumulative probability exceeds u
InvBin(f, u) == CHOOSE k \in 1..Len(f) : (RSumTo(f, k) (/) Sum(f)) \succ u /\ \A j \in 1..(k - 1) : (RSumTo(f, j) (/) Sum(f)) \preceq u
Inv(f, u) == LET k == InvBin(f, u) IN ((k - 1) (+) (((u (.) Sum(f)) (-) RSumTo(f, k - 1)) (/) f[k])) (/) Len(f)

ContFails(r) ==
  IF r.err # "" THEN {"sample-raised"} ELSE
  IF ~RIsNum(r.x) \/ ~RIsNum(r.pdf) THEN {"position-at-cumulative-probability"} ELSE
  IF Sum(r.f) \doteq 0 THEN IF r.pdf \doteq 0 /\ r.x \succeq 0 /\ r.x \preceq 1 THEN {} ELSE {"zero-table-has-zero-density"} ELSE
  LET B == {k \in BinsAt(r.f, r.x) : r.f[k] \succ 0}
  IN (IF r.x \prec (RNeg(M9)) \/ r.x \succ (1 (+) M9) \/ ~Near(Cum(r.f, RMax(0, RMin(1, r.x))), r.u, M9) THEN {"position-at-cumulative-probability"} ELSE {})
     \cup (IF B = {} THEN {"never-in-a-zero-probability-bin"}
           ELSE IF ~\E k \in B : NearRel(r.pdf, Dens(r.f, k), M9) THEN {"density-proportional-to-table"} ELSE {})
\* discrete: the bin holding u, with probability f/sum
DisFails(r) ==
  IF r.err # "" THEN {"discrete-raised"} ELSE
  IF r.k < 0 \/ r.k >= Len(r.f) THEN {"bin-in-range"} ELSE
  IF Sum(r.f) \doteq 0 THEN IF r.pdf \doteq 0 THEN {} ELSE {"zero-table-has-zero-density"} ELSE
  LET lo == RSumTo(r.f, r.k) (/) Sum(r.f)
      hi == RSumTo(r.f, r.k + 1) (/) Sum(r.f)
  IN (IF r.u \prec (lo (-) M9) \/ r.u \succ (hi (+) M9) THEN {"discrete-bin-holds-u"} ELSE {})
     \cup (IF r.f[r.k + 1] \doteq 0 THEN {"never-in-a-zero-probability-bin"} ELSE {})
     \cup (IF ~Near(r.pdf, r.f[r.k + 1] (/) Sum(r.f), M9) THEN {"discrete-probability"} ELSE {})
\* two dimensions: f[v][u]; rows by their sums
Rows(f) == [k \in 1..Len(f) |-> RSum(f[k]) (/) Len(f[k])]
Inside(x, n) == LET y == x (.) n IN ~Near(y, RRound(y, 0), "1e-7")
Dens2(f, a, b) == (f[b][a] (.) (Len(f) * Len(f[1]))) (/) RSum([k \in 1..Len(f) |-> RSum(f[k])])
Zero2(f) == \A k \in 1..Len(f) : RSum(f[k]) \doteq 0
TwoFails(r) ==
  IF r.err # "" THEN {"sample2d-raised"} ELSE
  IF ~RIsNum(r.u) \/ ~RIsNum(r.v) THEN {"row-by-marginal"} ELSE
  IF Zero2(r.f) THEN IF r.pdf \doteq 0 /\ r.q \doteq 0 THEN {} ELSE {"zero-table-has-zero-density"} ELSE
  LET m == Rows(r.f)
      bv == {k \in BinsAt(m, r.v) : m[k] \succ 0}
      okrow(k) == /\ Near(Cum(r.f[k], RMax(0, RMin(1, r.u))), r.u0, M9)
      B == {<<a, b>> \in (1..Len(r.f[1])) \X bv : r.f[b][a] \succ 0 /\ a \in BinsAt(r.f[b], r.u)}
      inner == Inside(r.u, Len(r.f[1])) /\ Inside(r.v, Len(r.f))
  IN (IF r.v \prec 0 \/ r.v \succ 1 \/ ~Near(Cum(m, r.v), r.u1, M9) THEN {"row-by-marginal"}
      ELSE IF ~\E k \in bv : okrow(k) THEN {"column-by-conditional"} ELSE {})
     \cup (IF ~\E q \in B : NearRel(r.pdf, Dens2(r.f, q[1], q[2]), M9) THEN {"density2d"} ELSE {})
     \cup (IF inner /\ ~NearRel(r.q, r.pdf, M9) THEN {"density-query-agrees-at-sample"} ELSE {})
\* density query at an arbitrary interior point
QueryFails(r) ==
  IF r.err # "" THEN {"query-raised"} ELSE
  IF Zero2(r.f) THEN IF r.q \doteq 0 THEN {} ELSE {"zero-table-has-zero-density"} ELSE
  LET a == RFloor(r.u (.) Len(r.f[1])) + 1 b == RFloor(r.v (.) Len(r.f)) + 1
  IN IF NearRel(r.q, Dens2(r.f, a, b), M9) THEN {} ELSE {"density-query"}
P27Fails(r) == CASE r.op = "cont" -> ContFails(r) [] r.op = "dis" -> DisFails(r) [] r.op = "two" -> TwoFails(r)
                 [] r.op = "query" -> QueryFails(r) [] OTHER -> {}

\* ---- warps ----
\* domain of each warp; planar points have third coordinate 0; r.ct cone cosine, r.ax its axis, r.g asymmetry
InDomain(r, p) ==
  CASE r.kind = "disk" -> Len2(p) \preceq (1 (+) M9)
    [] r.kind = "triangle" -> p[1] \succeq RNeg(M9) /\ p[2] \succeq RNeg(M9) /\ (p[1] (+) p[2]) \preceq (1 (+) M9)
    [] r.kind \in {"hemi", "cos"} -> IsUnit(p, M9) /\ p[3] \succeq RNeg(M9)
    [] r.kind \in {"sphere", "hg"} -> IsUnit(p, M6)
    [] r.kind = "cone" -> IsUnit(p, M6) /\ Dot(p, r.ax) \succeq (r.ct (-) M6)
\* density with respect to area (planar) or solid angle at p
Density(r, p) ==
  CASE r.kind = "disk" -> 1 (/) PI
    [] r.kind = "triangle" -> "2"
    [] r.kind = "hemi" -> 1 (/) (2 (.) PI)
    [] r.kind = "cos" -> p[3] (/) PI
    [] r.kind = "sphere" -> 1 (/) (4 (.) PI)
    [] r.kind = "cone" -> 1 (/) ((2 (.) PI) (.) (1 (-) r.ct))
    [] r.kind = "hg" -> LET q == (1 (+) (r.g (.) r.g)) (-) ((2 (.) r.g) (.) Dot(p, r.ax))
                        IN (1 (-) (r.g (.) r.g)) (/) ((4 (.) PI) (.) (q (.) RSqrt(q)))
\* r.p the sample, r.a / r.b the samples a step r.h to either side in u1, r.c / r.d in u2
WarpFails(r) ==
  IF r.err # "" THEN {"sampler-raised"} ELSE
  IF \E k \in 1..3 : ~RIsNum(r.p[k]) THEN {"sample-in-domain"} ELSE
  LET d1 == VSub(r.b, r.a) d2 == VSub(r.d, r.c)
      el == Length(Cross(d1, d2)) (/) ((4 (.) r.h) (.) r.h)
      \* no seam between the neighbours: second differences are small
      smooth == MaxAbs3(VSub(VAdd(r.a, r.b), VMul(2, r.p))) \prec (r.h (.) "1/100") /\ MaxAbs3(VSub(VAdd(r.c, r.d), VMul(2, r.p))) \prec (r.h (.) "1/100")
      den == Density(r, r.p)
  IN (IF ~InDomain(r, r.p) THEN {"sample-in-domain"} ELSE {})
     \cup (IF smooth /\ ~Near(el (.) den, 1, "2e-4") THEN {"map-preserves-area-proportions"} ELSE {})
     \cup (IF r.pdf # "" /\ ~NearRel(r.pdf, den, M6) THEN {"companion-density"} ELSE {})
\* strips: r.n samples on a grid of random numbers, r.in of them satisfied functional r.fn <= r.c
Strip(r) ==
  CASE r.fn = "half" -> "1/2"                                        \* a half of the domain cut through its symmetry
    [] r.fn = "quadrant" -> "1/4"
    [] r.fn = "axis" ->                                              \* along the axis of symmetry
         (CASE r.kind = "sphere" -> (r.c (+) 1) (/) 2
            [] r.kind = "hemi" -> r.c
            [] r.kind = "cone" -> (r.c (-) r.ct) (/) (1 (-) r.ct)
            [] r.kind = "hg" -> IF r.g \doteq 0 THEN (r.c (+) 1) (/) 2
                                ELSE ((1 (-) (r.g (.) r.g)) (/) (2 (.) r.g)) (.)
                                     ((1 (/) RSqrt((1 (+) (r.g (.) r.g)) (-) ((2 (.) r.g) (.) r.c))) (-) (1 (/) (1 (+) r.g)))
            [] r.kind \in {"disk", "cos"} -> r.c (.) r.c             \* radius
            [] r.kind = "triangle" -> 1 (-) ((1 (-) r.c) (.) (1 (-) r.c)))
    [] r.fn = "side" -> (r.c (+) 1) (/) 2                            \* x of a sphere or hemisphere
    [] r.fn = "second" -> 1 (-) ((1 (-) r.c) (.) (1 (-) r.c))        \* the other barycentric coordinates
StripFails(r) == IF r.err # "" THEN {"sampler-raised"} ELSE
                 IF Near(r.in (/) r.n, Strip(r), "3/100") THEN {} ELSE {"strip-measure-matches-probability"}
HeurFails(r) ==
  IF r.err # "" THEN {"heuristic-raised"} ELSE
  LET f == r.nf (.) r.fp g == r.ng (.) r.gp
      b == f (/) (f (+) g)
      p == (f (.) f) (/) ((f (.) f) (+) (g (.) g))
  IN (IF ~Near(r.b1 (+) r.b2, 1, M9) \/ ~Near(r.p1 (+) r.p2, 1, M9) THEN {"complementary-weights-sum-to-one"} ELSE {})
     \cup (IF ~Near(r.b1, b, M9) THEN {"balance-heuristic"} ELSE {})
     \cup (IF ~Near(r.p1, p, M9) THEN {"power-heuristic"} ELSE {})
P28Fails(r) == CASE r.op = "warp" -> WarpFails(r) [] r.op = "strip" -> StripFails(r) [] r.op = "heur" -> HeurFails(r) [] OTHER -> {}
=============================================================================
