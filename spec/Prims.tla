-------------------------------- MODULE Prims --------------------------------
(* Refinement (P05) and instances (P06).                                     *)
EXTENDS Shapes
Distinct(s) == \A j, k \in 1..Len(s) : j # k => s[j] # s[k]
Rng(s) == {s[k] : k \in 1..Len(s)}
\* ---- P05 ----
RECURSIVE Reached(_, _)
Reached(r, k) == k = 1 \/ (~r.can[r.parent[k]] /\ Reached(r, r.parent[k]))
TreeFails(r) ==
  IF r.err # "" THEN {"refinement-raised"} ELSE
  LET leaves == {k \in 1..r.n : r.can[k] /\ Reached(r, k)} IN
  (IF ~Distinct(r.out) THEN {"leaf-yielded-twice"} ELSE {})
  \cup (IF ~(leaves \subseteq Rng(r.out)) THEN {"leaf-lost"} ELSE {})
  \cup (IF ~(Rng(r.out) \subseteq leaves) THEN {"something-else-yielded"} ELSE {})
  \cup (IF ~r.kept THEN {"earlier-results-kept"} ELSE {})
  \cup (IF ~r.itself THEN {"intersectable-yields-itself"} ELSE {})
  \cup (IF ~r.mats THEN {"material-carried"} ELSE {})
  \cup (IF ~r.lamps THEN {"area-light-carried"} ELSE {})
  \cup (IF ~Distinct(r.ids) THEN {"identifiers-differ"} ELSE {})
IdsFails(r) ==
  IF r.err # "" THEN {"creation-raised"} ELSE
  (IF ~Distinct(r.prim) THEN {"primitive-identifiers-differ"} ELSE {})
  \cup (IF ~Distinct(r.shape) THEN {"shape-identifiers-differ"} ELSE {})
HitsOf(s) == {k \in 1..Len(s) : s[k] # "miss"}
InfoFails(r) ==
  IF r.err # "" THEN {"query-raised"} ELSE
  LET S == HitsOf(r.singles) g == r.got IN
  IF \E k \in S : Near(r.singles[k], r.ray.mint, M6) \/ (r.ray.maxt # "inf" /\ Near(r.singles[k], r.ray.maxt, M6 (.) RMax(1, RAbs(r.ray.maxt)))) THEN {}   \* an end of the interval
  ELSE IF (S # {}) # g.hit THEN {"hit-iff-some-primitive-hit"}
  ELSE IF S = {} THEN {}
  ELSE (IF g.who = 0 \/ (g.who # 0 /\ r.singles[g.who] = "miss") THEN {"reported-primitive-was-hit"}
        ELSE LET l == r.leaves[g.who] IN
        (IF \E k \in S : (r.singles[k] (+) ("1e-9" (.) RMax(1, RAbs(r.singles[k])))) \prec r.singles[g.who] THEN {"reported-primitive-is-nearest"} ELSE {})
        \cup (IF ~Near(g.t, r.singles[g.who], "1e-9" (.) RMax(1, RAbs(g.t))) THEN {"distance-of-reported-primitive"} ELSE {})
        \cup (IF g.pid # l.pid THEN {"primitive-identifier"} ELSE {})
        \cup (IF g.sid # l.sid \/ ~g.shape THEN {"shape-identifier"} ELSE {})
        \cup (IF ~MNear(g.o2w, l.o2w, 0) \/ ~MNear(g.w2o, l.w2o, 0) THEN {"transforms"} ELSE {})
        \cup (IF g.bsdf # l.mat \/ g.bssrdf # l.mat THEN {"material"} ELSE {})
        \cup (IF g.feet # g.wantfeet THEN {"material-sees-the-footprint-of-its-ray"} ELSE {})
        \cup (IF ~(g.le \doteq l.lamp) THEN {"area-light"} ELSE {})
        \cup (IF ~VNear(g.point, VAdd(r.ray.o, VMul(g.t, r.ray.d)), "1e-4" (.) RMax(1, RMax(MaxAbs3(g.point), MaxAbs3(r.ray.o)))) THEN {"geometry"} ELSE {}))
P05Fails(r) == CASE r.op = "tree" -> TreeFails(r) [] r.op = "ids" -> IdsFails(r) [] r.op = "info" -> InfoFails(r) [] OTHER -> {}

\* ---- P06: leaf l with placement l.m, l.mi inside the instances l.chain (outermost first; .m world to instance) ----
RECURSIVE Up(_, _), Down(_, _)
Up(l, k) == IF k > Len(l.chain) THEN l.m ELSE MMul(l.chain[k].mi, Up(l, k + 1))        \* object to world
Down(l, k) == IF k = 0 THEN Id4 ELSE MMul(l.chain[k].m, Down(l, k - 1))                \* world to innermost instance
LeafMI(l) == MMul(l.mi, Down(l, Len(l.chain)))
\* one of a hit parameter, "miss", "doubt"
LeafExpected(r, l) ==
  IF l.kind = "quad" THEN Expected(l.s, r.ray, ObjRay([mi |-> LeafMI(l), ray |-> r.ray]))
  ELSE LET m == Up(l, 1)
           x == TriExpected([ray |-> r.ray, exact |-> FALSE], [k \in 1..3 |-> MPt(m, l.v[k])])
       IN IF x.k = "hit" THEN x.t ELSE x.k
DetailFails(r, l) ==
  LET m == Up(l, 1) mi == LeafMI(l) IN
  IF l.kind = "quad" THEN HitFails([m |-> m, mi |-> mi, s |-> l.s, v |-> r.vv] @@ r)
  ELSE TriFails([m |-> m, mi |-> mi, m0 |-> l.m] @@ (l @@ r))
InstFails(r) ==
  IF r.err # "" THEN {"query-raised"} ELSE
  LET n == Len(r.leaves)
      e == [k \in 1..n |-> LeafExpected(r, r.leaves[k])]
      S == {k \in 1..n : e[k] # "miss"}
  IN IF \E k \in 1..n : e[k] = "doubt" THEN {}
     ELSE (IF ~r.keep THEN {"other-ray-fields-untouched"} ELSE {})
       \cup (IF r.hit # (S # {}) THEN {IF r.hit THEN "hit-where-there-is-none" ELSE "missed-hit"} ELSE {})
       \cup (IF r.occ # (S # {}) THEN {"occlusion-query-agrees"} ELSE {})
       \cup (IF ~r.hit /\ ~(r.maxt \doteq r.ray.maxt) THEN {"miss-leaves-ray"} ELSE {})
       \cup (IF ~r.hit \/ S = {} THEN {} ELSE
             LET own == {k \in 1..n : r.leaves[k].sid = r.gsid}
             IN IF own = {} \/ ~r.who THEN {"reported-leaf"}
                ELSE LET k == CHOOSE j \in own : TRUE
                         l == r.leaves[k]
                         m == Up(l, 1) mi == LeafMI(l)
                     IN IF k \notin S THEN {"reported-leaf-was-hit"}
                        ELSE (IF \E j \in S : (e[j] (+) (M6 (.) RMax(1, RAbs(e[j])))) \prec e[k] THEN {"reported-leaf-is-nearest"} ELSE {})
                             \cup (IF ~r.ident THEN {"instance-identifier"} ELSE {})
                             \cup (IF ~MNear(r.io2w, m, "1e-7" (.) RMax(1, MaxAbsM(m))) \/ ~MNear(r.iw2o, mi, "1e-7" (.) RMax(1, MaxAbsM(mi))) THEN {"object-transforms-in-world"} ELSE {})
                             \cup (DetailFails(r, l) \ {"ray-left-alone"}))
LeafPts(l) == IF l.kind = "quad" THEN SurfPts(l.s) ELSE Rng(l.v)
InstBoundFails(r) ==
  IF r.err # "" THEN {"bound-raised"} ELSE
  LET tol == "2e-3" (.) RMax(1, RMax(MaxAbs3(r.wb.lo), MaxAbs3(r.wb.hi)))     \* bounds of moving geometry are stepped
  IN IF \E k \in 1..Len(r.leaves) : LET m == Up(r.leaves[k], 1) IN \E p \in LeafPts(r.leaves[k]) : ~BInTol(r.wb, MPt(m, p), tol) THEN {"bound-contains-moved-geometry"} ELSE {}
MiscFails(r) == IF r.err # "" THEN {"printing-or-asking-raised"} ELSE IF ~r.can THEN {"instance-of-intersectable-is-intersectable"} ELSE {}
P06Fails(r) == CASE r.op = "inst" -> InstFails(r) [] r.op = "instbound" -> InstBoundFails(r) [] r.op = "misc" -> MiscFails(r) [] OTHER -> {}

\* ---- P24: a visibility query; the specification's own ray, and the ray the scene was handed (ray) ----
VisFails(r) ==
  IF r.err # "" THEN {"visibility-raised"} ELSE
  LET d == VSub(r.p2, r.p1)
      dist == Length(d)
      w == IF r.kind = "seg" THEN VMul(1 (/) dist, d) ELSE r.w
      own == [o |-> r.p1, d |-> w, mint |-> r.e1, maxt |-> IF r.kind = "seg" THEN dist (.) (1 (-) r.e2) ELSE "inf"]
      big == RMax(1, RMax(MaxAbs3(r.p1), MaxAbs3(r.p2)))
      tol == "1e-9" (.) big
      at(t) == VAdd(r.ray.o, VMul(t, r.ray.d))
      e == [k \in 1..Len(r.leaves) |-> LeafExpected([ray |-> own], r.leaves[k])]
      free == \A k \in 1..Len(r.leaves) : e[k] = "miss"
      doubt == \E k \in 1..Len(r.leaves) : e[k] = "doubt"
      blocked == \E k \in 1..Len(r.leaves) : e[k] \notin {"doubt", "miss"}
  IN (IF r.one # r.two THEN {"repeated-queries-agree"} ELSE {})
     \cup (IF ~r.clear THEN {"unblocked-scene-is-unoccluded"} ELSE {})
     \cup (IF ~r.keep THEN {"operands-untouched"} ELSE {})
     \cup (IF ~r.through THEN {"light-dimmed-along-the-same-segment"} ELSE {})
     \cup (IF ~(r.rtime \doteq r.time) THEN {"query-keeps-time"} ELSE {})
     \cup (IF ~Parallel(r.ray.d, w, "1e-9") \/ ~(Dot(r.ray.d, w) \succ 0) THEN {"query-direction"} ELSE {})
     \cup (IF ~VNear(at(r.ray.mint), VAdd(r.p1, VMul(r.e1, w)), tol) THEN {"query-start"} ELSE {})
     \cup (IF r.kind = "ray" THEN IF r.ray.maxt # "inf" THEN {"query-unbounded"} ELSE {}
           ELSE IF r.ray.maxt = "inf" \/ ~VNear(at(r.ray.maxt), VAdd(r.p1, VMul(own.maxt, w)), tol) THEN {"query-end"} ELSE {})
     \cup (IF free /\ ~r.one THEN {"blocked-by-nothing"} ELSE {})
     \cup (IF blocked /\ r.one THEN {"occluder-ignored"} ELSE {})
P24Fails(r) == IF r.op = "vis" THEN VisFails(r) ELSE {}
=============================================================================
