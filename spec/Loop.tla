-------------------------------- MODULE Loop --------------------------------
(* Loop subdivision of triangle meshes.  A mesh is [f, p]: f a sequence of   *)
(* faces <<a, b, c>> (vertex numbers from 1), p the vertex positions.        *)
EXTENDS Lin
Edges(f) == UNION {{{f[k][1], f[k][2]}, {f[k][2], f[k][3]}, {f[k][3], f[k][1]}} : k \in DOMAIN f}
VSet(m) == 1..Len(m.p)
\* per vertex: the faces around it; per edge: the faces along it
Around(m) == TLCEval([v \in VSet(m) |-> {k \in 1..Len(m.f) : \E c \in 1..3 : m.f[k][c] = v}])
Along(m, ar, e) == LET a == CHOOSE a \in e : TRUE b == CHOOSE b \in e \ {a} : TRUE IN ar[a] \cap ar[b]
Nbrs(m, ar, v) == UNION {{m.f[k][1], m.f[k][2], m.f[k][3]} : k \in ar[v]} \ {v}
Other(m, k, e) == CHOOSE x \in {m.f[k][1], m.f[k][2], m.f[k][3]} : x \notin e
\* manifold, consistently oriented: every directed edge occurs once, every undirected one at most twice, and
\* the faces around a vertex form one fan
Directed(m) == {<<m.f[k][c], m.f[k][(c % 3) + 1]>> : k \in 1..Len(m.f), c \in 1..3}
Oriented(m) == Cardinality(Directed(m)) = 3 * Len(m.f)
BoundaryEdges(m, ar) == {e \in Edges(m.f) : Cardinality(Along(m, ar, e)) = 1}
\* corner k of face f at v: the vertex after v and the vertex before v
After(m, k, v) == LET c == CHOOSE c \in 1..3 : m.f[k][c] = v IN m.f[k][(c % 3) + 1]
Before(m, k, v) == LET c == CHOOSE c \in 1..3 : m.f[k][c] = v IN m.f[k][((c + 1) % 3) + 1]
\* the neighbours of v in order, counter-clockwise with the faces; starts at a boundary for a boundary vertex
RECURSIVE RingFrom(_, _, _, _, _)
RingFrom(m, ar, v, k, acc) ==
  LET nxt == Before(m, k, v)
      more == {j \in ar[v] : After(m, j, v) = nxt}
  IN IF Len(acc) > 0 /\ nxt = acc[1] THEN acc
     ELSE IF more = {} THEN Append(acc, nxt) ELSE RingFrom(m, ar, v, CHOOSE j \in more : TRUE, Append(acc, nxt))
Ring(m, ar, v) ==
  LET starts == {k \in ar[v] : ~\E j \in ar[v] : Before(m, j, v) = After(m, k, v)}
      k == IF starts # {} THEN CHOOSE k \in starts : TRUE ELSE CHOOSE k \in ar[v] : TRUE
  IN RingFrom(m, ar, v, k, <<After(m, k, v)>>)
IsBoundary(m, ar, v) == Cardinality(Nbrs(m, ar, v)) # Cardinality(ar[v])
Beta(n) == IF n = 3 THEN "3/16" ELSE "3" (/) (8 * n)
Gamma(n) == 1 (/) (n (+) ("3" (/) (8 (.) Beta(n))))
RECURSIVE SumPts(_, _)
SumPts(s, p) == IF s = {} THEN Zero3 ELSE LET x == CHOOSE x \in s : TRUE IN VAdd(p[x], SumPts(s \ {x}, p))
Rnd(v) == [k \in 1..3 |-> RRound(v[k], 160)]
WInterior(m, ar, v, beta) == LET n == Nbrs(m, ar, v) IN VAdd(VMul(1 (-) (Cardinality(n) (.) beta), m.p[v]), VMul(beta, SumPts(n, m.p)))
WBoundary(m, ar, be, v, beta) ==
  LET n == {x \in Nbrs(m, ar, v) : {x, v} \in be} IN VAdd(VMul(1 (-) (2 (.) beta), m.p[v]), VMul(beta, SumPts(n, m.p)))
\* one level: vertex v stays vertex v; the edges, numbered, follow
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SeqOf(S \ {x})
Subdivide(m) ==
  LET ar == Around(m)
      es == TLCEval(SeqOf(Edges(m.f)))
      be == TLCEval(BoundaryEdges(m, ar))
      nv == Len(m.p)
      num == TLCEval([e \in Edges(m.f) |-> nv + CHOOSE k \in 1..Len(es) : es[k] = e])
      even(v) == IF IsBoundary(m, ar, v) THEN WBoundary(m, ar, be, v, "1/8") ELSE WInterior(m, ar, v, Beta(Cardinality(ar[v])))
      odd(e) == IF e \in be THEN VMul("1/2", SumPts(e, m.p))
                ELSE VAdd(VMul("3/8", SumPts(e, m.p)), VMul("1/8", LET ks == Along(m, ar, e) IN SumPts({Other(m, k, e) : k \in ks}, m.p)))
      mid(k, c) == num[{m.f[k][c], m.f[k][(c % 3) + 1]}]
      child(k, c) == IF c = 4 THEN <<mid(k, 1), mid(k, 2), mid(k, 3)>>
                     ELSE <<m.f[k][c], mid(k, c), mid(k, ((c + 1) % 3) + 1)>>
  IN TLCEval([f |-> [q \in 1..(4 * Len(m.f)) |-> child(((q - 1) \div 4) + 1, ((q - 1) % 4) + 1)],
              p |-> [q \in 1..(nv + Len(es)) |-> Rnd(IF q <= nv THEN even(q) ELSE odd(es[q - nv]))]])
RECURSIVE Levels(_, _)
Levels(m, n) == IF n = 0 THEN m ELSE Levels(Subdivide(m), n - 1)
\* pushed to the limit surface
Limit(m) ==
  LET ar == Around(m) be == TLCEval(BoundaryEdges(m, ar))
  IN TLCEval([f |-> m.f, p |-> [v \in VSet(m) |-> Rnd(IF IsBoundary(m, ar, v) THEN WBoundary(m, ar, be, v, "1/5") ELSE WInterior(m, ar, v, Gamma(Cardinality(ar[v]))))]])
\* the normal at v: across the two tangents of the limit positions (counter-clockwise faces see it from behind)
RECURSIVE Weighted(_, _, _, _)
Weighted(w, ring, p, k) == IF k = 0 THEN Zero3 ELSE VAdd(VMul(w[k], p[ring[k]]), Weighted(w, ring, p, k - 1))
LimitNormal(m, ar, v) ==
  LET r == Ring(m, ar, v) n == Len(r)
      th(k) == ((2 * (k - 1)) (.) PI) (/) n
  IN IF ~IsBoundary(m, ar, v)
     THEN VNeg(Cross(Weighted([k \in 1..n |-> RCos(th(k))], r, m.p, n), Weighted([k \in 1..n |-> RSin(th(k))], r, m.p, n)))
     ELSE LET s == VSub(m.p[r[n]], m.p[r[1]])
              t == IF n = 2 THEN VSub(VAdd(m.p[r[1]], m.p[r[2]]), VMul(2, m.p[v]))
                   ELSE IF n = 3 THEN VSub(m.p[r[2]], m.p[v])
                   ELSE IF n = 4 THEN VSub(VAdd(VMul(2, VAdd(m.p[r[2]], m.p[r[3]])), VNeg(VAdd(m.p[r[1]], m.p[r[4]]))), VMul(2, m.p[v]))
                   ELSE LET a == PI (/) (n - 1) IN
                        VNeg(VAdd(VMul(RSin(a), VAdd(m.p[r[1]], m.p[r[n]])), Weighted([k \in 1..n |-> IF k = 1 \/ k = n THEN "0" ELSE ((2 (.) RCos(a)) (-) 2) (.) RSin((k - 1) (.) a)], r, m.p, n)))
          IN Cross(s, t)
\* ---- P19: the refined mesh is the specified one, up to the numbering of its vertices ----
Rot(t) == IF t[1] < t[2] /\ t[1] < t[3] THEN t ELSE IF t[2] < t[1] /\ t[2] < t[3] THEN <<t[2], t[3], t[1]>> ELSE <<t[3], t[1], t[2]>>
RefineFails(r) ==
  IF r.err # "" THEN {"subdivision-raised"} ELSE
  LET m0 == [f |-> r.f, p |-> r.p]
      mk == TLCEval(Levels(m0, r.n))
      m == Limit(mk)
      nv == Len(m.p)
      rp == r.rp
      size == RMax("1", SetMax({MaxAbs3(r.p[k]) : k \in 1..Len(r.p)}))
      tol == "1e-9" (.) size
  IN (IF Len(r.rf) # Len(m.f) THEN {"four-faces-per-face"} ELSE {})
     \cup (IF ~r.kept THEN {"control-mesh-left-as-it-was"} ELSE {})
     \cup (IF Len(rp) # nv THEN {"one-vertex-per-vertex-and-edge"} ELSE {})
     \cup (IF Len(r.rf) # Len(m.f) \/ Len(rp) # nv THEN {} ELSE
      LET cand == TLCEval([v \in 1..nv |-> {w \in 1..nv : VNear(rp[w], m.p[v], tol)}])
      IN IF \E v \in 1..nv : cand[v] = {} THEN
             (IF \E v \in 1..Len(r.p) : cand[v] = {} THEN {"limit-position-of-control-vertex"} ELSE {}) \cup (IF \E v \in Len(r.p)+1..nv : cand[v] = {} THEN {"limit-position-of-new-vertex"} ELSE {})
         ELSE IF \E v \in 1..nv : Cardinality(cand[v]) > 1 THEN {}    \* coinciding vertices: numbering is ambiguous
         ELSE LET to == TLCEval([v \in 1..nv |-> CHOOSE w \in cand[v] : TRUE])
                  ar == Around(m)
              IN (IF {Rot(<<to[m.f[k][1]], to[m.f[k][2]], to[m.f[k][3]]>>) : k \in 1..Len(m.f)} # {Rot(r.rf[k]) : k \in 1..Len(r.rf)} THEN {"faces-and-orientation"} ELSE {})
                 \cup (IF \E v \in 1..nv : LET n == TLCEval(LimitNormal(m, ar, v)) l == Length(n)
                                         IN l \succ ("1e-4" (.) (size (.) size)) /\ ~VNear(Unit(r.rn[to[v]]), Unit(n), "1e-6") THEN {"normals-perpendicular-to-limit-tangents"} ELSE {}))
     \cup (IF \E k \in 1..Len(rp) : ~BInTol(r.ob, rp[k], tol) \/ ~BInTol(r.wb, MPt(r.m, rp[k]), "1e-8" (.) (size (.) RMax(1, MaxAbsM(r.m)))) THEN {"bounds-contain-the-surface"} ELSE {})
\* a mesh is built from named parameters exactly when both lists are there and come in threes; three levels unless told otherwise
CreateFails(r) ==
  IF r.err # "" THEN {"create-raised"} ELSE
  LET good == r.hasi /\ r.hasp /\ r.ni % 3 = 0 /\ r.np % 3 = 0
  IN IF r.made # good THEN {"create-checks-its-parameters"}
     ELSE (IF good /\ r.faces # (r.ni \div 3) * 4 ^ r.lv THEN {"create-levels"} ELSE {})
          \* one triangle, or two sharing an edge, with E edges: n levels give Vs(n) vertices, all within the control mesh's box
          \cup (IF good /\ r.nv # (IF r.ni = 3 THEN ((2 ^ r.lv + 1) * (2 ^ r.lv + 2)) \div 2 ELSE (2 ^ r.lv + 1) * (2 ^ r.lv + 1)) THEN {"create-vertices"} ELSE {})
          \cup (IF good /\ \E c \in 1..3 : LET x == {r.ps[k] : k \in {j \in 1..r.np : (j - 1) % 3 = c - 1}}
                                        IN r.hi[c] \succ (SetMax(x) (+) "1e-9") \/ RNeg(r.lo[c]) \succ (SetMax({RNeg(y) : y \in x}) (+) "1e-9") THEN {"create-inside-the-hull"} ELSE {})
          \cup (IF ~r.kept THEN {"parameters-left-alone"} ELSE {})
P19Fails(r) == IF r.op = "create" THEN CreateFails(r) ELSE IF r.op = "refine" THEN RefineFails(r) ELSE {}
=============================================================================
