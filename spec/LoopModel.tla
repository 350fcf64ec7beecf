----------------------------- MODULE LoopModel -----------------------------
(* Every small manifold mesh, subdivided level by level.                     *)
EXTENDS Loop, Json
CONSTANTS MaxLevel, NV, MaxF
VARIABLES m, lev, start
\* corners of a small lattice, in general enough position
Pos == [v \in 1..NV |-> <<ToString(v), ToString(v * v), ToString((v * v * v) % 7)>>]
Tris == {t \in (1..NV) \X (1..NV) \X (1..NV) : t[1] < t[2] /\ t[1] < t[3] /\ t[2] # t[3]}
Fan(mm, ar, v) == ar[v] = {} \/ Len(Ring(mm, ar, v)) = Cardinality(Nbrs(mm, ar, v))
AsMesh(S) == [f |-> SeqOf(S), p |-> Pos]
Used(S) == UNION {{t[1], t[2], t[3]} : t \in S}
Manifold(mm) == LET ar == Around(mm) IN
  /\ Oriented(mm)
  /\ \A e \in Edges(mm.f) : Cardinality(Along(mm, ar, e)) <= 2
  /\ \A v \in VSet(mm) : ar[v] # {} /\ Cardinality({k \in ar[v] : ~\E j \in ar[v] : Before(mm, j, v) = After(mm, k, v)}) <= 1 /\ Fan(mm, ar, v)
Init == \E S \in SUBSET Tris : /\ S # {} /\ Cardinality(S) <= MaxF /\ Used(S) = 1..NV
                               /\ m = AsMesh(S) /\ Manifold(m) /\ lev = 0 /\ start = [f |-> Cardinality(S), chi |-> NV - Cardinality(Edges(m.f)) + Cardinality(S),
                                        bd |-> Cardinality(BoundaryEdges(m, Around(m)))]
Next == lev < MaxLevel /\ m' = Subdivide(m) /\ lev' = lev + 1 /\ UNCHANGED start
vars == <<m, lev, start>>
RECURSIVE Pow(_, _)
Pow(b, k) == IF k = 0 THEN 1 ELSE b * Pow(b, k - 1)
FaceCount == Len(m.f) = start.f * Pow(4, lev)
EulerKept == Len(m.p) - Cardinality(Edges(m.f)) + Len(m.f) = start.chi
StaysManifold == Manifold(m)
BoundaryDoubles == Cardinality(BoundaryEdges(m, Around(m))) = start.bd * Pow(2, lev)
\* Loop's weights are convex, so nothing leaves the hull of the control points (checked on the axis box)
InHull == \A v \in VSet(m), k \in 1..3 :
   \E a, b \in 1..NV : Pos[a][k] \preceq m.p[v][k] /\ m.p[v][k] \preceq Pos[b][k]
\* scenarios for the code: every mesh of the model, numbered from 0
Scenario == lev = 0 => PrintT(<<"SCEN", ToJson([f |-> m.f, nv |-> Len(m.p)])>>)
=============================================================================
