-------------------------------- MODULE Accel -------------------------------
(* What a recorded query of the real aggregates must look like.  A record    *)
(* carries the primitives' boxes, the ray, the answer each primitive gives   *)
(* when asked alone (singles), the sequence of primitives the aggregate      *)
(* offered the ray to (offers, full query on a probe ray where nothing       *)
(* hits), and the aggregate's answers.                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Rat

Axes == 1..3
\* parameter interval of the ray inside the slab of axis k: <<enter, leave>>, or <<>> when never
SlabIv(b, r, k) ==
  IF r.d[k] \doteq 0
  THEN IF b.lo[k] \prec r.o[k] /\ r.o[k] \prec b.hi[k] THEN <<"-inf", "inf">> ELSE <<>>
  ELSE LET t1 == (b.lo[k] (-) r.o[k]) (/) r.d[k]
           t2 == (b.hi[k] (-) r.o[k]) (/) r.d[k]
       IN <<RMin(t1, t2), RMax(t1, t2)>>
Eps == "1e-9"
\* surely crossed: the ray's segment meets the box, and not merely at an edge, corner or end point
SurelyCrosses(b, r) ==
  LET iv == [k \in Axes |-> SlabIv(b, r, k)]
  IN /\ \A k \in Axes : iv[k] # <<>>
     /\ \A j, k \in Axes : j # k => (iv[j][1] (+) Eps) \prec iv[k][2]
     /\ \A k \in Axes : (iv[k][1] (+) Eps) \prec r.maxt /\ (r.mint (+) Eps) \prec iv[k][2]
SurelyMisses(b, r) ==
  LET iv == [k \in Axes |-> SlabIv(b, r, k)]
  IN \/ \E k \in Axes : r.d[k] \doteq 0 /\ ((r.o[k] (+) Eps) \prec b.lo[k] \/ (b.hi[k] (+) Eps) \prec r.o[k])
     \/ \E j, k \in Axes : iv[j] # <<>> /\ iv[k] # <<>> /\ (iv[k][2] (+) Eps) \prec iv[j][1]
     \/ \E k \in Axes : iv[k] # <<>> /\ ((iv[k][2] (+) Eps) \prec r.mint \/ (r.maxt (+) Eps) \prec iv[k][1])

HitSet(r) == {k \in 1..Len(r.singles) : r.singles[k].hit}
\* every primitive hit alone is robustly inside the interval, so no rounding decides the answer
Clear(r) == \A k \in HitSet(r) : SurelyCrosses(r.boxes[k], r.ray)
TMin(r) == LET S == HitSet(r) IN (CHOOSE k \in S : \A j \in S : r.singles[k].t \preceq r.singles[j].t)

QueryFails(r) ==
  IF r.err # "" THEN {"raised"} ELSE
  LET S == HitSet(r) IN
  (IF (r.hit # (S # {})) THEN {"hit-iff-some-primitive-hit"} ELSE {})
  \cup (IF S # {} /\ r.hit /\ ~(r.maxt \doteq r.singles[TMin(r)].t) THEN {"far-limit-is-nearest-distance"} ELSE {})
  \cup (IF S # {} /\ r.hit /\ ~(r.best \in S /\ r.singles[r.best].t \doteq r.singles[TMin(r)].t) THEN {"reported-primitive-is-nearest"} ELSE {})
  \cup (IF S = {} /\ ~(r.maxt \doteq r.ray.maxt) THEN {"miss-leaves-ray"} ELSE {})
  \cup (IF ~r.rest THEN {"other-ray-fields-untouched"} ELSE {})
  \cup (IF r.hitp # (S # {}) THEN {"occlusion-query-agrees"} ELSE {})
  \cup (IF ~r.prest THEN {"occlusion-query-leaves-ray"} ELSE {})
\* answering queries and serving inside another aggregate leave the caller's list, the primitives' bounds and the aggregate's own alone
KeptFails(r) ==
  IF r.err # "" THEN {"nesting-raised"} ELSE
  (IF ~r.list THEN {"given-list-left-alone"} ELSE {}) \cup (IF ~r.boxes THEN {"primitive-bounds-left-alone"} ELSE {})
  \cup (IF ~r.own THEN {"own-bound-left-alone"} ELSE {})
P01Fails(r) == IF r.op # "query" THEN {}
               ELSE IF r.err = "" /\ ~Clear(r) THEN {} ELSE QueryFails(r)

\* P03: a grid answers like its primitives one by one; building it never fails
P03Fails(r) == IF r.op = "kept" THEN KeptFails(r) ELSE IF r.op = "build" THEN IF r.err # "" THEN {"build-raised"} ELSE {} ELSE P01Fails(r)

Offered(r, k) == Cardinality({j \in 1..Len(r.offers) : r.offers[j] = k})
Bound(r, k, lo) == \* least / greatest coordinate of all boxes
  LET C == {IF lo THEN r.boxes[j].lo[k] ELSE r.boxes[j].hi[k] : j \in 1..Len(r.boxes)}
  IN CHOOSE x \in C : \A y \in C : IF lo THEN x \preceq y ELSE x \succeq y
P02Fails(r) ==
  IF r.op = "kept" THEN KeptFails(r) ELSE
  IF r.op = "build" THEN
    IF r.err # "" THEN {"build-" \o r.errkind} ELSE
    (IF Len(r.boxes) = 0
     THEN IF ~(\A k \in Axes : r.wlo[k] \succ r.whi[k]) THEN {"empty-bound"} ELSE {}
     ELSE IF ~(\A k \in Axes : (r.wlo[k] \doteq Bound(r, k, TRUE)) /\ (r.whi[k] \doteq Bound(r, k, FALSE)))
          THEN {"world-bound-is-union"} ELSE {})
  ELSE IF r.op = "probe" THEN
    IF r.err # "" THEN {"traversal-raised"} ELSE
    (IF \E k \in 1..Len(r.boxes) : Offered(r, k) > 1 THEN {"offered-at-most-once"} ELSE {})
    \cup (IF \E k \in 1..Len(r.boxes) : Offered(r, k) = 0 /\ SurelyCrosses(r.boxes[k], r.ray) THEN {"crossed-primitive-offered"} ELSE {})
    \cup (IF \E j \in 1..Len(r.offers) : r.offers[j] = 0 THEN {"only-given-primitives-offered"} ELSE {})
  ELSE {}

\* P04: concurrent queries on a lazily refined grid.  singles[t][k] is leaf k's answer to query t's ray ("miss" or a parameter)
Best(row) == LET S == {k \in 1..Len(row) : row[k] # "miss"} IN IF S = {} THEN 0 ELSE CHOOSE k \in S : \A j \in S : row[k] \preceq row[j]
AnswerOk(ans, row) ==
  LET b == Best(row) IN
  /\ ans.err = "" /\ ans.hit = (b # 0)
  /\ (ans.full /\ b # 0) => /\ ans.t \doteq row[b]
                            /\ ans.best # 0 /\ row[ans.best] # "miss" /\ row[ans.best] \doteq row[b]
RaceFails(r) ==
  IF r.err # "" THEN {"grid-raised"} ELSE
  LET T == 1..Len(r.answers) IN
  (IF r.blocked THEN {"queries-block-forever"} ELSE {})
  \cup (IF r.unrefined > 0 THEN {"unrefined-primitive-intersected"} ELSE {})
  \cup (IF ~r.blocked /\ \E t \in T : r.answers[t].err # "" /\ ~r.answers[t].boom THEN {"query-raised"} ELSE {})
  \cup (IF Cardinality({t \in T : r.answers[t].boom}) > r.bad THEN {"failed-refinement-repeats"} ELSE {})
  \cup (IF ~r.blocked /\ \E t \in T : r.answers[t].err = "" /\ ~AnswerOk(r.answers[t], r.singles[t]) THEN {"concurrent-answer-differs"} ELSE {})
  \cup (IF ~r.blocked /\ r.held THEN {"lock-left-held"} ELSE {})
  \cup (IF ~AnswerOk(r.later, r.singles[1]) THEN {"later-query-answers"} ELSE {})
P04Fails(r) == IF r.op = "race" THEN RaceFails(r) ELSE {}
=============================================================================
