---------------------------- MODULE InterfaceJudge ----------------------------
(* The calls recorded from the real module, run through the state machine.     *)
(* A transform is its matrix together with its inverse.                        *)
EXTENDS Lin
InvElem(e) ==
  CASE e.k = "translate" -> Translate(VNeg(e.v))
    [] e.k = "scale" -> ScaleM([k \in 1..3 |-> 1 (/) e.v[k]])
    [] e.k = "rot" -> MT(RotM(e.a, e.v))
    [] e.k = "look" -> LET m == LookAt(e.pos, e.look, e.up)
                           r == MT([i \in 1..4 |-> [j \in 1..4 |-> IF j = 4 THEN (IF i = 4 THEN "1" ELSE "0") ELSE m[i][j]]])
                       IN MMul(r, Translate(VNeg(e.pos)))
PMul(a, b) == [m |-> MMul(a.m, b.m), i |-> MMul(b.i, a.i)]
PInv(a) == [m |-> a.i, i |-> a.m]
PElem(e) == [m |-> Elem(e), i |-> InvElem(e)]
PId == [m |-> Id4, i |-> Id4]
I == INSTANCE Interface WITH TMul <- PMul, TInv <- PInv, TElem <- PElem, TId <- PId
Tol(m) == "1e-9" (.) RMax(1, MaxAbsM(m))
PNear(a, b) == MNear(a.m, b.m, Tol(b.m)) /\ MNear(a.i, b.i, Tol(b.i))
TsNear(x, y) == Len(x) = 2 /\ \A k \in 1..2 : PNear(x[k], y[k])
OptOf(s, n) == LET k == CHOOSE k \in 1..Len(s.opt) : s.opt[k].n = n IN s.opt[k].v
OptSame(a, n, v) == IF n = "time" THEN a.t0 \doteq v.t0 /\ a.t1 \doteq v.t1 ELSE a.name = v.name /\ a.p = v.p
StateFails(st, s) ==
  IF s.on # st.on THEN {"initialised-or-not"} ELSE IF ~st.on THEN {} ELSE
  (IF s.world # st.world THEN {"world-begun"} ELSE {})
  \cup (IF ~TsNear(s.ts, st.ts) THEN {"transforms-in-force"} ELSE {})
  \cup (IF s.tag # st.tag THEN {"attributes-in-force"} ELSE {})
  \cup (IF {s.cs[k].n : k \in 1..Len(s.cs)} # DOMAIN st.cs THEN {"named-systems"}
        ELSE IF \E k \in 1..Len(s.cs) : ~TsNear(s.cs[k].ts, st.cs[s.cs[k].n]) THEN {"named-system-keeps-its-transforms"} ELSE {})
  \cup (IF ~TsNear(s.cam, st.cam) THEN {"camera-placed-by-the-inverse"} ELSE {})
  \cup (IF \E n \in DOMAIN st.opt : ~OptSame(OptOf(s, n), n, st.opt[n]) THEN {"options-kept"} ELSE {})
CallFails(n, c) ==
  (IF c.out # n.out THEN {IF n.out = "reject" THEN "call-rejected" ELSE "call-accepted"} ELSE {})
  \cup (IF n.report /\ ~c.printed THEN {"unmatched-end-reported"} ELSE {})
  \cup (IF c.kept THEN {} ELSE {"options-of-the-initialisation-kept"})
  \cup (IF c.seen THEN StateFails(n.st, c.s) ELSE {})
RECURSIVE Run(_, _, _)
Run(st, calls, k) ==
  IF k > Len(calls) THEN {} ELSE
  LET n == I!Step(st, calls[k]) f == CallFails(n, calls[k]) IN IF f # {} THEN f ELSE Run(n.st, calls, k + 1)
HistoryFails(r) == IF r.err # "" THEN {"history-raised"} ELSE Run(I!Off, r.calls, 1)

\* parameter lists: a queue for each type
RECURSIVE Params(_, _, _)
Params(q, ops, k) ==
  IF k > Len(ops) THEN {} ELSE
  LET o == ops[k] s == q[o.t]
      bad == CASE o.o = "take" -> o.got # (IF s = <<>> THEN -1 ELSE s[1])
               [] o.o = "more" -> o.got # (IF s = <<>> THEN 0 ELSE 1)
               [] o.o = "all" -> o.lst # s
               [] o.o = "unknown" -> o.got # 0
               [] OTHER -> FALSE
      n == CASE o.o = "push" -> Append(s, o.v) [] o.o = "take" -> (IF s = <<>> THEN s ELSE Tail(s)) [] OTHER -> s
  IN IF bad THEN {"parameter-list-" \o o.o} ELSE Params([q EXCEPT ![o.t] = n], ops, k + 1)
Types == {"float", "int", "bool", "vector", "normal", "spectrum", "point", "string", "matrix"}
ParamFails(r) == IF r.err # "" THEN {"parameter-list-raised"} ELSE Params([t \in Types |-> <<>>], r.ops, 1)
FreshFails(r) == IF r.err # "" THEN {"initialising-again-raised"} ELSE IF r.s1 = r.s2 THEN {} ELSE {"initialising-again-starts-afresh"}
P35Fails(r) == CASE r.op = "history" -> HistoryFails(r) [] r.op = "param" -> ParamFails(r) [] r.op = "fresh" -> FreshFails(r) [] OTHER -> {}
=============================================================================
