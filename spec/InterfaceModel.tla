--------------------------- MODULE InterfaceModel ---------------------------
(* Every sequence of scene-description calls over a small alphabet, transforms *)
(* as reduced words.  Two runs side by side: the state machine, and a recursive *)
(* reading of the history in which a closed block is erased except for what     *)
(* lasts (names, options).  They agree.  Histories of the full length are       *)
(* printed for the driver.                                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxLen, Wide, MaxWord
VARIABLES st, hist
vars == <<st, hist>>
\* words: non-zero integers, -x the inverse of x
RECURSIVE Reduce(_, _)
Reduce(a, b) == IF a # <<>> /\ b # <<>> /\ a[Len(a)] = -b[1] THEN Reduce(SubSeq(a, 1, Len(a) - 1), Tail(b)) ELSE a \o b
WMul(a, b) == Reduce(a, b)
WInv(a) == [k \in 1..Len(a) |-> -a[Len(a) + 1 - k]]
WElem(e) == <<e>>
WId == <<>>
I == INSTANCE Interface WITH TMul <- WMul, TInv <- WInv, TElem <- WElem, TId <- WId
Calls ==
  {[c |-> x] : x \in {"init", "abegin", "aend", "tbegin", "tend"}}
  \cup {[c |-> "apply", e |-> x] : x \in {1, 2}} \cup {[c |-> "attr", v |-> x] : x \in {1}}
  \cup {[c |-> "name", n |-> "A"], [c |-> "recall", n |-> "A"]}
  \cup (IF Wide THEN {[c |-> x] : x \in {"clean", "identity", "world"}} \cup {[c |-> "set", e |-> 2], [c |-> "look", e |-> 1], [c |-> "camera", v |-> 1], [c |-> "recall", n |-> "world"],
        [c |-> "recall", n |-> "camera"], [c |-> "option", n |-> "film", v |-> 1]} ELSE {})
Init == st = I!Off /\ hist = <<>>
Next == /\ Len(hist) < MaxLen
        /\ \E c \in Calls : /\ (hist = <<>> => c.c = "init" \/ MaxLen < 4)
                            /\ st' = I!Step(st, c).st
                            /\ hist' = Append(hist, c)
Spec == Init /\ [][Next]_vars
Small == \A k \in 1..2 : Len(st.ts[k]) <= MaxWord

\* ---- the independent reading: the transforms in force, found by looking back through the history ----
\* effect of call number j on the state before it, as the machine sees it
RECURSIVE Before(_)
Before(j) == IF j = 0 THEN I!Off ELSE I!Step(Before(j - 1), hist[j]).st
\* the matching begin of an effective end at j: the last begin before j with balanced effective blocks in between
Eff(j) == ~I!Step(Before(j - 1), hist[j]).report /\ Before(j - 1).on
Opens(j) == hist[j].c \in {"abegin", "tbegin"} /\ Eff(j)
Closes(j) == hist[j].c \in {"aend", "tend"} /\ Eff(j)
RECURSIVE Match(_, _)
Match(j, d) == IF Opens(j) THEN (IF d = 0 THEN j ELSE Match(j - 1, d - 1)) ELSE IF Closes(j) THEN Match(j - 1, d + 1) ELSE Match(j - 1, d)
Restores == LET n == Len(hist) IN n > 0 /\ Closes(n) =>
              LET b == Match(n - 1, 0) IN st.ts = Before(b - 1).ts /\ (hist[n].c = "aend" => st.tag = Before(b - 1).tag) /\ (hist[n].c = "tend" => st.tag = Before(n - 1).tag)
                                          /\ (hist[b].c = "abegin" <=> hist[n].c = "aend") /\ st.cs = Before(n - 1).cs
Recalls == LET n == Len(hist) IN n > 0 /\ hist[n].c = "recall" /\ I!Step(Before(n - 1), hist[n]).out = "ok" =>
              \E j \in 1..(n - 1) : Before(j).on /\ (\/ (hist[j].c = "name" /\ hist[j].n = hist[n].n /\ st.ts = Before(j).ts)
                                                     \/ (hist[j].c = "world" /\ hist[n].n = "world" /\ st.ts = Before(j).ts)
                                                     \/ (hist[j].c = "camera" /\ hist[n].n = "camera" /\ st.ts = Before(j).cam))
Depth == ~st.on \/ Len(st.blocks) = Cardinality({j \in 1..Len(hist) : Opens(j) /\ \A k \in (j + 1)..Len(hist) : hist[k].c # "clean"})
                        - Cardinality({j \in 1..Len(hist) : Closes(j) /\ \A k \in (j + 1)..Len(hist) : hist[k].c # "clean"})
OffIsOff == ~st.on => st = I!Off
Emit == Len(hist) = MaxLen => PrintT(<<"SCEN", ToJson(hist)>>)
=============================================================================
