---------------------------- MODULE MaterialModel ----------------------------
(* Building materials: every parameter class of every simple material, and    *)
(* every mixture tree of up to MaxLeaves of them.  A mixture's weights over    *)
(* its leaves are complementary: they sum to one, so whatever is mixed, the    *)
(* result reflects no more than its brightest part.  Each finished material    *)
(* is printed as a scenario for the driver.                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxLeaves, Bumps
VARIABLES stack, leaves
vars == <<stack, leaves>>
Cs == {"black", "col", "neg", "vary"}
C2 == {"black", "col"}
Simple ==
  [k : {"matte"}, kd : Cs, sigma : {"zero", "some", "neg", "over"}, bump : Bumps]
  \cup [k : {"plastic"}, kd : Cs, ks : Cs, bump : Bumps]
  \cup [k : {"mirror", "subsurface", "kdsubsurface"}, kr : Cs, bump : Bumps]
  \cup [k : {"metal"}, bump : Bumps]
  \cup [k : {"glass"}, kr : Cs, kt : Cs, bump : Bumps]
  \cup [k : {"uber"}, kd : C2, ks : C2, kr : C2, kt : C2, op : {"one", "zero", "mid", "over"}, bump : {"none"}]
  \cup [k : {"uber"}, kd : {"col"}, ks : C2, kr : {"col"}, kt : C2, op : {"one", "zero", "mid"}, bump : Bumps]
Leaf == {[k |-> "matte", kd |-> "col", sigma |-> "zero", bump |-> "none"],
         [k |-> "matte", kd |-> "black", sigma |-> "zero", bump |-> "slope"],
         [k |-> "plastic", kd |-> "col", ks |-> "col", bump |-> "none"],
         [k |-> "mirror", kr |-> "col", bump |-> "none"],
         [k |-> "glass", kr |-> "col", kt |-> "col", bump |-> "none"],
         [k |-> "uber", kd |-> "col", ks |-> "black", kr |-> "col", kt |-> "col", op |-> "mid", bump |-> "none"]}
\* number of components a material calls for
N(c) == IF c \in {"col", "vary"} THEN 1 ELSE 0
RECURSIVE Count(_)
Count(m) == CASE m.k = "matte" -> N(m.kd) [] m.k = "plastic" -> N(m.kd) + N(m.ks) [] m.k \in {"mirror", "subsurface", "kdsubsurface"} -> N(m.kr)
              [] m.k = "metal" -> 1 [] m.k = "glass" -> N(m.kr) + N(m.kt)
              [] m.k = "uber" -> (IF m.op = "zero" THEN 1 ELSE N(m.kd) + N(m.ks) + N(m.kr) + N(m.kt) + (IF m.op = "mid" THEN 1 ELSE 0))
              [] m.k = "mix" -> Count(m.m1) + Count(m.m2)
\* weights of the leaves, in 1/2^depth parts of a scale of a half everywhere
RECURSIVE Weights(_, _)
Weights(m, w) == IF m.k = "mix" THEN Weights(m.m1, w \div 2) \o Weights(m.m2, w - w \div 2) ELSE <<w>>
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE s[1] + Sum(Tail(s))
RECURSIVE Size(_)
Size(m) == IF m.k = "mix" THEN Size(m.m1) + Size(m.m2) ELSE 1
Init == \/ stack = <<>> /\ leaves = 0
        \/ leaves = MaxLeaves + 1 /\ \E m \in Simple : stack = <<m>>
Push == leaves < MaxLeaves /\ \E m \in Leaf : stack' = Append(stack, m) /\ leaves' = leaves + 1
Mix == LET n == Len(stack) IN n >= 2 /\ stack' = Append(SubSeq(stack, 1, n - 2), [k |-> "mix", m1 |-> stack[n - 1], m2 |-> stack[n]]) /\ UNCHANGED leaves
Next == Push \/ Mix
Spec == Init /\ [][Next]_vars
Complementary == \A j \in DOMAIN stack : Sum(Weights(stack[j], 64)) = 64 /\ Len(Weights(stack[j], 64)) = Size(stack[j])
Bounded == \A j \in DOMAIN stack : Count(stack[j]) <= 5 * Size(stack[j])
NothingLost == leaves <= MaxLeaves => LET all == [j \in DOMAIN stack |-> Size(stack[j])] IN Sum(all) = leaves
Emit == Len(stack) = 1 => PrintT(<<"SCEN", ToJson([m |-> stack[1], n |-> Count(stack[1])])>>)
=============================================================================
