---------------------------- MODULE SpectraModel ----------------------------
(* All small tables and windows: the specified average lies between the least *)
(* and greatest value of the table, is the weighted mean of the averages of   *)
(* the two parts of a split window, and does not change when a knot is added  *)
(* on the curve.                                                              *)
EXTENDS Spectra, SequencesExt
CONSTANTS Vals, MaxX, Lo2, Hi2
VARIABLES lam, v, a, b
vars == <<lam, v, a, b>>
Sub == {S \in SUBSET (1..MaxX) : S # {} /\ Cardinality(S) <= 3}
SortS(S) == SetToSortSeq(S, LAMBDA x, y : x < y)
Init == /\ \E S \in Sub : lam = SortS(S)
        /\ v \in [1..Len(lam) -> Vals]
        /\ a = Lo2 /\ b = Lo2 + 1
\* the window's ends, in halves
Next == /\ UNCHANGED <<lam, v>>
        /\ \/ b < Hi2 /\ b' = b + 1 /\ a' = a
           \/ b = Hi2 /\ a < Hi2 - 1 /\ a' = a + 1 /\ b' = a + 2
Spec == Init /\ [][Next]_vars
A == a (/) 2
B == b (/) 2
Avg == Average(lam, v, A, B)
Between == \E j, k \in DOMAIN v : v[j] \preceq Avg /\ Avg \preceq v[k]
Splits == LET m == (A (+) B) (/) 2 IN Avg \doteq ((Average(lam, v, A, m) (+) Average(lam, v, m, B)) (/) 2)
Knot == LET x == (2 (.) RFloor(A)) (+) "1/3"
            S == {k \in DOMAIN lam : lam[k] \prec x}
            n == Cardinality(S)
        IN Avg \doteq Average(SubSeq(lam, 1, n) \o <<x>> \o SubSeq(lam, n + 1, Len(lam)), SubSeq(v, 1, n) \o <<At(lam, v, x)>> \o SubSeq(v, n + 1, Len(v)), A, B)
=============================================================================
