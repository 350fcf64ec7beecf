------------------------------ MODULE FilmModel ------------------------------
(* Design of the film in one dimension, in units of a quarter pixel: which   *)
(* pixels a sample reaches, that the requested sample range misses no        *)
(* footprint, that accumulation forgets the order of samples, and that films *)
(* cropped with adjacent fractions partition the image.                      *)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS Res, Widths, MaxS
VARIABLES start, cnt, w, todo, acc, done
vars == <<start, cnt, w, todo, acc, done>>
FloorDiv(a, b) == a \div b       \* TLA+ \div is floor division
CeilDiv(a, b) == -((-a) \div b)
Abs(a) == IF a < 0 THEN -a ELSE a
Max(a, b) == IF a >= b THEN a ELSE b
Px == start..(start + cnt - 1)
\* distance, in quarters, of the centre of pixel x from sample position s
Dist(x, s) == Abs(4 * x + 2 - s)
Reaches(s, x) == Dist(x, s) <= w
Wt(s, x) == 1 + (w - Dist(x, s))    \* some weight that depends on the offset
\* the range of pixels the implementation walks
First(s) == Max(CeilDiv(s - 2 - w, 4), start)
Last(s) == IF FloorDiv(s - 2 + w, 4) <= start + cnt - 1 THEN FloorDiv(s - 2 + w, 4) ELSE start + cnt - 1
\* the sample range (whole pixels)
SFrom == FloorDiv(4 * start + 2 - w, 4)
STo == FloorDiv(4 * start + 2 + 4 * cnt + w, 4)
Pos == (4 * start - w - 6)..(4 * (start + cnt) + w + 6)
Init == /\ start \in 0..(Res - 1) /\ cnt \in 1..(Res - start)
        /\ w \in Widths
        /\ todo \in {S \in SUBSET {4 * start - w, 4 * start + 1, 4 * start + 4, 4 * (start + cnt) + 1} : Cardinality(S) <= MaxS}
        /\ acc = [x \in Px |-> 0] /\ done = {}
Add(s) == /\ s \in todo /\ todo' = todo \ {s} /\ done' = done \cup {s}
          /\ acc' = [x \in Px |-> IF First(s) <= x /\ x <= Last(s) THEN acc[x] + Wt(s, x) ELSE acc[x]]
          /\ UNCHANGED <<start, cnt, w>>
Next == \E s \in todo : Add(s)
RECURSIVE Sum(_, _)
Sum(S, x) == IF S = {} THEN 0 ELSE LET s == CHOOSE s \in S : TRUE IN (IF Reaches(s, x) THEN Wt(s, x) ELSE 0) + Sum(S \ {s}, x)
OrderFree == \A x \in Px : acc[x] = Sum(done, x)
WalkIsFootprint == \A s \in Pos : {x \in Px : Reaches(s, x)} = {x \in Px : First(s) <= x /\ x <= Last(s)}
RangeCovers == \A s \in Pos : (\E x \in Px : Reaches(s, x)) => (4 * SFrom <= s /\ s < 4 * STo)
RangeTight == SFrom >= start - CeilDiv(w, 4) /\ STo <= start + cnt + CeilDiv(w, 4)
\* adjacent crops at i/12 and j/12 partition
Cut(i) == CeilDiv(Res * i, 12)
Partition == \A i \in 0..11 : \A j \in i..12 : Cut(i) <= Cut(j) /\ Cut(0) = 0 /\ Cut(12) = Res
==============================================================================
