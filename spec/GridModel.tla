------------------------------ MODULE GridModel -----------------------------
(* Design of the walk of a ray through a uniform grid (two axes stand for    *)
(* three: the walk treats every axis alike).  Cell k of an axis covers       *)
(* [W k, W (k+1)]; origins are even numbers and directions +-1, +-2 or 0, so *)
(* every crossing parameter is an integer.  The ray enters at its smallest   *)
(* parameter inside the grid; every step goes to the cell of the next        *)
(* crossing until that is behind the far limit or the walk leaves the grid.  *)
(* TLC checks, for every grid, ray and interval: the walk ends, visits cells *)
(* at most once and visits every cell whose interior the segment meets.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS W, NMax, OMax, TMax
Ax == {1, 2}
Inf == 1000
VARIABLES n, o, d, mint, maxt, pos, next, seen, phase
vars == <<n, o, d, mint, maxt, pos, next, seen, phase>>
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
\* the parameters at which the ray is inside the slab [lo, hi] of axis k
Slab(k, lo, hi) == IF d[k] = 0 THEN IF lo <= o[k] /\ o[k] <= hi THEN <<-Inf, Inf>> ELSE <<Inf, -Inf>>
                   ELSE IF d[k] > 0 THEN <<(lo - o[k]) \div d[k], (hi - o[k]) \div d[k]>>
                   ELSE <<(o[k] - hi) \div (0 - d[k]), (o[k] - lo) \div (0 - d[k])>>
Iv(lo1, hi1, lo2, hi2) ==
  LET a == Slab(1, lo1, hi1) b == Slab(2, lo2, hi2)
  IN <<Max(mint, Max(a[1], b[1])), Min(maxt, Min(a[2], b[2]))>>
Entry == Iv(0, W * n[1], 0, W * n[2])
\* the segment meets the open cell
Meets(c) ==
  LET s(k) == IF d[k] = 0 THEN W * c[k] < o[k] /\ o[k] < W * (c[k] + 1) ELSE TRUE
      iv == Iv(W * c[1], W * (c[1] + 1), W * c[2], W * (c[2] + 1))
  IN s(1) /\ s(2) /\ iv[1] < iv[2]
Cell(k, t) == Max(0, Min(n[k] - 1, (o[k] + t * d[k]) \div W))
\* parameter of the next border of axis k from cell c
Cross(k, c) == IF d[k] = 0 THEN Inf ELSE IF d[k] > 0 THEN (W * (c + 1) - o[k]) \div d[k] ELSE (o[k] - W * c) \div (0 - d[k])
Init == /\ n \in [Ax -> 1..NMax] /\ o \in [Ax -> {2 * j : j \in (0 - OMax)..OMax}]
        /\ d \in {e \in [Ax -> -2..2] : \E k \in Ax : e[k] # 0}
        /\ mint \in {0, 2} /\ maxt \in {TMax, Inf}
        /\ pos = <<0, 0>> /\ next = <<0, 0>> /\ seen = {} /\ phase = "enter"
Enter == /\ phase = "enter"
         /\ IF Entry[1] > Entry[2] THEN phase' = "done" /\ UNCHANGED <<pos, next, seen>>
            ELSE /\ pos' = <<Cell(1, Entry[1]), Cell(2, Entry[1])>>
                 /\ next' = [k \in Ax |-> Cross(k, pos'[k])]
                 /\ seen' = {pos'} /\ phase' = "walk"
         /\ UNCHANGED <<n, o, d, mint, maxt>>
Step == /\ phase = "walk"
        /\ LET k == IF next[1] <= next[2] THEN 1 ELSE 2
               c == pos[k] + (IF d[k] < 0 THEN -1 ELSE 1)
               q == [pos EXCEPT ![k] = c]
           IN IF maxt < next[k] \/ c < 0 \/ c >= n[k] THEN phase' = "done" /\ UNCHANGED <<pos, next, seen>>
              ELSE /\ Assert(q \notin seen, "visited twice")
                   /\ pos' = q /\ next' = [next EXCEPT ![k] = Cross(k, c)] /\ seen' = seen \cup {q} /\ phase' = "walk"
        /\ UNCHANGED <<n, o, d, mint, maxt>>
Next == Enter \/ Step
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Complete == phase = "done" => \A a \in 0..(n[1] - 1), b \in 0..(n[2] - 1) : Meets(<<a, b>>) => <<a, b>> \in seen
Terminates == <>(phase = "done")
=============================================================================
