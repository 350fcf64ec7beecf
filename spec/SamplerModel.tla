---------------------------- MODULE SamplerModel ----------------------------
(* Design: the scanline walk of one sampler, and of several sub-samplers     *)
(* running in any interleaving over the tiles of one range.                  *)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS MaxX, MaxY, MaxTiles
VARIABLES w, cnt, pos, seen
vars == <<w, cnt, pos, seen>>
Lerp(n, d, a, b) == a + ((n * (b - a)) \div d)
RECURSIVE Split(_, _, _, _)
Split(nx, ny, dx, dy) == IF nx % 2 = 0 /\ 2 * dx * ny < dy * nx THEN Split(nx \div 2, ny * 2, dx, dy) ELSE <<nx, ny>>
Tile(k) == LET s == Split(cnt, 1, w[2] - w[1], w[4] - w[3]) x0 == k % s[1] y0 == k \div s[1]
           IN <<Lerp(x0, s[1], w[1], w[2]), Lerp(x0 + 1, s[1], w[1], w[2]), Lerp(y0, s[2], w[3], w[4]), Lerp(y0 + 1, s[2], w[3], w[4])>>
Empty(t) == t[1] = t[2] \/ t[3] = t[4]
Init == /\ w \in {<<a, a + dx, b, b + dy>> : a \in {0, 2}, b \in {0, 1}, dx \in 1..MaxX, dy \in 1..MaxY}
        /\ cnt \in 1..MaxTiles
        /\ pos = [k \in 0..(cnt - 1) |-> <<Tile(k)[1], Tile(k)[3]>>]
        /\ seen = <<>>  \* pixel -> visits
Live(k) == ~Empty(Tile(k)) /\ pos[k][2] # Tile(k)[4]
Bump(f, p) == IF p \in DOMAIN f THEN [f EXCEPT ![p] = @ + 1] ELSE (p :> 1) @@ f
Generate(k) == /\ Live(k) /\ seen' = Bump(seen, pos[k])
               /\ pos' = [pos EXCEPT ![k] = IF @[1] + 1 = Tile(k)[2] THEN <<Tile(k)[1], @[2] + 1>> ELSE <<@[1] + 1, @[2]>>]
               /\ UNCHANGED <<w, cnt>>
\* the tiles are independent, so one order of running them represents all: the lowest live tile first
Next == \E k \in 0..(cnt - 1) : (\A j \in 0..(k - 1) : ~Live(j)) /\ Generate(k)
Pixels == {<<x, y>> : x \in w[1]..(w[2] - 1), y \in w[3]..(w[4] - 1)}
AtMostOnce == \A p \in DOMAIN seen : seen[p] = 1 /\ p \in Pixels
AllAtEnd == (\A k \in 0..(cnt - 1) : ~Live(k)) => DOMAIN seen = Pixels
Disjoint == \A j, k \in 0..(cnt - 1) : j < k => LET a == Tile(j) b == Tile(k) IN
              Empty(a) \/ Empty(b) \/ a[2] <= b[1] \/ b[2] <= a[1] \/ a[4] <= b[3] \/ b[4] <= a[3]
==============================================================================
