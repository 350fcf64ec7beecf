------------------------------- MODULE Sampler -------------------------------
(* The stratified sampler as a state machine over a pixel rectangle          *)
(* <<xs, xe, ys, ye>>: its state is the scanline position, each step yields  *)
(* the samples of one pixel, and exhaustion is absorbing.                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Rat
Tol == "1e-9"
\* position after n steps, in scanline order
PixelAt(w, n) == <<w[1] + (n % (w[2] - w[1])), w[3] + (n \div (w[2] - w[1]))>>
Total(w) == (w[2] - w[1]) * (w[4] - w[3])
InCell(v, k, n) == v \succeq ((k (/) n) (-) Tol) /\ v \preceq (((k + 1) (/) n) (+) Tol)
InUnit(v) == v \succeq 0 /\ v \preceq 1
\* one value per stratum in one dimension
OnePer(vs, n) == Len(vs) = n /\ \A k \in 0..(n - 1) : \E j \in 1..n : InCell(vs[j], k, n)
Centred(vs, n) == Len(vs) = n /\ \A k \in 0..(n - 1) : \E j \in 1..n : Near(vs[j], (k (+) "1/2") (/) n, Tol)
OnePer2(vs, nx, ny) == Len(vs) = nx * ny /\ \A i \in 0..(nx - 1), k \in 0..(ny - 1) :
                          \E j \in 1..(nx * ny) : InCell(vs[j][1], i, nx) /\ InCell(vs[j][2], k, ny)
Centred2(vs, nx, ny) == Len(vs) = nx * ny /\ \A i \in 0..(nx - 1), k \in 0..(ny - 1) :
                          \E j \in 1..(nx * ny) : Near(vs[j][1], (i (+) "1/2") (/) nx, Tol) /\ Near(vs[j][2], (k (+) "1/2") (/) ny, Tol)
\* every value within rounding of the unit interval
Unit1(vs) == \A j \in 1..Len(vs) : vs[j] \succeq 0 /\ vs[j] \preceq 1
Unit2(vs) == \A j \in 1..Len(vs) : Unit1(vs[j])
Rel(p, img) == [j \in 1..Len(img) |-> <<img[j][1] (-) p[1], img[j][2] (-) p[2]>>]
RelTime(r, ts) == [j \in 1..Len(ts) |-> IF r.open \doteq r.close THEN "0" ELSE (ts[j] (-) r.open) (/) (r.close (-) r.open)]
StepFails(r, g, n) ==
  LET p == PixelAt(r.win, n - 1)
      img == Rel(p, g.img)
      tm == RelTime(r, g.time)
      cnt == r.nx * r.ny
  IN (IF ~g.more THEN {"stopped-early"} ELSE {})
     \cup (IF ~Unit2(img) THEN {"image-sample-in-its-pixel"} ELSE {})
     \cup (IF ~OnePer2(img, r.nx, r.ny) THEN {"image-one-per-stratum"} ELSE {})
     \cup (IF ~Unit2(g.lens) \/ ~OnePer2(g.lens, r.nx, r.ny) THEN {"lens-one-per-stratum"} ELSE {})
     \cup (IF ~\A j \in 1..Len(g.time) : g.time[j] \succeq (r.open (-) Tol) /\ g.time[j] \preceq (r.close (+) Tol) THEN {"time-in-shutter"} ELSE {})
     \cup (IF ~(r.open \doteq r.close) /\ ~OnePer(tm, cnt) THEN {"time-one-per-stratum"} ELSE {})
     \cup (IF ~r.jitter /\ ~(Centred2(img, r.nx, r.ny) /\ Centred2(g.lens, r.nx, r.ny) /\ (r.open \doteq r.close \/ Centred(tm, cnt)))
           THEN {"centred-without-jitter"} ELSE {})
     \cup (IF \E s \in 1..Len(g.one) : \E q \in 1..Len(r.req1) : ~(Unit1(g.one[s][q]) /\ OnePer(g.one[s][q], r.req1[q]))
           THEN {"latin-1d"} ELSE {})
     \cup (IF \E s \in 1..Len(g.two) : \E q \in 1..Len(r.req2) :
                LET v == g.two[s][q] n2 == r.req2[q]
                IN ~(Unit2(v) /\ OnePer([j \in 1..Len(v) |-> v[j][1]], n2) /\ OnePer([j \in 1..Len(v) |-> v[j][2]], n2))
           THEN {"latin-2d"} ELSE {})
ScanFails(r) ==
  IF r.err # "" THEN {"sampler-raised"} ELSE
  (IF Len(r.gen) # Total(r.win) THEN {"visits-each-pixel-once"} ELSE
     UNION {StepFails(r, r.gen[n], n) : n \in 1..Len(r.gen)})
  \cup (IF \E k \in 1..Len(r.after) : r.after[k] THEN {"exhausted-for-ever"} ELSE {})
  \cup (IF r.shared THEN {"each-sample-owns-its-values"} ELSE {})
  \cup (IF r.maxcnt # r.nx * r.ny \/ r.spp # r.nx * r.ny THEN {"samples-per-pixel"} ELSE {})
\* strata of different patterns meet by chance: row i, column j of r.cnt counts how often; every cell stays within six and
\* a half standard deviations of its row's even share (binomial)
RECURSIVE ISum(_, _)
ISum(s, k) == IF k = 0 THEN 0 ELSE s[k] + ISum(s, k - 1)
PairFails(r) ==
  IF r.err # "" THEN {"sampler-raised"} ELSE
  LET n == Len(r.cnt[1]) row(i) == ISum(r.cnt[i], n)
  IN IF \E i \in 1..Len(r.cnt) : \E j \in 1..n : LET e == n * r.cnt[i][j] - row(i) IN e * e > 42 * row(i) * (n - 1) THEN {"patterns-pair-by-chance"} ELSE {}
P11Fails(r) == IF r.op = "scan" THEN ScanFails(r) ELSE IF r.op = "pair" THEN PairFails(r) ELSE {}

\* ---- sub-samplers ----
Pixels(w) == {<<x, y>> : x \in w[1]..(w[2] - 1), y \in w[3]..(w[4] - 1)}
\* r.tiles[k] is <<>> when no sub-sampler was given
Tiles(r) == {k \in 1..Len(r.tiles) : r.tiles[k] # <<>>}
Within(t, w) == t[1] >= w[1] /\ t[2] <= w[2] /\ t[3] >= w[3] /\ t[4] <= w[4]
RECURSIVE Areas(_, _)
Areas(ts, k) == IF k = 0 THEN 0 ELSE Areas(ts, k - 1) + (IF ts[k] = <<>> THEN 0 ELSE Total(ts[k]))
TileFails(r) ==
  IF r.err # "" THEN {"subsampler-raised"} ELSE
  IF ~r.ints THEN {"integer-windows"} ELSE
  LET T == Tiles(r) IN
  (IF \E k \in T : r.tiles[k][1] >= r.tiles[k][2] \/ r.tiles[k][3] >= r.tiles[k][4] THEN {"empty-tile-handed-out"} ELSE {})
  \cup (IF \E k \in T : ~Within(r.tiles[k], r.win) THEN {"inside-the-range"} ELSE {})
  \cup (IF \E j, k \in T : j < k /\ r.tiles[j][1] < r.tiles[k][2] /\ r.tiles[k][1] < r.tiles[j][2]
                                 /\ r.tiles[j][3] < r.tiles[k][4] /\ r.tiles[k][3] < r.tiles[j][4] THEN {"tiles-disjoint"} ELSE {})
  \cup (IF Total(r.win) # Areas(r.tiles, Len(r.tiles)) THEN {"tiles-cover"} ELSE {})      \* with the two clauses above: every pixel, once
  \cup (IF r.visited # <<>> /\ {<<r.visited[j][1], r.visited[j][2]>> : j \in 1..Len(r.visited)} # Pixels(r.win) THEN {"rendering-tiles-visits-all"} ELSE {})
  \cup (IF r.visited # <<>> /\ Len(r.visited) # Total(r.win) THEN {"rendering-tiles-visits-once"} ELSE {})
  \cup (IF ~r.same THEN {"settings-kept"} ELSE {})
P12Fails(r) == IF r.op = "tiles" THEN TileFails(r) ELSE {}
==============================================================================
