-------------------------------- MODULE Film --------------------------------
(* The film: a window of pixels, each accumulating weight, weighted colour   *)
(* and splatted colour.  f is the film's description (resolution, crop,      *)
(* filter); samples and splats are the transitions.                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Rat

TableSize == 16
Tiny == "1e-9"
IMax(a, b) == IF a >= b THEN a ELSE b
IMin(a, b) == IF a <= b THEN a ELSE b

\* ---- crop windows ----
\* ceilings a correctly rounded product may give
Ceils(n, c) == LET p == n (.) c IN {RCeil(p (-) Tiny), RCeil(p), RCeil(p (+) Tiny)}
AxisWindows(n, c0, c1) == {<<s, s + IMax(1, e - s)>> : s \in Ceils(n, c0), e \in Ceils(n, c1)}

\* ---- reconstruction filter, tabulated on a 16 x 16 grid of the first quadrant ----
FilterAt(f, x, y) ==
  CASE f.kind = "box" -> "1"
    [] f.kind = "triangle" -> RMax(0, f.xw (-) x) (.) RMax(0, f.yw (-) y)
    [] f.kind = "poly" -> ((f.co[1] (+) (f.co[2] (.) x)) (+) (f.co[3] (.) y)) (+) ((f.co[4] (.) x) (.) y)
Cell(f, ix, iy) ==
  IF f.kind = "table" THEN f.tbl[iy + 1][ix + 1]
  ELSE FilterAt(f, ((ix (+) "1/2") (.) f.xw) (/) TableSize, ((iy (+) "1/2") (.) f.yw) (/) TableSize)
\* table columns the offset d may fall in (two when it is within rounding of a cell border)
Cols(d, w) == LET q == (RAbs(d) (.) TableSize) (/) w
              IN {IMin(TableSize - 1, IMax(0, k)) : k \in {RFloor(q (-) Tiny), RFloor(q), RFloor(q (+) Tiny)}}
\* is the pixel centre within the half-width: yes / no / either (positions that are not exact binary fractions)
Within(d, w, tol) == IF RAbs(d) \preceq (w (-) tol) THEN {TRUE} ELSE IF RAbs(d) \succ (w (+) tol) THEN {FALSE} ELSE
                     IF tol \doteq 0 THEN {RAbs(d) \preceq w} ELSE {TRUE, FALSE}
\* weights pixel (x, y) may receive from a sample at (sx, sy)
Weights(f, sx, sy, x, y, tol) ==
  LET dx == (x (+) "1/2") (-) sx
      dy == (y (+) "1/2") (-) sy
      wi == Within(dx, f.xw, tol)
      wj == Within(dy, f.yw, tol)
  IN (IF FALSE \in wi \/ FALSE \in wj THEN {"none"} ELSE {})
     \cup (IF TRUE \in wi /\ TRUE \in wj THEN {Cell(f, ix, iy) : ix \in Cols(dx, f.xw), iy \in Cols(dy, f.yw)} ELSE {})

\* ---- conformance of one recorded history ----
Ch(e, x, y) == {k \in 1..Len(e.chg) : e.chg[k].x = x /\ e.chg[k].y = y}
Delta(c, n) == c.post[n] (-) c.pre[n]
Scale(e) == RMax(1, RMax(RAbs(e.xyz[1]), RMax(RAbs(e.xyz[2]), RAbs(e.xyz[3]))))
TolE(e, c) == "1e-10" (.) (Scale(e) (.) RMax(1, RMax(RAbs(c.post[1]), RMax(RAbs(c.post[2]), RAbs(c.post[3])))))
\* accumulator slots: 1 weight, 2..4 weighted colour, 5..7 splat colour
Unaccumulated(c) == \A n \in 1..4 : c.post[n] \doteq c.pre[n]
Unsplatted(c) == \A n \in 5..7 : c.post[n] \doteq c.pre[n]
Got(e, c, w) == /\ Near(Delta(c, 1), w, TolE(e, c))
                /\ \A n \in 1..3 : Near(Delta(c, n + 1), w (.) e.xyz[n], TolE(e, c))
AddOk(r, e, x, y) ==
  LET W == Weights(r.film, e.sx, e.sy, x, y, r.tol)
      S == Ch(e, x, y)
  IN IF S = {} THEN "none" \in W \/ \E w \in W : w # "none" /\ w \doteq 0
     ELSE \A k \in S : /\ Unsplatted(e.chg[k])
                       /\ \E w \in W : w # "none" /\ Got(e, e.chg[k], w)
SplatHome(r, e) == <<RFloor(e.sx), RFloor(e.sy)>>
SplatOk(r, e, x, y) ==
  LET S == Ch(e, x, y)
  IN IF <<x, y>> # SplatHome(r, e) THEN S = {}
     ELSE IF S = {} THEN \A n \in 1..3 : e.xyz[n] \doteq 0
     ELSE \A k \in S : Unaccumulated(e.chg[k]) /\ \A n \in 1..3 : Near(Delta(e.chg[k], n + 4), e.xyz[n], TolE(e, e.chg[k]))
EvFails(r, e) ==
  IF e.err # "" THEN {e.op \o "-raised"} ELSE
  (IF \E x \in r.win[1]..(r.win[2] - 1), y \in r.win[3]..(r.win[4] - 1) :
        ~(IF e.op = "add" THEN AddOk(r, e, x, y) ELSE SplatOk(r, e, x, y))
   THEN {e.op \o "-updates-exactly-its-pixels"} ELSE {})
  \cup (IF ~e.keep THEN {"radiance-left-alone"} ELSE {})
P07Fails(r) ==
  CASE r.op = "hist" -> IF r.err # "" THEN {"film-raised"} ELSE
         UNION {EvFails(r, r.ev[k]) : k \in 1..Len(r.ev)} \cup (IF r.zero THEN {} ELSE {"film-starts-empty"})
    [] r.op = "order" -> IF \E k \in 1..Len(r.a) : ~(Near(r.a[k], r.b[k], "1e-9" (.) RMax(1, RAbs(r.a[k])))) THEN {"order-matters"} ELSE {}
    [] OTHER -> {}

\* ---- crop windows and sample extent ----
ExtentFails(r) ==
  (IF <<r.px[1], r.px[2]>> \notin AxisWindows(r.xr, r.crop[1], r.crop[2]) THEN {"x-window"} ELSE {})
  \cup (IF <<r.px[3], r.px[4]>> \notin AxisWindows(r.yr, r.crop[3], r.crop[4]) THEN {"y-window"} ELSE {})
  \cup (IF ~((r.se[1] \preceq ((r.px[1] (+) "1/2") (-) (r.xw (-) Tiny))) /\ (((r.px[2] (-) "1/2") (+) (r.xw (-) Tiny)) \prec r.se[2])
            /\ (r.se[3] \preceq ((r.px[3] (+) "1/2") (-) (r.yw (-) Tiny))) /\ (((r.px[4] (-) "1/2") (+) (r.yw (-) Tiny)) \prec r.se[4]))
        THEN {"samples-cover-every-footprint"} ELSE {})
  \cup (IF ~(r.se[1] >= r.px[1] - RCeil(r.xw) /\ r.se[2] <= r.px[2] + RCeil(r.xw)
             /\ r.se[3] >= r.px[3] - RCeil(r.yw) /\ r.se[4] <= r.px[4] + RCeil(r.yw)) THEN {"samples-not-far-outside"} ELSE {})
\* films cropped with adjacent fractions
TilingFails(r) ==
  LET n == Len(r.px)
      NonEmpty == \A k \in 1..n : \A c \in Ceils(r.res, r.cuts[k]), d \in Ceils(r.res, r.cuts[k + 1]) : c < d
  IN IF ~NonEmpty THEN {}
     ELSE IF r.px[1][1] = 0 /\ r.px[n][2] = r.res /\ \A k \in 1..(n - 1) : r.px[k][2] = r.px[k + 1][1] THEN {} ELSE {"adjacent-crops-partition"}
P08Fails(r) == IF r.op = "extent" THEN (IF r.err # "" THEN {"film-raised"} ELSE ExtentFails(r))
               ELSE IF r.op = "tiling" THEN TilingFails(r) ELSE {}

\* ---- writing the image ----
\* Rgb(v): the linear map from XYZ (the driver records the map's 3 columns from the code's public conversion)
MulRow(m, k, v) == ((m[k][1] (.) v[1]) (+) (m[k][2] (.) v[2])) (+) (m[k][3] (.) v[3])
Recon(r, p, k) == \* channel k of pixel p before normalisation
  LET base == MulRow(r.m, k, SubSeq(p, 2, 4))
      main == IF p[1] \doteq 0 THEN base ELSE RMax(0, base (/) p[1])
  IN main (+) (r.scale (.) MulRow(r.m, k, SubSeq(p, 5, 7)))
ChannelMax(r, k) == LET V == {Recon(r, r.pix[j][i], k) : j \in 1..Len(r.pix), i \in 1..Len(r.pix[1])}
                    IN CHOOSE v \in V : \A w \in V : w \preceq v
ByteOk(b, v) == v \prec ((b + 1) (+) "1e-6") /\ v \succeq (b (-) "1e-6")
ImageFails(r) ==
  LET ny == Len(r.pix)
      nx == Len(r.pix[1])
      mx == [k \in 1..3 |-> ChannelMax(r, k)]
      val(j, i, k) == LET v == Recon(r, r.pix[j][i], k)
                      IN IF mx[k] \preceq "1e-12" THEN v ELSE (255 (.) v) (/) mx[k]
      cropped == nx # r.xr \/ ny # r.yr
      inwin(y, x) == x >= r.win[1] /\ x < r.win[2] /\ y >= r.win[3] /\ y < r.win[4]
  IN IF r.err # "" THEN {"write-raised"} ELSE
     (IF Len(r.img) # r.yr \/ Len(r.img[1]) # r.xr THEN {"image-size"} ELSE
      (IF \E y \in 0..(r.yr - 1), x \in 0..(r.xr - 1), k \in 1..3 :
           inwin(y, x) /\ ~ByteOk(r.img[y + 1][x + 1][k], val(y - r.win[3] + 1, x - r.win[1] + 1, k))
       THEN {"window-pixels-reconstructed"} ELSE {})
      \cup (IF cropped /\ \E y \in 0..(r.yr - 1), x \in 0..(r.xr - 1) : ~inwin(y, x) /\ r.img[y + 1][x + 1] # r.old[y + 1][x + 1]
            THEN {"pixels-outside-window-kept"} ELSE {}))
     \cup (IF ~r.again THEN {"writing-twice-differs"} ELSE {})
     \cup (IF ~r.undisturbed THEN {"writing-disturbs-accumulation"} ELSE {})
     \cup (IF ~r.retsame THEN {"returned-array-is-the-image"} ELSE {})
P10Fails(r) == IF r.op = "image" THEN ImageFails(r) ELSE {}
=============================================================================
