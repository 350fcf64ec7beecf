------------------------------- MODULE Texture -------------------------------
(* Image pyramids, texture combinators, noise and texture mappings (P33).     *)
(* A texel is a sequence of components; s counts columns, t counts rows.      *)
EXTENDS Lin
M9 == "1e-9"
TAdd(a, b) == [k \in 1..Len(a) |-> a[k] (+) b[k]]
TMul(s, a) == [k \in 1..Len(a) |-> RRound(s (.) a[k], 200)]
TZero(n) == [k \in 1..n |-> "0"]
TEq(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(b) : NearRel(a[k], b[k], M9)
RECURSIVE TSum(_, _, _)
TSum(s, k, n) == IF k = 0 THEN TZero(n) ELSE TAdd(TSum(s, k - 1, n), s[k])
Mod1(x) == x (-) RFloor(x)
Log2(x) == RLn(x) (/) RLn(2)
RECURSIVE NextPow2(_)
NextPow2(n) == IF n <= 1 THEN 1 ELSE 2 * NextPow2((n + 1) \div 2)
RECURSIVE ILog2(_)
ILog2(n) == IF n <= 1 THEN 0 ELSE 1 + ILog2(n \div 2)
IMax(a, b) == IF a > b THEN a ELSE b
IMin(a, b) == IF a < b THEN a ELSE b

\* ---- wrap modes: the index a coordinate stands for, 0 when it is off a black-bordered image (indices from 1) ----
WrapI(w, i, n) == CASE w = "repeat" -> (i % n) + 1
                    [] w = "clamp" -> IMax(0, IMin(i, n - 1)) + 1
                    [] w = "black" -> IF i < 0 \/ i >= n THEN 0 ELSE i + 1
Tex(tab, w, nc, s, t) ==
  LET a == WrapI(w, s, Len(tab[1])) b == WrapI(w, t, Len(tab)) IN IF a = 0 \/ b = 0 THEN TZero(nc) ELSE tab[b][a]
\* ---- pyramid ----
IsPow2(n) == NextPow2(n) = n
Sinc(x) == IF x \doteq 0 THEN "1" ELSE RSin(PI (.) x) (/) (PI (.) x)
Lanc(x0) == LET x == RAbs(x0) IN IF x \prec "1e-5" THEN "1" ELSE IF x \succ 1 THEN "0" ELSE Sinc(2 (.) x) (.) Sinc(x)
\* weights of the four old pixels around new pixel i (from 0) when n old pixels become m
Weights(i, n, m) ==
  LET c == ((i (+) "1/2") (.) n) (/) m
      f == RFloor(c (-) "3/2")
      w == [j \in 1..4 |-> Lanc((((f + j - 1) (+) "1/2") (-) c) (/) 2)]
      tot == RSum(w)
  IN [first |-> f, w |-> [j \in 1..4 |-> RRound(w[j] (/) tot, 200)]]
ResampleRow(row, w, nc, m) ==
  [i \in 1..m |-> LET q == Weights(i - 1, Len(row), m)
                  IN TSum([j \in 1..4 |-> LET a == WrapI(w, q.first + j - 1, Len(row)) IN IF a = 0 THEN TZero(nc) ELSE TMul(q.w[j], row[a])], 4, nc)]
Transp(tab) == [s \in 1..Len(tab[1]) |-> [t \in 1..Len(tab) |-> tab[t][s]]]
Resampled(img, w, nc) ==
  LET H == NextPow2(Len(img)) WW == NextPow2(Len(img[1]))
      a == TLCEval([t \in 1..Len(img) |-> ResampleRow(img[t], w, nc, WW)])
      b == TLCEval([s \in 1..WW |-> ResampleRow(Transp(a)[s], w, nc, H)])
  IN Transp(b)
Clip0(x) == [k \in 1..Len(x) |-> RMax(x[k], 0)]
Base(r) == IF IsPow2(Len(r.img)) /\ IsPow2(Len(r.img[1])) THEN r.img ELSE TLCEval(Resampled(r.img, r.wrap, r.nc))
SameTab(a, b, clip) ==
  /\ Len(a) = Len(b) /\ Len(a[1]) = Len(b[1])
  /\ \A t \in 1..Len(b), s \in 1..Len(b[1]) : TEq(a[t][s], IF clip THEN Clip0(b[t][s]) ELSE b[t][s])
Half(tab, r) ==
  [t \in 1..IMax(1, Len(tab) \div 2) |-> [s \in 1..IMax(1, Len(tab[1]) \div 2) |->
    LET x(i, j) == Tex(tab, r.wrap, r.nc, 2 * (s - 1) + i, 2 * (t - 1) + j)
    IN TMul("1/4", TAdd(TAdd(x(0, 0), x(1, 0)), TAdd(x(0, 1), x(1, 1))))]]
PyrFails(r) ==
  LET H == NextPow2(Len(r.img)) W == NextPow2(Len(r.img[1]))
      n == 1 + ILog2(IMax(H, W))
      b == Base(r)
  IN IF r.n # n \/ r.w # W \/ r.h # H \/ Len(r.levels) # n THEN {"halved-until-one-texel"} ELSE
     (IF ~((r.nc = 1 /\ SameTab(r.levels[1], b, FALSE)) \/ SameTab(r.levels[1], b, TRUE)) THEN   \* colours never fall below zero
         {"base-level-is-the-image"} ELSE {})
     \cup (IF \E k \in 2..n : ~SameTab(r.levels[k], Half(r.levels[k - 1], r), FALSE) THEN {"level-averages-the-one-below"} ELSE {})
     \cup (IF \E k \in 1..Len(r.probes) : LET q == r.probes[k] IN ~TEq(q.v, Tex(r.levels[q.l + 1], r.wrap, r.nc, q.s, q.t)) THEN {"wrap-mode"} ELSE {})
\* ---- lookups (against the levels the map shows) ----
LevW(r, l) == Len(r.levels[l + 1][1])
LevH(r, l) == Len(r.levels[l + 1])
Bilin(r, l, s, t) ==
  LET x == (s (.) LevW(r, l)) (-) "1/2" y == (t (.) LevH(r, l)) (-) "1/2"
      i == RFloor(x) j == RFloor(y) dx == x (-) i dy == y (-) j
      T(a, b) == Tex(r.levels[l + 1], r.wrap, r.nc, i + a, j + b)
  IN TAdd(TAdd(TMul((1 (-) dx) (.) (1 (-) dy), T(0, 0)), TMul((1 (-) dx) (.) dy, T(0, 1))),
          TAdd(TMul(dx (.) (1 (-) dy), T(1, 0)), TMul(dx (.) dy, T(1, 1))))
Top(r) == Tex(r.levels[r.n], r.wrap, r.nc, 0, 0)
Trilin(r, s, t, w) ==
  LET L == (r.n - 1) (+) Log2(RMax(w, "1e-5"))
      k == RFloor(L) d == L (-) k
  IN IF L \prec 0 THEN Bilin(r, 0, s, t)
     ELSE IF L \succeq (r.n - 1) THEN Top(r)
     ELSE TAdd(TMul(1 (-) d, Bilin(r, k, s, t)), TMul(d, Bilin(r, k + 1, s, t)))
LOCAL INSTANCE SequencesExt
\* Gaussian falloff tabulated in 128 steps of the squared radius
Lut(k) == RExp((-2 * k) (/) 127) (-) RExp(-2)
\* elliptically weighted average on one level: [v, doubt]
EWA(r, l, s0, t0, a0, b0, a1, b1) ==
  IF l >= r.n THEN [v |-> Top(r), doubt |-> FALSE] ELSE
  LET W == LevW(r, l) H == LevH(r, l)
      s == (s0 (.) W) (-) "1/2" t == (t0 (.) H) (-) "1/2"
      p0 == a0 (.) W q0 == b0 (.) H p1 == a1 (.) W q1 == b1 (.) H
      A0 == ((q0 (.) q0) (+) (q1 (.) q1)) (+) 1
      B0 == (-2) (.) ((p0 (.) q0) (+) (p1 (.) q1))
      C0 == ((p0 (.) p0) (+) (p1 (.) p1)) (+) 1
      F == (A0 (.) C0) (-) ((B0 (.) B0) (/) 4)
      hs == RSqrt(C0) ht == RSqrt(A0)     \* half extents of the ellipse A0 s^2 + B0 s t + C0 t^2 = F
      cells == {<<i, j>> \in ((RFloor(s (-) hs) - 1)..(RCeil(s (+) hs) + 1)) \X ((RFloor(t (-) ht) - 1)..(RCeil(t (+) ht) + 1)) : TRUE}
      r2(c) == LET x == c[1] (-) s y == c[2] (-) t IN ((((A0 (.) x) (.) x) (+) ((B0 (.) x) (.) y)) (+) ((C0 (.) y) (.) y)) (/) F
      ins == TLCEval({<<c, RRound(128 (.) r2(c), 120)>> : c \in cells})
      use == SetToSeq({e \in ins : e[2] \prec 128})
      wt == [k \in 1..Len(use) |-> RRound(Lut(IMin(RFloor(use[k][2]), 127)), 120)]
      num == TSum([k \in 1..Len(use) |-> TMul(wt[k], Tex(r.levels[l + 1], r.wrap, r.nc, use[k][1][1], use[k][1][2]))], Len(use), r.nc)
  IN [v |-> TMul(1 (/) RSum(wt), num),
      doubt |-> \E e \in ins : e[2] \succ "1/2" /\ e[2] \prec 129 /\ RAbs(e[2] (-) RFloor(e[2] (+) "1/2")) \prec "1e-7"]
Hyp(a, b) == RSqrt((a (.) a) (+) (b (.) b))
Aniso(r, p) ==
  LET swap == Hyp(p[3], p[4]) \prec Hyp(p[5], p[6])
      a0 == IF swap THEN p[5] ELSE p[3] b0 == IF swap THEN p[6] ELSE p[4]
      a1 == IF swap THEN p[3] ELSE p[5] b1 == IF swap THEN p[4] ELSE p[6]
      maj == Hyp(a0, b0) min0 == Hyp(a1, b1)
      sc == IF min0 \succ 0 /\ (min0 (.) r.aniso) \prec maj THEN maj (/) (min0 (.) r.aniso) ELSE "1"
      min == min0 (.) sc
      lod == RMax(0, (r.n - 1) (+) Log2(min))
      k == RFloor(lod) d == lod (-) k
      x == EWA(r, k, p[1], p[2], a0, b0, RRound(a1 (.) sc, 200), RRound(b1 (.) sc, 200))
      y == EWA(r, k + 1, p[1], p[2], a0, b0, RRound(a1 (.) sc, 200), RRound(b1 (.) sc, 200))
  IN IF min \doteq 0 THEN [v |-> Bilin(r, 0, p[1], p[2]), doubt |-> FALSE]
     ELSE [v |-> TAdd(TMul(1 (-) d, x.v), TMul(d, y.v)), doubt |-> x.doubt \/ y.doubt \/ Near(lod, RFloor(lod (+) "1/2"), "1e-9")]
LookFails(r) ==
  UNION {LET q == r.looks[k] p == q.p
         IN IF q.err # "" THEN {"lookup-raised"}
            ELSE IF Len(p) = 2 THEN IF TEq(q.v, Trilin(r, p[1], p[2], 0)) THEN {} ELSE {"point-lookup"}
            ELSE IF Len(p) = 3 THEN IF TEq(q.v, Trilin(r, p[1], p[2], p[3])) THEN {} ELSE {"isotropic-lookup"}
            ELSE IF r.trilinear THEN IF TEq(q.v, Trilin(r, p[1], p[2], 2 (.) RMax(RMax(RAbs(p[3]), RAbs(p[4])), RMax(RAbs(p[5]), RAbs(p[6]))))) THEN {} ELSE {"trilinear-lookup"}
            ELSE LET e == Aniso(r, p) IN IF e.doubt \/ TEq(q.v, e.v) THEN {} ELSE {"anisotropic-lookup"} : k \in 1..Len(r.looks)}
MipFails(r) == IF r.err # "" THEN {"construction-raised"} ELSE PyrFails(r) \cup LookFails(r)

\* ---- image files: texels are scaled, gamma corrected and (for numbers) turned to luminance ----
Lum(c) == (("0.212671" (.) c[1]) (+) ("0.715160" (.) c[2])) (+) ("0.072169" (.) c[3])
Stored(r, px) == IF r.nc = 3 THEN [k \in 1..3 |-> RPowR(r.scale (.) px[k], r.gamma)] ELSE <<RPowR(r.scale (.) Lum(px), r.gamma)>>
ImageFails(r) ==
  IF r.err # "" THEN {"image-texture-raised"} ELSE
  LET pow == IsPow2(Len(r.px)) /\ IsPow2(Len(r.px[1]))
      one == [k \in 1..r.nc |-> RPowR(r.scale, r.gamma)]
      const == \A t \in 1..Len(r.px), s \in 1..Len(r.px[1]) : r.px[t][s] = r.px[1][1]
  IN (IF r.missing THEN IF Len(r.levels) = 1 /\ TEq(r.levels[1][1][1], one) THEN {} ELSE {"missing-image-is-constant"}
      ELSE IF Len(r.levels[1]) # NextPow2(Len(r.px)) \/ Len(r.levels[1][1]) # NextPow2(Len(r.px[1])) THEN {"image-size"}
      ELSE IF pow THEN IF \A t \in 1..Len(r.px), s \in 1..Len(r.px[1]) : TEq(r.levels[1][t][s], Stored(r, r.px[t][s])) THEN {} ELSE {"image-texels"}
      ELSE IF const /\ ~\A t \in 1..Len(r.levels[1]), s \in 1..Len(r.levels[1][1]) : TEq(r.levels[1][t][s], Stored(r, r.px[1][1])) THEN {"image-texels"} ELSE {})
     \cup LookFails(r)
     \cup (IF ~r.shared THEN {"same-image-is-loaded-once"} ELSE {})

\* ---- combinators; c1, c2 are the values of the child textures, st the mapped coordinates and derivatives ----
OddF(x) == LET h == RFloor(x (/) 2) IN h (+) (2 (.) RMax(((x (/) 2) (-) h) (-) "1/2", 0))
\* share of [x - d, x + d] that lies in odd unit cells
OddShare(x, d) == IF d \doteq 0 THEN (IF RFloor(x) % 2 = 1 THEN "1" ELSE "0") ELSE (OddF(x (+) d) (-) OddF(x (-) d)) (/) (2 (.) d)
Mix(a, x, y) == TAdd(TMul(1 (-) a, x), TMul(a, y))
RSumI(x) == LET f == [k \in 1..3 |-> IF k <= Len(x) THEN RFloor(x[k]) ELSE 0] IN f[1] + f[2] + f[3]
Parity(x) == RSumI(x) % 2 = 0
Perm == << 151, 160, 137, 91, 90, 15, 131, 13, 201, 95, 96, 53, 194, 233, 7, 225, 140, 36, 103, 30, 69, 142, 8, 99,
          37, 240, 21, 10, 23, 190, 6, 148, 247, 120, 234, 75, 0, 26, 197, 62, 94, 252, 219, 203, 117, 35, 11, 32,
          57, 177, 33, 88, 237, 149, 56, 87, 174, 20, 125, 136, 171, 168, 68, 175, 74, 165, 71, 134, 139, 48, 27, 166,
          77, 146, 158, 231, 83, 111, 229, 122, 60, 211, 133, 230, 220, 105, 92, 41, 55, 46, 245, 40, 244, 102, 143, 54,
          65, 25, 63, 161, 1, 216, 80, 73, 209, 76, 132, 187, 208, 89, 18, 169, 200, 196, 135, 130, 116, 188, 159, 86,
          164, 100, 109, 198, 173, 186, 3, 64, 52, 217, 226, 250, 124, 123, 5, 202, 38, 147, 118, 126, 255, 82, 85, 212,
          207, 206, 59, 227, 47, 16, 58, 17, 182, 189, 28, 42, 223, 183, 170, 213, 119, 248, 152, 2, 44, 154, 163, 70,
          221, 153, 101, 155, 167, 43, 172, 9, 129, 22, 39, 253, 19, 98, 108, 110, 79, 113, 224, 232, 178, 185, 112, 104,
          218, 246, 97, 228, 251, 34, 242, 193, 238, 210, 144, 12, 191, 179, 162, 241, 81, 51, 145, 235, 249, 14, 239, 107,
          49, 192, 214, 31, 181, 199, 106, 157, 184, 84, 204, 176, 115, 121, 50, 45, 127, 4, 150, 254, 138, 236, 205, 93,
          222, 114, 67, 29, 24, 72, 243, 141, 128, 195, 78, 66, 215, 61, 156, 180 >>
P(i) == Perm[(i % 256) + 1]
Grad(x, y, z, dx, dy, dz) ==
  LET h == P(P(P(x) + y) + z) % 16
      u == IF h < 8 \/ h \in {12, 13} THEN dx ELSE dy
      v == IF h < 4 \/ h \in {12, 13} THEN dy ELSE dz
  IN (IF h % 2 = 1 THEN RNeg(u) ELSE u) (+) (IF (h \div 2) % 2 = 1 THEN RNeg(v) ELSE v)
Fade(d) == ((d (.) d) (.) d) (.) ((10 (-) (15 (.) d)) (+) ((6 (.) d) (.) d))
Lerp(t, a, b) == ((1 (-) t) (.) a) (+) (t (.) b)
Noise(p) ==
  LET i == RFloor(p[1]) j == RFloor(p[2]) k == RFloor(p[3])
      x == p[1] (-) i y == p[2] (-) j z == p[3] (-) k
      g(a, b, c) == Grad((i + a) % 256, (j + b) % 256, (k + c) % 256, x (-) a, y (-) b, z (-) c)
      wx == Fade(x) wy == Fade(y) wz == Fade(z)
  IN RRound(Lerp(wz, Lerp(wy, Lerp(wx, g(0, 0, 0), g(1, 0, 0)), Lerp(wx, g(0, 1, 0), g(1, 1, 0))),
              Lerp(wy, Lerp(wx, g(0, 0, 1), g(1, 0, 1)), Lerp(wx, g(0, 1, 1), g(1, 1, 1)))), 200)
\* octave sum: full octaves as far as the filter width allows, the next one faded in; abs for turbulence
RECURSIVE Octaves(_, _, _, _, _, _)
Octaves(p, l, o, om, n, ab) ==
  IF n = 0 THEN "0" ELSE
  LET v == Noise(VMul(l, p)) IN (o (.) (IF ab THEN RAbs(v) ELSE v)) (+) Octaves(p, l (.) "1.99", o (.) om, om, n - 1, ab)
SmoothStep(lo, hi, x) == LET v == RMin(1, RMax(0, (x (-) lo) (/) (hi (-) lo))) IN (v (.) v) (.) (3 (-) (2 (.) v))
\* the code multiplies the frequency and the amplitude in floating point; the tolerances absorb that
Frac(p, dx, dy, om, mx, ab) ==
  LET s2 == RMax(Len2(dx), Len2(dy))
      f == IF s2 \doteq 0 THEN mx (+) 0 ELSE RMin(mx, 1 (-) (Log2(s2) (/) 2))
      n == RFloor(f)
      full == IF n > 0 THEN n ELSE 0
      last == Noise(VMul(RPow("1.99", full), p))
  IN Octaves(p, "1", "1", om, full, ab) (+) ((RPow(om, full) (.) SmoothStep("0.3", "0.7", f (-) n)) (.) (IF ab THEN RAbs(last) ELSE last))
Spline == << <<"0.58", "0.58", "0.6">>, <<"0.58", "0.58", "0.6">>, <<"0.58", "0.58", "0.6">>, <<"0.5", "0.5", "0.5">>, <<"0.6", "0.59", "0.58">>,
             <<"0.58", "0.58", "0.6">>, <<"0.58", "0.58", "0.6">>, <<"0.2", "0.2", "0.33">>, <<"0.58", "0.58", "0.6">> >>
Marble(r) ==
  LET p == VMul(r.scale, r.p)
      m == p[2] (+) (r.var (.) Frac(p, VMul(r.scale, r.dpdx), VMul(r.scale, r.dpdy), r.omega, r.oct, FALSE))
      x == 6 (.) ("1/2" (+) (RSin(m) (/) 2))
      k == IMin(RFloor(x), 5) t == x (-) k
      c(i) == Spline[k + i]
      a == Mix(t, c(1), c(2)) b == Mix(t, c(2), c(3)) d == Mix(t, c(3), c(4))
      e == Mix(t, a, b) f == Mix(t, b, d)
  IN [v |-> TMul("3/2", Mix(t, e, f)), doubt |-> Near(x, RFloor(x (+) "1/2"), "1e-7")]
Dots(r) ==
  LET s == r.st[1] t == r.st[2] i == RFloor(s (+) "1/2") j == RFloor(t (+) "1/2")
      N(a, b) == Noise(<<i (+) a, j (+) b, "1/2">>)
      here == N("1/2", "1/2")
      x == (s (-) i) (-) ("0.15" (.) N("3/2", "2.8"))
      y == (t (-) j) (-) ("0.15" (.) N("4.5", "9.8"))
      d == ((x (.) x) (+) (y (.) y)) (-) ("0.35" (.) "0.35")
  IN IF Near(here, 0, M9) \/ (here \succ 0 /\ Near(d, 0, M9)) THEN [v |-> r.v, doubt |-> TRUE]
     ELSE [v |-> IF here \succ 0 /\ d \prec 0 THEN r.c1 ELSE r.c2, doubt |-> FALSE]
TexValue(r) ==
  LET s == r.st[1] t == r.st[2]
      sure(v) == [v |-> v, doubt |-> FALSE]
  IN CASE r.kind = "constant" -> sure(r.c1)
       [] r.kind = "scale" -> sure([k \in 1..Len(r.c1) |-> r.c1[k] (.) r.c2[k]])
       [] r.kind = "mix" -> sure(Mix(r.amt, r.c1, r.c2))
       [] r.kind = "bilerp" -> sure(Mix(s, Mix(t, r.c1, r.c2), Mix(t, r.c3, r.c4)))
       [] r.kind = "uv" -> sure(<<Mod1(s), Mod1(t), "0">>)
       [] r.kind = "checker" -> sure(IF Parity(<<s, t>>) THEN r.c1 ELSE r.c2)
       [] r.kind = "checkeraa" ->
            LET ds == RMax(RAbs(r.st[3]), RAbs(r.st[5])) dt == RMax(RAbs(r.st[4]), RAbs(r.st[6]))
                si == OddShare(s, ds) ti == OddShare(t, dt)
                inside == RFloor(s (-) ds) = RFloor(s (+) ds) /\ RFloor(t (-) dt) = RFloor(t (+) dt)
            IN sure(Mix(IF ~inside /\ (ds \succ 1 \/ dt \succ 1) THEN "1/2" ELSE (si (+) ti) (-) (2 (.) (si (.) ti)), r.c1, r.c2))
       [] r.kind = "checker3" -> sure(IF Parity(r.p) THEN r.c1 ELSE r.c2)
       [] r.kind = "dots" -> Dots(r)
       [] r.kind = "fbm" -> sure(<<Frac(r.p, r.dpdx, r.dpdy, r.omega, r.oct, FALSE)>>)
       [] r.kind = "wrinkled" -> sure(<<Frac(r.p, r.dpdx, r.dpdy, r.omega, r.oct, TRUE)>>)
       [] r.kind = "windy" -> sure(<<RAbs(Frac(VMul("1/10", r.p), VMul("1/10", r.dpdx), VMul("1/10", r.dpdy), "1/2", 3, FALSE))
                                     (.) Frac(r.p, r.dpdx, r.dpdy, "1/2", 6, FALSE)>>)
       [] r.kind = "marble" -> Marble(r)
       [] r.kind = "noise" -> sure(<<Noise(r.p)>>)
       [] r.kind = "smoothstep" -> sure(<<SmoothStep(r.c1[1], r.c1[2], r.c1[3])>>)
       [] r.kind = "lanczos" -> sure([k \in 1..Len(r.c1) |-> Lanc(r.c1[k])])
Tol(r) == IF r.kind \in {"fbm", "wrinkled", "windy", "marble"} THEN "1e-7" ELSE M9
TexFails(r) ==
  IF r.err # "" THEN {"texture-raised"} ELSE
  LET e == TexValue(r)
  IN (IF ~e.doubt /\ ~(Len(r.v) = Len(e.v) /\ \A k \in 1..Len(e.v) : NearRel(r.v[k], e.v[k], Tol(r))) THEN {"texture-value"} ELSE {})
     \cup (IF ~r.kept THEN {"inputs-unchanged"} ELSE {})

\* ---- mappings: coordinates and their change per pixel (forward difference over a tenth of a pixel) ----
Sph(m, p) == LET v == Unit(MPt(m, p)) ph == RAtan2(v[2], v[1]) IN <<RAcos(RMin(1, RMax(-1, v[3]))) (/) PI, (IF ph \preceq 0 THEN ph (+) (2 (.) PI) ELSE ph) (/) (2 (.) PI)>>
Cyl(m, p) == LET v == Unit(MPt(m, p)) IN <<(PI (+) RAtan2(v[2], v[1])) (/) (2 (.) PI), v[3]>>
Unwrap(d) == IF d \succ "1/2" THEN d (-) 1 ELSE IF d \prec "-1/2" THEN d (+) 1 ELSE d
MapValue(r) ==
  LET px == VAdd(r.p, VMul("1/10", r.dpdx)) py == VAdd(r.p, VMul("1/10", r.dpdy))
      near(a, b) == NearRel(a, b, "1e-7")
      cyc(a, b) == Near(Unwrap(a (-) b), 0, M9) \/ Near(RAbs(a (-) b), 1, M9)
      seam(d) == Near(RAbs(d), "1/2", "1e-9")
  IN CASE r.kind = "uv" ->
            \A k \in 1..6 : NearRel(r.v[k], <<(r.su (.) r.u) (+) r.du, (r.sv (.) r.vv) (+) r.dv, r.su (.) r.d[1], r.sv (.) r.d[2], r.su (.) r.d[3], r.sv (.) r.d[4]>>[k], M9)
       [] r.kind = "spherical" ->
            LET a == Sph(r.m, r.p) x == Sph(r.m, px) y == Sph(r.m, py)
            IN /\ near(r.v[1], a[1]) /\ cyc(r.v[2], a[2])
               /\ near(r.v[3], 10 (.) (x[1] (-) a[1])) /\ near(r.v[5], 10 (.) (y[1] (-) a[1]))
               /\ (seam(x[2] (-) a[2]) \/ near(r.v[4], 10 (.) Unwrap(x[2] (-) a[2])))
               /\ (seam(y[2] (-) a[2]) \/ near(r.v[6], 10 (.) Unwrap(y[2] (-) a[2])))
       [] r.kind = "cylindrical" ->
            LET a == Cyl(r.m, r.p) x == Cyl(r.m, px) y == Cyl(r.m, py)
            IN /\ cyc(r.v[1], a[1]) /\ near(r.v[2], a[2])
               /\ near(r.v[4], 10 (.) (x[2] (-) a[2])) /\ near(r.v[6], 10 (.) (y[2] (-) a[2]))
               /\ (seam(x[1] (-) a[1]) \/ near(r.v[3], 10 (.) Unwrap(x[1] (-) a[1])))
               /\ (seam(y[1] (-) a[1]) \/ near(r.v[5], 10 (.) Unwrap(y[1] (-) a[1])))
       [] r.kind = "planar" ->
            \A k \in 1..6 : NearRel(r.v[k], <<r.su (+) Dot(r.p, r.vs), r.sv (+) Dot(r.p, r.vt), Dot(r.dpdx, r.vs), Dot(r.dpdx, r.vt), Dot(r.dpdy, r.vs), Dot(r.dpdy, r.vt)>>[k], M9)
       [] r.kind = "identity" ->
            LET q == MPt(r.m, r.p) a == MVec(r.m, r.dpdx) b == MVec(r.m, r.dpdy)
            IN \A k \in 1..3 : NearRel(r.v[k], q[k], M9) /\ NearRel(r.v[k + 3], a[k], M9) /\ NearRel(r.v[k + 6], b[k], M9)
MapFails(r) == IF r.err # "" THEN {"mapping-raised"} ELSE IF MapValue(r) THEN {} ELSE {"mapped-coordinates"}

P33Fails(r) == CASE r.op = "mip" -> MipFails(r) [] r.op = "image" -> ImageFails(r) [] r.op = "tex" -> TexFails(r) [] r.op = "map" -> MapFails(r)
==============================================================================
