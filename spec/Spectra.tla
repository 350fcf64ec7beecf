------------------------------- MODULE Spectra -------------------------------
(* Spectra (P31): component-wise arithmetic, queries, colour conversion and   *)
(* resampling of tables.                                                      *)
EXTENDS Lin
M12 == "1e-12"
Idx(s) == 1..Len(s)
SNear(a, b, t) == Len(a) = Len(b) /\ \A k \in Idx(a) : NearRel(a[k], b[k], t)
Same(a, b) == Len(a) = Len(b) /\ \A k \in Idx(a) : a[k] \doteq b[k] \/ (a[k] = "nan" /\ b[k] = "nan")
Ref(r, k) ==
  CASE r.k \in {"add", "iadd"} -> r.a[k] (+) r.b[k]
    [] r.k \in {"sub", "isub"} -> r.a[k] (-) r.b[k]
    [] r.k \in {"mul", "imul"} -> r.a[k] (.) r.b[k]
    [] r.k \in {"div", "idiv"} -> r.a[k] (/) r.b[k]
    [] r.k = "neg" -> RNeg(r.a[k])
    [] r.k \in {"smul", "rsmul", "ismul"} -> r.s (.) r.a[k]
    [] r.k \in {"sdiv", "isdiv"} -> r.a[k] (/) r.s
    [] r.k = "lerp" -> ((1 (-) r.s) (.) r.a[k]) (+) (r.s (.) r.b[k])
    [] r.k = "sqrt" -> RSqrt(r.a[k])
    [] r.k = "exp" -> RExp(r.a[k])
    [] r.k = "pow" -> (IF r.a[k] \doteq 0 THEN IF r.s \doteq 0 THEN "1" ELSE "0" ELSE RPowR(r.a[k], r.s))
    [] r.k = "clip" -> RMin(r.s2, RMax(r.s, r.a[k]))
    [] r.k = "copy" -> r.a[k]
InPlace == {"iadd", "isub", "imul", "idiv", "ismul", "isdiv"}
ArithFails(r) ==
  IF r.err # "" THEN {"arithmetic-raised"} ELSE
  LET want == [k \in Idx(r.a) |-> Ref(r, k)]
  IN (IF ~SNear(r.res, want, M12) THEN {"component-wise"} ELSE {})
     \cup (IF ~r.typeok THEN {"stays-a-spectrum"} ELSE {})
     \cup (IF ~(IF r.k \in InPlace THEN Same(r.a2, r.res) ELSE Same(r.a2, r.a)) THEN {"operand-kept"} ELSE {})
     \cup (IF ~Same(r.b2, r.b) THEN {"operand-kept"} ELSE {})
     \cup (IF r.k \notin InPlace /\ ~r.apart THEN {"result-is-a-new-spectrum"} ELSE {})
\* operands with different numbers of samples do not mix
RejectFails(r) == (IF r.err = "" THEN {"incompatible-operands-rejected"} ELSE {}) \cup (IF ~Same(r.a, r.a2) \/ ~Same(r.b, r.b2) THEN {"operand-kept"} ELSE {})
YW == <<"0.212671", "0.715160", "0.072169">>
ToXyz == << <<"0.412453", "0.357580", "0.180423">>, YW, <<"0.019334", "0.119193", "0.950227">> >>
QueryFails(r) ==
  IF r.err # "" THEN {"query-raised"} ELSE
  (IF \E k \in Idx(r.a) : r.a[k] = "nan" THEN IF r.nan THEN {} ELSE {"nan-anywhere-found"} ELSE IF r.nan THEN {"nan-only-when-there"} ELSE {})
  \cup (IF (\E k \in Idx(r.a) : RAbs(r.a[k]) \succ "1e-4") /\ r.black THEN {"black-only-when-every-component-is"} ELSE {})
  \cup (IF (\A k \in Idx(r.a) : r.a[k] \doteq 0) /\ ~r.black THEN {"zero-is-black"} ELSE {})
  \cup (IF r.same # (\A k \in Idx(r.a) : r.a[k] # "nan") THEN {"equality"} ELSE {})
  \cup (IF r.eq # (Len(r.a) = Len(r.b) /\ \A k \in Idx(r.a) : r.a[k] \doteq r.b[k]) \/ r.ne = r.eq THEN {"equality"} ELSE {})
  \cup (IF r.n # Len(r.a) THEN {"sample-count"} ELSE {})
MatVec(m, v) == [i \in 1..3 |-> ((m[i][1] (.) v[1]) (+) (m[i][2] (.) v[2])) (+) (m[i][3] (.) v[3])]
Big3(v) == RMax(1, MaxAbs3(v))
ConvFails(r) ==
  IF r.err # "" THEN {"conversion-raised"} ELSE
  (IF ~VNear(r.xyz, MatVec(ToXyz, r.a), "1e-5" (.) Big3(r.a)) THEN {"rgb-to-xyz"} ELSE {})
  \cup (IF ~VNear(r.xyz2, r.xyz, M12 (.) Big3(r.xyz)) THEN {"spectrum-agrees-with-conversion"} ELSE {})
  \cup (IF ~VNear(r.back, r.a, "1e-5" (.) Big3(r.a)) \/ ~VNear(r.back2, r.a, "1e-5" (.) Big3(r.a)) THEN {"there-and-back"} ELSE {})
  \cup (IF ~VNear(r.fwd, r.a, "1e-5" (.) Big3(r.a)) THEN {"back-and-there"} ELSE {})
  \cup (IF ~Near(r.y, r.xyz[2], "1e-5" (.) Big3(r.a)) THEN {"luminance"} ELSE {})
  \cup (IF ~Same(r.rgb, r.a) \/ ~Same(r.frgb, r.a) THEN {"rgb-of-rgb"} ELSE {})
  \cup (IF ~Same(r.a2, r.a) THEN {"operand-kept"} ELSE {})
CreateFails(r) ==
  IF ~r.good THEN (IF r.err = "" THEN {"bad-source-rejected"} ELSE {})
  ELSE IF r.err # "" THEN {"creation-raised"} ELSE
  (IF ~Same(r.res, r.a) THEN {"holds-what-it-was-given"} ELSE {})
  \cup (IF ~r.typeok THEN {"stays-a-spectrum"} ELSE {})
  \cup (IF ~r.apart THEN {"owns-its-coefficients"} ELSE {})
  \cup (IF ~Same(r.half, [k \in Idx(r.a) |-> r.a[k] (/) 2]) THEN {"coefficients-are-real-numbers"} ELSE {})
\* ---- tables: piecewise linear in between, constant beyond the ends ----
At(lam, v, x) ==
  LET n == Len(lam) IN
  IF x \preceq lam[1] THEN v[1] ELSE IF x \succeq lam[n] THEN v[n]
  ELSE LET k == CHOOSE k \in 1..(n - 1) : lam[k] \preceq x /\ x \prec lam[k + 1]
       IN v[k] (+) ((v[k + 1] (-) v[k]) (.) ((x (-) lam[k]) (/) (lam[k + 1] (-) lam[k])))
Trap(x0, y0, x1, y1) == ((x1 (-) x0) (.) (y0 (+) y1)) (/) 2
\* the integral over [a, b]: <<x, y>> is where the walk stands, k the next knot
RECURSIVE Walk(_, _, _, _, _, _)
Walk(lam, v, x, y, k, b) ==
  IF k > Len(lam) \/ b \preceq lam[k] THEN Trap(x, y, b, At(lam, v, b))
  ELSE IF lam[k] \preceq x THEN Walk(lam, v, x, y, k + 1, b)
  ELSE Trap(x, y, lam[k], v[k]) (+) Walk(lam, v, lam[k], v[k], k + 1, b)
Integral(lam, v, a, b) == Walk(lam, v, a, At(lam, v, a), 1, b)
Average(lam, v, a, b) == Integral(lam, v, a, b) (/) (b (-) a)
AverageFails(r) ==
  IF r.err # "" THEN {"average-raised"} ELSE
  (IF ~NearRel(r.res, Average(r.lam, r.v, r.ls, r.le), "1e-10") THEN {"average-over-the-window"} ELSE {})
  \cup (IF ~Same(r.lam, r.lam2) \/ ~Same(r.v, r.v2) THEN {"table-kept"} ELSE {})
NS == 30
Lo(i) == (400 (+) (10 (.) (i - 1)))
\* r.lam, r.v sorted by wavelength; r.res[i] is the average over [400 + 10 (i-1), 400 + 10 i] nanometres
ResampleFails(r) ==
  IF r.err # "" THEN {"resample-raised"} ELSE
  (IF Len(r.res) # NS THEN {"sample-count"} ELSE
   IF \E i \in 1..NS : ~NearRel(r.res[i], Average(r.lam, r.v, Lo(i), Lo(i + 1)), "1e-10") THEN {"resampled-bins"} ELSE {})
  \cup (IF ~r.keep THEN {"table-kept"} ELSE {})
\* one bin of a built-in table against the source table around the bin
TableFails(r) == IF r.err # "" THEN {"tables-raised"} ELSE IF ~NearRel(r.res, Average(r.lam, r.v, Lo(r.bin), Lo(r.bin + 1)), "1e-10") THEN {"built-in-table"} ELSE {}
RECURSIVE DotTo(_, _, _)
DotTo(a, b, k) == IF k = 0 THEN "0" ELSE DotTo(a, b, k - 1) (+) (a[k] (.) b[k])
Scale == 10 (/) "106.856895"
XyzOf(r) == [k \in 1..3 |-> Scale (.) DotTo(r.tab[k], r.a, NS)]
SampledFails(r) ==
  IF r.err # "" THEN {"conversion-raised"} ELSE
  LET big == RMax(1, SetMax({RAbs(r.a[k]) : k \in Idx(r.a)})) IN
  (IF ~VNear(r.xyz, XyzOf(r), "1e-9" (.) big) THEN {"sampled-to-xyz"} ELSE {})
  \cup (IF ~Near(r.y, XyzOf(r)[2], "1e-9" (.) big) THEN {"luminance"} ELSE {})
  \cup (IF ~VNear(MatVec(ToXyz, r.rgb), r.xyz, "1e-5" (.) Big3(r.xyz)) THEN {"sampled-to-rgb"} ELSE {})
\* a colour is white to the height of its least channel, then the secondary of the two others, then the primary of the greatest
Complement == <<2, 3, 4>>   \* cyan, magenta, yellow
Primary == <<5, 6, 7>>      \* red, green, blue; 1 is white
FromRgb(r) ==
  LET lo == CHOOSE k \in 1..3 : \A j \in 1..3 : r.a[k] \preceq r.a[j]
      hi == CHOOSE k \in 1..3 \ {lo} : \A j \in 1..3 \ {lo} : r.a[k] \succeq r.a[j]
      me == CHOOSE k \in 1..3 : k \notin {lo, hi}
  IN [i \in 1..NS |-> RMax(0, (IF r.refl THEN "0.94" ELSE "0.86445") (.)
        (((r.a[lo] (.) r.tab[1][i]) (+) ((r.a[me] (-) r.a[lo]) (.) r.tab[Complement[lo]][i])) (+) ((r.a[hi] (-) r.a[me]) (.) r.tab[Primary[hi]][i])))]
FromRgbFails(r) ==
  IF r.err # "" THEN {"conversion-raised"} ELSE
  (IF ~SNear(r.res, FromRgb(r), "1e-9") THEN {"spectrum-of-a-colour"} ELSE {})
  \cup (IF \E k \in 1..Len(r.res) : ~Near(r.xres[k], r.res[k], "1e-4") THEN {"spectrum-of-a-tristimulus-value"} ELSE {})
  \* a colour keeps its channels roughly: within a quarter of its brightest channel
  \cup (IF \E k \in 1..3 : ~Near(r.back[k], r.a[k], "0.25" (.) RMax(r.a[1], RMax(r.a[2], r.a[3]))) THEN {"colour-survives-sampling"} ELSE {})
P31Fails(r) ==
  CASE r.op = "arith" -> ArithFails(r)
    [] r.op = "reject" -> RejectFails(r)
    [] r.op = "query" -> QueryFails(r)
    [] r.op = "conv" -> ConvFails(r)
    [] r.op = "create" -> CreateFails(r)
    [] r.op = "average" -> AverageFails(r)
    [] r.op = "resample" -> ResampleFails(r)
    [] r.op = "table" -> TableFails(r)
    [] r.op = "sampled" -> SampledFails(r)
    [] r.op = "fromrgb" -> FromRgbFails(r)
==============================================================================
