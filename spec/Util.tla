-------------------------------- MODULE Util --------------------------------
(* The numeric helpers every other module leans on, over exact rationals.    *)
EXTENDS Integers, Sequences, TLC, Rat
UEps == "0.00001"          \* the library's EPS
Band == "1e-9"             \* how close to a threshold a verdict is left open
\* three-valued: a < b up to the band
Below(a, b) == IF a \prec (b (-) Band) THEN "yes" ELSE IF a \succ (b (+) Band) THEN "no" ELSE "open"
Says(v, want) == want = "open" \/ v = (want = "yes")
Not3(x) == IF x = "yes" THEN "no" ELSE IF x = "no" THEN "yes" ELSE "open"
UtilFails(r) ==
  IF r.err # "" THEN {"helper-raised"} ELSE
  CASE r.fn = "near" ->
         LET near == Below(RAbs(r.x (-) 1), UEps) d == RAbs(r.x (-) r.y)
         IN (IF ~Says(r.eq1, near) THEN {"equal-to-one"} ELSE {})
            \cup (IF ~Says(r.ne1, Not3(near)) THEN {"differs-from-one"} ELSE {})
            \cup (IF ~Says(r.eq0, Below(RAbs(r.x0), UEps)) THEN {"equal-to-zero"} ELSE {})
            \cup (IF ~Says(r.ne0, Not3(Below(RAbs(r.x0), UEps))) THEN {"differs-from-zero"} ELSE {})
            \cup (IF d \preceq UEps /\ ~r.feq THEN {"equal-within-epsilon"} ELSE {})
            \cup (IF d \succ ("1e-4" (.) RMax(1, RAbs(r.y))) /\ r.feq THEN {"equal-only-when-close"} ELSE {})
    [] r.fn = "round" ->
         (IF ~(r.floor \preceq r.x /\ r.x \prec (r.floor (+) 1)) THEN {"rounds-down"} ELSE {})
         \cup (IF ~(r.ceil \succeq r.x /\ r.x \succ (r.ceil (-) 1)) THEN {"rounds-up"} ELSE {})
         \cup (IF ~(RAbs(r.round (-) r.x) \preceq "1/2") THEN {"rounds-to-nearest"} ELSE {})
         \cup (IF ~r.ints THEN {"rounding-gives-integers"} ELSE {})
    [] r.fn = "lerp" ->
         LET want(k) == ((1 (-) r.t) (.) r.a[k]) (+) (r.t (.) r.b[k])
             mag == RMax(1, RMax(RAbs(r.t), 1) (.) RMax(RAbs(r.a[1]), RAbs(r.b[1])))
         IN (IF ~Near(r.got, want(1), "1e-12" (.) mag) THEN {"interpolates"} ELSE {})
            \cup (IF \E k \in 1..Len(r.a) : ~Near(r.arr[k], want(k), "1e-12" (.) RMax(1, RMax(RAbs(r.t), 1) (.) RMax(RAbs(r.a[k]), RAbs(r.b[k])))) THEN {"interpolates-arrays"} ELSE {})
    [] r.fn = "pow2" ->      \* r.x >= 1
         LET Two(k) == RPow("2", k)
             p == CHOOSE k \in 0..70 : Two(k) \preceq r.x /\ r.x \prec Two(k + 1)
             exact == Two(p) \doteq r.x
             next == IF exact THEN Two(p) ELSE Two(p + 1)
             sq == Two(2 * p + 1) x2 == r.x (.) r.x         \* nearest in the logarithm: x^2 against 2^(2p+1)
             tie == RAbs(x2 (-) sq) \preceq ("1e-12" (.) sq)
         IN (IF r.is # exact THEN {"recognises-powers-of-two"} ELSE {})
            \cup (IF ~(r.next \doteq next) THEN {"next-power-of-two"} ELSE {})
            \cup (IF ~tie /\ ~(r.round \doteq (IF x2 \prec sq THEN Two(p) ELSE Two(p + 1))) THEN {"nearest-power-of-two"} ELSE {})
    [] r.fn = "clip" ->
         (IF ~(r.got \doteq RMin(r.hi, RMax(r.lo, r.x))) THEN {"clips-numbers"} ELSE {})
         \cup (IF ~(r.dflt \doteq RMax("0", r.x)) THEN {"clips-to-non-negative-by-default"} ELSE {})
         \cup (IF ~r.type THEN {"clipping-keeps-the-type"} ELSE {})
         \cup (IF \E k \in 1..3 : ~(r.scol[k] \doteq RMin(r.hi, RMax(r.lo, r.col[k]))) THEN {"clips-spectra"} ELSE {})
    [] r.fn = "black" ->
         LET small(x) == Below(RAbs(x), UEps)
             all == IF \E k \in 1..Len(r.col) : small(r.col[k]) = "no" THEN "no" ELSE IF \E k \in 1..Len(r.col) : small(r.col[k]) = "open" THEN "open" ELSE "yes"
         IN (IF ~Says(r.one, small(r.col[1])) THEN {"black-number"} ELSE {}) \cup (IF ~Says(r.all, all) THEN {"black-when-every-component-is"} ELSE {})
    [] OTHER -> {}
P40Fails(r) == UtilFails(r)
=============================================================================
