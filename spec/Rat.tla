-------------------------------- MODULE Rat --------------------------------
(* Exact rational numbers.  A number is a TLA+ integer or one of the strings *)
(* "n", "n/d", "1.25", "0x1.8p-3" (the exact value of a binary float),       *)
(* "inf", "-inf", "nan"; results are canonical strings.  TLC's own integers  *)
(* are 32-bit, so the operators below are computed by lib/Rat.java (TLC      *)
(* loads a class of the module's name); their meaning is the usual field,    *)
(* order and floor of the rationals.  "nan" propagates through arithmetic    *)
(* and falsifies every comparison, so a verdict over it is total.            *)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL Undef == CHOOSE x \in {} : TRUE

RAdd(a, b) == Undef       RSub(a, b) == Undef
RMul(a, b) == Undef       RDiv(a, b) == Undef
RNeg(a) == Undef          RAbs(a) == Undef
RLt(a, b) == Undef        RLe(a, b) == Undef       REq(a, b) == Undef
RMin(a, b) == Undef       RMax(a, b) == Undef
RSgn(a) == Undef          \* integer -1, 0, 1
RIsNum(a) == Undef        \* a finite number
RCanon(a) == Undef
RFloor(a) == Undef        RCeil(a) == Undef        \* TLA+ integers
RPow(a, k) == Undef       \* k an integer
RRound(a, bits) == Undef  \* nearest multiple of 2^-bits
RSqrt(a) == Undef         \* exact for rational squares, else to 2^-100
RSin(a) == Undef   RCos(a) == Undef   RTan(a) == Undef  RAcos(a) == Undef
RAtan2(a, b) == Undef   RExp(a) == Undef   RLn(a) == Undef  RPowR(a, b) == Undef

a (+) b == RAdd(a, b)
a (-) b == RSub(a, b)
a (.) b == RMul(a, b)
a (/) b == RDiv(a, b)
a \prec b == RLt(a, b)
a \preceq b == RLe(a, b)
a \succ b == RLt(b, a)
a \succeq b == RLe(b, a)
a \doteq b == REq(a, b)

PI == "3.14159265358979323846264338327950288"
\* |a - b| <= tol, or both the same infinity
Near(a, b, tol) == (a \doteq b) \/ (RAbs(a (-) b) \preceq tol)
\* tolerance relative to the larger of 1 and the expected value b
NearRel(a, b, tol) == (a \doteq b) \/ (RAbs(a (-) b) \preceq (tol (.) RMax(1, RAbs(b))))

RECURSIVE RSumTo(_, _)
RSumTo(s, k) == IF k = 0 THEN "0" ELSE RSumTo(s, k - 1) (+) s[k]
RSum(s) == RSumTo(s, Len(s))
=============================================================================
