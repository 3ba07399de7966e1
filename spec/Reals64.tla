------------------------------- MODULE Reals64 -------------------------------
(***************************************************************************)
(* IEEE-754 binary64 numbers for TLC.                                      *)
(*                                                                         *)
(* TLC only knows 32-bit integers, so a double is the pair <<hi, lo>> of   *)
(* the two signed 32-bit halves of its bit pattern; this is also how the   *)
(* harnesses write every floating point number in a recorded trace, so     *)
(* nothing is lost or rounded on the way.  The operators below are given   *)
(* meaning by spec/java/Reals64.java (a TLC module override); they are the *)
(* only trusted primitives of the specification: +, -, *, /, comparisons   *)
(* and the elementary functions.  Every formula of FES is written in TLA+  *)
(* on top of them.                                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences

RLit(str) == CHOOSE x \in {} : TRUE    \* decimal literal
RInt(i) == CHOOSE x \in {} : TRUE      \* integer -> real
RAdd(a, b) == CHOOSE x \in {} : TRUE
RSub(a, b) == CHOOSE x \in {} : TRUE
RMul(a, b) == CHOOSE x \in {} : TRUE
RDiv(a, b) == CHOOSE x \in {} : TRUE
RNeg(a) == CHOOSE x \in {} : TRUE
RAbs(a) == CHOOSE x \in {} : TRUE
RSqrt(a) == CHOOSE x \in {} : TRUE
RSin(a) == CHOOSE x \in {} : TRUE
RCos(a) == CHOOSE x \in {} : TRUE
RTan(a) == CHOOSE x \in {} : TRUE
RAcos(a) == CHOOSE x \in {} : TRUE
RAtan(a) == CHOOSE x \in {} : TRUE
RAtan2(a, b) == CHOOSE x \in {} : TRUE
RPow(a, b) == CHOOSE x \in {} : TRUE
RFloor(a) == CHOOSE x \in {} : TRUE    \* real -> real
RLt(a, b) == CHOOSE x \in {} : TRUE
RLe(a, b) == CHOOSE x \in {} : TRUE
REq(a, b) == CHOOSE x \in {} : TRUE    \* numeric equality (NaN # NaN)
RIsNaN(a) == CHOOSE x \in {} : TRUE
RIsFinite(a) == CHOOSE x \in {} : TRUE
RToInt(a) == CHOOSE x \in {} : TRUE    \* truncation, for |a| < 2^31
RFMod(a, b) == CHOOSE x \in {} : TRUE  \* C fmod
RClose(a, b, tol) == CHOOSE x \in {} : TRUE  \* |a-b| <= tol
RSumProd(a, b) == CHOOSE x \in {} : TRUE  \* sum of a[i]*b[i]
RShow(a) == CHOOSE x \in {} : TRUE     \* for error reports only

a \oplus b == RAdd(a, b)
a \ominus b == RSub(a, b)
a \otimes b == RMul(a, b)
a \oslash b == RDiv(a, b)
a \prec b == RLt(a, b)
a \preceq b == RLe(a, b)
a \succ b == RLt(b, a)
a \succeq b == RLe(b, a)

Zero == RInt(0)
One == RInt(1)
Two == RInt(2)
Half == RLit("0.5")
Pi == RLit("3.14159265358979323846")
TwoPi == Two \otimes Pi
HalfPi == Pi \otimes Half
NaN == RLit("NaN")
Inf == RLit("Infinity")
Rad(x) == (x \otimes Pi) \oslash RInt(180)
Deg(x) == (x \otimes RInt(180)) \oslash Pi
Sq(x) == x \otimes x
Cube(x) == x \otimes x \otimes x
RMin(a, b) == IF a \prec b THEN a ELSE b
RMax(a, b) == IF a \prec b THEN b ELSE a

\* x modulo m in [0, m)
RMod(x, m) == LET y == RFMod(x, m) IN IF y \prec Zero THEN y \oplus m ELSE y
\* Distance of x and y on the circle of perimeter m
RCircDist(x, y, m) == LET d == RMod(x \ominus y, m) IN RMin(d, m \ominus d)
RCloseMod(x, y, m, tol) ==
  /\ RIsFinite(x) /\ RIsFinite(y)
  /\ RCircDist(x, y, m) \preceq tol
\* |a-b| <= tol * max(1, |a|), two NaN being the same
RNear(a, b, tol) ==
  \/ RIsNaN(a) /\ RIsNaN(b)
  \/ RClose(a, b, tol \otimes RMax(One, RAbs(a)))
\* bit for bit, all NaN being the same
RSame(a, b) == a = b \/ (RIsNaN(a) /\ RIsNaN(b))

RECURSIVE RSumUpTo(_, _)
RSumUpTo(s, n) == IF n = 0 THEN Zero ELSE RSumUpTo(s, n - 1) \oplus s[n]
RSum(s) == RSumUpTo(s, Len(s))

\* Complex numbers: <<re, im>>
CAdd(a, b) == <<a[1] \oplus b[1], a[2] \oplus b[2]>>
CSub(a, b) == <<a[1] \ominus b[1], a[2] \ominus b[2]>>
CScale(k, a) == <<k \otimes a[1], k \otimes a[2]>>
CZero == <<Zero, Zero>>
CNear(a, b, tol) == RNear(a[1], b[1], tol) /\ RNear(a[2], b[2], tol)
CSame(a, b) == RSame(a[1], b[1]) /\ RSame(a[2], b[2])
CIsNaN(a) == RIsNaN(a[1]) \/ RIsNaN(a[2])
=============================================================================
