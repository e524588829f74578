------------------------------- MODULE Fixed -------------------------------
(***************************************************************************)
(* Fixed-point reals for TLC.                                              *)
(*                                                                         *)
(* TLC integers have 32 bits.  A real x is the integer round(x * 10^8), so *)
(* |x| < 21.4 can be stored.  Products are computed on two limbs of four   *)
(* decimal digits, so that no intermediate leaves 32 bits as long as the   *)
(* product itself stays below 20 in magnitude.  Each operation is exact up *)
(* to about one unit in the eighth decimal place.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, SequencesExt

S    == 100000000          \* the number one
HALF == 50000000
PI   == 314159265
TWOPI == 628318531
B    == 10000              \* limb base, B * B = S

Abs(a) == IF a < 0 THEN -a ELSE a
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b

\* x * y for fixed-point x, y  (\div is floor, % is non-negative, so this is
\* right for negative numbers too).
Mul(a, b) ==
  LET a1 == a \div B   a0 == a % B
      b1 == b \div B   b0 == b % B
  IN  a1 * b1 + (a1 * b0 + a0 * b1 + (a0 * b0) \div B + 5000) \div B

\* x * y where y is known to be small (|y| < 1) is the same operation.
Sq(a) == Mul(a, a)

\* round(a / k) for a small positive integer k
DivInt(a, k) == (2 * (a \div 2) + k \div 2) \div k

\* Is |a - b| <= tol, all in fixed point?  Written without the subtraction
\* that could overflow.
Close(a, b, tol) == /\ a \div 2 - b \div 2 <= tol \div 2 + 2
                    /\ b \div 2 - a \div 2 <= tol \div 2 + 2

Sum(seq) == FoldLeft(LAMBDA a, b : a + b, 0, seq)

(***************************************************************************)
(* Trigonometry: range reduction to [-pi, pi], halving twice, Taylor, and  *)
(* the double-angle formulas back.                                         *)
(***************************************************************************)
Wrap(x) == LET y == x % TWOPI IN IF y > PI THEN y - TWOPI ELSE y

\* Taylor for |x| <= pi/4
SinSmall(x) ==
  LET x2 == Mul(x, x)
      h(k, acc) == S - DivInt(Mul(x2, acc), k)
      t9 == h(72, S)   t7 == h(42, t9)  t5 == h(20, t7)  t3 == h(6, t5)
  IN  Mul(x, t3)
CosSmall(x) ==
  LET x2 == Mul(x, x)
      h(k, acc) == S - DivInt(Mul(x2, acc), k)
      t8 == h(90, S)  t6 == h(56, t8)  t4 == h(30, t6) t2 == h(12, t4) t0 == h(2, t2)
  IN  t0

CosSin(x) ==   \* <<cos x, sin x>>
  LET y  == Wrap(x) \div 4
      s1 == SinSmall(y)  c1 == CosSmall(y)
      s2 == 2 * Mul(s1, c1)   c2 == S - 2 * Mul(s1, s1)
      s3 == 2 * Mul(s2, c2)   c3 == S - 2 * Mul(s2, s2)
  IN  <<c3, s3>>
Cos(x) == CosSin(x)[1]
Sin(x) == CosSin(x)[2]
=============================================================================
