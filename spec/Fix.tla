-------------------------------- MODULE Fix --------------------------------
(***************************************************************************)
(* Decimal fixed-point arithmetic on TLC's 32-bit integers.                *)
(* A real x is represented by the integer nearest to x * 10^8; |x| < 21.   *)
(* Products are formed from 4-digit halves so that no intermediate value   *)
(* leaves the 32-bit range as long as the result is below 21 in magnitude. *)
(***************************************************************************)
EXTENDS Integers, Sequences

FOne   == 100000000
FBase  == 10000
FPi    == 314159265
FHalfPi== 157079633
FTwoPi == 628318531

FMul(a, b) ==
  LET a1 == a \div FBase  a0 == a % FBase
      b1 == b \div FBase  b0 == b % FBase
  IN  a1*b1 + (a1*b0) \div FBase + (a0*b1) \div FBase + (a0*b0) \div FOne

FSq(a) == FMul(a, a)
FAbs(a) == IF a < 0 THEN -a ELSE a
FMax(a, b) == IF a > b THEN a ELSE b
FMin(a, b) == IF a < b THEN a ELSE b

\* sine on [0, pi/2] by its Taylor series (truncation error below 1e-9)
FSinQ(x) ==
  LET z == FMul(x, x)
      t6 == FOne - z \div 156
      t5 == FOne - FMul(z \div 110, t6)
      t4 == FOne - FMul(z \div 72, t5)
      t3 == FOne - FMul(z \div 42, t4)
      t2 == FOne - FMul(z \div 20, t3)
      t1 == FOne - FMul(z \div 6, t2)
  IN  FMul(x, t1)

FSin(x) ==
  LET r == x % FTwoPi IN
  IF r <= FHalfPi THEN FSinQ(r)
  ELSE IF r <= FPi THEN FSinQ(FPi - r)
  ELSE IF r <= FPi + FHalfPi THEN -FSinQ(r - FPi)
  ELSE -FSinQ(FTwoPi - r)

FCos(x) == FSin(x + FHalfPi)

\* distance of an angle from the nearest whole number of turns
FWrapDist(x) == LET r == x % FTwoPi IN FMin(r, FTwoPi - r)
\* signed representative in (-pi, pi]
FWrap(x) == LET r == x % FTwoPi IN IF r > FPi THEN r - FTwoPi ELSE r

FNear(a, b, tol) == FAbs(a - b) <= tol
FNearSeq(a, b, tol) == /\ Len(a) = Len(b)
                       /\ \A i \in 1..Len(a) : FNear(a[i], b[i], tol)
FBounded(a, m) == \A i \in 1..Len(a) : FAbs(a[i]) <= m
=============================================================================
