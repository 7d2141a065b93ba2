-------------------------------- MODULE Fixed --------------------------------
(***************************************************************************)
(* Fixed-point arithmetic on TLC's 32-bit integers.                        *)
(*                                                                         *)
(* A real x >= 0 is represented by the integer floor(x * 2^28).  Every     *)
(* operator stays inside 32 bits for the operand ranges stated; TLC        *)
(* reports an error on overflow, so a misuse cannot pass silently.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

H   == 16384              \* 2^14
ONE == 268435456          \* 2^28

Abs(x) == IF x < 0 THEN -x ELSE x
IMin(a, b) == IF a < b THEN a ELSE b
IMax(a, b) == IF a > b THEN a ELSE b

\* a * b for 0 <= a, b < 2.0 (2^29)
Mul(a, b) ==
  LET ah == a \div H   al == a % H
      bh == b \div H   bl == b % H
  IN ah * bh + (ah * bl + al * bh + ((al * bl) \div H)) \div H

Upto(n) == [i \in 1..n |-> i]
U4  == << 1, 2, 3, 4 >>
U28 == Upto(28)

\* 2^28 * r / b for 0 <= r < b < 2^30, one bit per step
DivBits(r, b) ==
  FoldLeft(LAMBDA a, i : IF 2 * a[1] >= b THEN << 2 * a[1] - b, 2 * a[2] + 1 >>
                                          ELSE << 2 * a[1], 2 * a[2] >>,
           << r, 0 >>, U28)[2]

\* 2^28 * r / b for 0 <= r < b < 2^24, seven bits per step
DivChunk(r, b) ==
  FoldLeft(LAMBDA a, i : << (a[1] * 128) % b, a[2] * 128 + ((a[1] * 128) \div b) >>,
           << r, 0 >>, U4)[2]

FracDiv(r, b) == IF b < 16777216 THEN DivChunk(r, b) ELSE DivBits(r, b)

\* a / b for integers (or equally scaled fixed-point numbers), result < 8.0
Ratio(a, b) == (a \div b) * ONE + FracDiv(a % b, b)
Div(a, b) == Ratio(a, b)

\* exp(-r) for 0 <= r < 1
HornerSteps == << 12, 11, 10, 9, 8, 7, 6, 5, 4, 3, 2, 1 >>
ExpNegFrac(r) == FoldLeft(LAMBDA acc, k : ONE - (Mul(r, acc) \div k), ONE, HornerSteps)

EM1 == 98751886           \* 2^28 * exp(-1)
RECURSIVE PowEM1(_)
PowEM1(n) == IF n = 0 THEN ONE ELSE Mul(PowEM1(n - 1), EM1)
ExpNegInt == [n \in 0..24 |-> PowEM1(n)]

\* exp(-1/y) for 0 <= y <= 1.0
ExpNegRecip(y) ==
  IF y <= ONE \div 24 THEN 0
  ELSE LET n == ONE \div y
           r == FracDiv(ONE % y, y)
       IN Mul(ExpNegInt[n], ExpNegFrac(r))

RECURSIVE IPow(_, _)
IPow(b, n) == IF n = 0 THEN 1 ELSE b * IPow(b, n - 1)
=============================================================================
