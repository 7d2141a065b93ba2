------------------------------ MODULE Generator ------------------------------
(***************************************************************************)
(* The generating function k_lambda of the tiling.                         *)
(*                                                                         *)
(*   k(t) = int_t^1 s^2(t')/t' dt' / int_{1/lam}^1 s^2(t')/t' dt'          *)
(*                                                                         *)
(* with s the Schwartz bump on [1/lam, 1].  In the affine coordinate       *)
(* u in [0,1] of that interval s^2 = exp(-1/(2u(1-u))) and t = (1 +        *)
(* u(lam-1))/lam, so all constants cancel in the ratio.  The integrals are *)
(* evaluated by Simpson's rule in the fixed point of Fixed.tla; the result *)
(* is accurate to about 1e-6.                                              *)
(***************************************************************************)
EXTENDS Tiling, TLC

NODES == 96

\* g(u) for u = U/2^28 in [0,1], lam = <<p,q>>
G(lam, U) ==
  LET y == 2 * Mul(U, ONE - U)
      \* v = 1 + u (lam - 1), kept at half scale: v/2 <= lam/2 < 4
      w == ((U \div 8) * (lam[1] - lam[2])) \div lam[2]      \* u(lam-1)/8
      v16 == ONE \div 16 + w \div 2                          \* v/16 * ONE
  IN Div(ExpNegRecip(y) \div 16, v16)

\* Simpson sum over [U0,1] as a two-word number hi*2^20+lo
Steps == [i \in 1..NODES |-> i - 1]            \* g vanishes at u = 1
SimpsonSum(lam, U0) ==
  LET span == ONE - U0
      a0 == span \div NODES
      a1 == span % NODES
  IN FoldLeft(LAMBDA acc, i :
       LET c == IF i = 0 THEN 1 ELSE IF i % 2 = 1 THEN 4 ELSE 2
           s == acc[2] + c * G(lam, U0 + a0 * i + ((a1 * i) \div NODES))
       IN << acc[1] + (s \div 1048576), s % 1048576 >>,
       << 0, 0 >>, Steps)
\* the sum divided by 2^7 (fits in 30 bits: the sum is below 2^36)
Simpson(lam, U0) == LET s == SimpsonSum(lam, U0)
                    IN s[1] * 8192 + s[2] \div 128

NormOf(lam) == Simpson(lam, 0)

\* u-coordinate of t = l / lam^j for lam^(j-1) <= l <= lam^j, j >= 1:
\*   u = (l/lam^(j-1) - 1) / (lam - 1)
UOf(lam, j, l) ==
  LET pj == IPow(lam[1], j - 1)
      qj == IPow(lam[2], j - 1)
      num == (l * qj - pj) * lam[2]
      den == pj * (lam[1] - lam[2])
  IN IF num >= den THEN ONE ELSE FracDiv(num, den)

\* k_j(l) = k(l / lam^j): 1 below lam^(j-1), 0 above lam^j, in between smooth
KVal(lam, norm, j, l) ==
  IF j = 0 THEN (IF l = 0 THEN ONE ELSE 0)
  ELSE IF ~ GtPow(l, lam, j - 1) THEN ONE
  ELSE IF GeqPow(l, lam, j) THEN 0
  ELSE LET U == UOf(lam, j, l)
       IN IMin(ONE, Div(Mul(Simpson(lam, U), ONE - U), norm))

\* Table of k for scales 0..J+1 (J+1 is identically 1 below L)
KTable(L, lam) ==
  LET n == TLCEval(NormOf(lam))
      J == JMax(L, lam)
  IN TLCEval([j \in 0..(J + 1) |-> TLCEval([l \in 0..(L - 1) |->
        IF j > J THEN ONE ELSE KVal(lam, n, j, l)])])
=============================================================================
