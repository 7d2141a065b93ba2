------------------------------- MODULE Kernels -------------------------------
(***************************************************************************)
(* Harmonic-space kernels of the directional scale-discretised wavelets.   *)
(*                                                                         *)
(*   |Psi^j_{ln}|^2 (8 pi^2/(2l+1)) = Kappa2(j,l) * DirW(N,l,n)            *)
(*   |Phi_l|^2      (4 pi  /(2l+1)) = Phi2(J0,l)                           *)
(*                                                                         *)
(* with Kappa2 = k_{j+1} - k_j, Phi2 = k_{J0}, and phase nu = 1 (N odd) or *)
(* i (N even) on every directional component.  Values are 2^28 fixed       *)
(* point.  A table kt == KTable(L, lam) is passed in so that it is         *)
(* evaluated once.                                                         *)
(***************************************************************************)
EXTENDS Generator

Kappa2(kt, J0, j, l) == IF j < J0 THEN 0 ELSE IMax(0, kt[j + 1][l] - kt[j][l])
Phi2(kt, J0, l)      == kt[J0][l]

\* Directionality: a polynomial of degree gamma in the azimuthal angle.
Gamma(N, l) == IF (N + l) % 2 = 1 THEN IMin(N - 1, l) ELSE IMin(N - 1, l - 1)
\* row g of the binomial distribution binom(g,k)/2^g, k = 0..g
BinomRow(g) ==
  FoldLeft(LAMBDA row, i :
             [k \in 1..(Len(row) + 1) |->
                IF k = 1 \/ k = Len(row) + 1
                THEN (IF k = 1 THEN row[1] ELSE row[Len(row)]) \div 2
                ELSE (row[k - 1] + row[k]) \div 2],
           << ONE >>, Upto(g))
\* exact integer binomials (used below g = 28, exact in 32 bits)
BinomInt(g) ==
  FoldLeft(LAMBDA row, i :
             [k \in 1..(Len(row) + 1) |->
                IF k = 1 \/ k = Len(row) + 1 THEN 1 ELSE row[k - 1] + row[k]],
           << 1 >>, Upto(g))

DirAllowed(N, l, n) ==
  /\ l >= 1
  /\ Abs(n) < N /\ Abs(n) <= l
  /\ (N + n) % 2 = 1
  /\ Abs(n) <= Gamma(N, l)
DirW(N, l, n) ==
  IF ~ DirAllowed(N, l, n) THEN 0
  ELSE LET g == Gamma(N, l) IN BinomRow(g)[((g - n) \div 2) + 1]

\* table of rows indexed by gamma, evaluated once per configuration
DirTable(N) == TLCEval([g \in 0..(N - 1) |-> TLCEval(BinomRow(g))])
DirWT(dt, N, l, n) ==
  IF ~ DirAllowed(N, l, n) THEN 0
  ELSE LET g == Gamma(N, l) IN dt[g][((g - n) \div 2) + 1]

\* phase of the directional component: real for odd N, imaginary for even N
PhaseReal(N) == N % 2 = 1

ElMin(spin, spin0) == IMax(Abs(spin), Abs(spin0))

(***************************************************************************)
(* Facts, model-checked by MCKernels.                                      *)
(***************************************************************************)
RECURSIVE SumOver(_, _, _)
SumOver(f, a, b) == IF a > b THEN 0 ELSE f[a] + SumOver(f, a + 1, b)

PartitionOfUnity(L, J0, lam, kt) ==
  LET J == JMax(L, lam) IN
  \A l \in 0..(L - 1) :
     Phi2(kt, J0, l) + SumOver([j \in J0..J |-> Kappa2(kt, J0, j, l)], J0, J) = ONE

CompactSupport(L, J0, lam, kt) ==
  LET J == JMax(L, lam) IN
  \A j \in J0..J : \A l \in 0..(L - 1) :
     Kappa2(kt, J0, j, l) # 0 =>
        /\ (j = 0 => l >= 1) /\ (j > 0 => GtPow(l, lam, j - 1))
        /\ ~ GeqPow(l, lam, j + 1)
        /\ l < WavL(L, lam, j, TRUE)
        /\ (j > 0 => l >= WavL0(L, lam, j, TRUE))
ScalingInBand(L, J0, lam, kt) ==
  \A l \in 0..(L - 1) : Phi2(kt, J0, l) # 0 => l < ScalL(L, J0, lam, TRUE)

\* the truncated table row sums to one up to one unit per entry and level
DirUnity(N, l) ==
  l >= 1 => LET s == SumOver([n \in (-l)..l |-> DirW(N, l, n)], -l, l)
            IN s <= ONE /\ ONE - s <= (N + 1) * (N + 1)
DirExact(g) == LET r == BinomInt(g) IN SumOver(r, 1, g + 1) = IPow(2, g)
DirSymmetric(N, l) == \A n \in 0..l : DirW(N, l, n) = DirW(N, l, -n)
DirFitsStorage(L, N, lam) ==
  \A j \in 0..JMax(L, lam) : \A l \in 1..(WavL(L, lam, j, TRUE) - 1) : \A n \in 0..l :
     DirAllowed(N, l, n) => n < WavN(L, N, lam, j, TRUE)
=============================================================================
