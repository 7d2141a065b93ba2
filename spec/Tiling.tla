-------------------------------- MODULE Tiling -------------------------------
(***************************************************************************)
(* Exact index algebra of the scale-discretised tiling of harmonic space.  *)
(*                                                                         *)
(* The scale factor lambda > 1 is the exact rational lam = <<p, q>>; a     *)
(* configuration fixes the band-limit L, the azimuthal band-limit N, the   *)
(* lowest wavelet scale J0 and lam.  Everything a caller may ask about the *)
(* sizes of the objects of a transform follows from the definitions below. *)
(***************************************************************************)
EXTENDS Fixed, FiniteSets

NONE == -1                                  \* "no HEALPix nside"

\* l >= lam^j,  l > lam^j  and ceil(lam^j), for any integer j >= 0
GeqPow(l, lam, j) == l * IPow(lam[2], j) >= IPow(lam[1], j)
GtPow(l, lam, j)  == l * IPow(lam[2], j) >  IPow(lam[1], j)
CeilPow(lam, j)   == (IPow(lam[1], j) + IPow(lam[2], j) - 1) \div IPow(lam[2], j)

\* Highest scale: least J with lam^J >= L.  lam^J is compared incrementally
\* so that the numbers stay as small as the answer allows.
RECURSIVE JFrom(_, _, _)
JFrom(L, lam, j) == IF ~ GtPow(L, lam, j) THEN j ELSE JFrom(L, lam, j + 1)
JMax(L, lam) == JFrom(L, lam, 0)

Scales(L, J0, lam) == J0..JMax(L, lam)
NumScales(L, J0, lam) == JMax(L, lam) - J0 + 1

\* Scales 0 and 1 are stored alike (both reach lam^2 at most).
Eff(j) == IF j = 0 THEN 1 ELSE j

\* ceil(lam^(j+1)) may exceed what is needed: it is only compared with L.
CappedCeilPow(L, lam, j) ==
  IF j > JMax(L, lam) THEN L ELSE IMin(CeilPow(lam, j), L)

WavL(L, lam, j, mr)  == IF mr THEN CappedCeilPow(L, lam, Eff(j) + 1) ELSE L
ScalL(L, J0, lam, mr) == IF mr THEN CappedCeilPow(L, lam, J0) ELSE L
L0(lam, j)           == IF j = 0 THEN 0 ELSE CeilPow(lam, j - 1)   \* least degree of scale j
\* the least degree a scale may hold: itself a stored degree (< WavL)
WavL0(L, lam, j, mr) == IF mr THEN IMin(L0(lam, Eff(j)), WavL(L, lam, j, mr) - 1) ELSE 0
WavN(L, N, lam, j, mr) ==
  IF ~mr THEN N
  ELSE LET Lj == WavL(L, lam, j, TRUE)
           Nj == IMin(N, Lj)
       IN Nj + ((Nj + N) % 2)                \* keeps the parity of N

Samplings == {"mw", "mwss", "dh", "gl"}      \* sampling theorems: exact
AllSamplings == Samplings \cup {"healpix"}

S2Shape(L, smp, nside) ==
  CASE smp = "mw"      -> << L, 2 * L - 1 >>
    [] smp = "mwss"    -> << L + 1, 2 * L >>
    [] smp = "dh"      -> << 2 * L, 2 * L - 1 >>
    [] smp = "gl"      -> << L, 2 * L - 1 >>
    [] smp = "healpix" -> << 12 * nside * nside >>
SO3Shape(L, N, smp, nside) == << 2 * N - 1 >> \o S2Shape(L, smp, nside)

ScalShape(L, J0, lam, smp, nside, mr) == S2Shape(ScalL(L, J0, lam, mr), smp, nside)
WavShape(L, N, lam, j, smp, nside, mr) ==
  SO3Shape(WavL(L, lam, j, mr), WavN(L, N, lam, j, mr), smp, nside)
FlmShape(L) == << L, 2 * L - 1 >>
FlmnShape(L, N, lam, j, mr) ==
  LET Lj == WavL(L, lam, j, mr) IN << 2 * WavN(L, N, lam, j, mr) - 1, Lj, 2 * Lj - 1 >>

\* Precomputed Wigner kernels: the two highest scales share one kernel.
KernelIndex(L, J0, lam, j) == IF j < JMax(L, lam) THEN j - J0 ELSE j - J0 - 1
NumKernels(L, J0, lam) == JMax(L, lam) - J0

ValidJ0(L, J0, lam) == 0 <= J0 /\ J0 < JMax(L, lam)
Valid(L, N, J0, lam, spin) ==
  L >= 2 /\ N >= 1 /\ N <= L /\ ValidJ0(L, J0, lam) /\ Abs(spin) < L

(***************************************************************************)
(* Facts about the algebra itself, model-checked by MCTiling.              *)
(***************************************************************************)
\* Every degree below L is inside the stored band of each scale supporting it.
BandCovers(L, lam) ==
  \A j \in 0..JMax(L, lam) : \A l \in 0..(L - 1) :
    \* open support of scale j: lam^(j-1) < l < lam^(j+1)
    LET above == IF j = 0 THEN l > 0 ELSE GtPow(l, lam, j - 1)
        below == ~ GeqPow(l, lam, j + 1)
    IN (above /\ below) => /\ j = 0 \/ WavL0(L, lam, j, TRUE) <= l
                           /\ l < WavL(L, lam, j, TRUE)
MonotoneBands(L, lam) ==
  \A j \in 0..(JMax(L, lam) - 1) : WavL(L, lam, j, TRUE) <= WavL(L, lam, j + 1, TRUE)
TopIsFull(L, lam) == JMax(L, lam) >= 1 =>
  /\ WavL(L, lam, JMax(L, lam), TRUE) = L
  /\ WavL(L, lam, JMax(L, lam) - 1, TRUE) = L
LeastJ(L, lam) == LET J == JMax(L, lam) IN
  /\ ~ GtPow(L, lam, J)
  /\ J > 0 => GtPow(L, lam, J - 1)
ParityKept(L, N, lam) == \A j \in 0..JMax(L, lam) :
  LET Nj == WavN(L, N, lam, j, TRUE)
  IN (Nj - N) % 2 = 0 /\ Nj <= N /\ (Nj < N => Nj >= WavL(L, lam, j, TRUE))
=============================================================================
