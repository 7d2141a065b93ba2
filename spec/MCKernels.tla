------------------------------ MODULE MCKernels ------------------------------
(* Exhaustive check of the facts of Kernels.tla over a finite grid.         *)
EXTENDS Kernels, TLC
VARIABLES L, lam, kt
MCLams == { <<2,1>>, <<3,1>>, <<3,2>>, <<5,2>>, <<7,2>> }
DeepLams == { <<2,1>>, <<3,1>>, <<5,2>>, <<7,2>>, <<4,1>>, <<5,1>> }
MCBands == {2, 3, 4, 5, 6, 8, 9, 12, 16}
DeepBands == 2..40
Init == L \in MCBands /\ lam \in MCLams /\ JMax(L, lam) >= 1 /\ kt = << >>
Next == kt = << >> /\ kt' = KTable(L, lam) /\ UNCHANGED << L, lam >>
Spec == Init /\ [][Next]_<< L, lam, kt >>
Ready == kt # << >>
J0s == 0..(JMax(L, lam) - 1)
Unity == Ready => \A j0 \in J0s : PartitionOfUnity(L, j0, lam, kt)
Support == Ready => \A j0 \in J0s : CompactSupport(L, j0, lam, kt)
Scaling == Ready => \A j0 \in J0s : ScalingInBand(L, j0, lam, kt)
Directions == Ready => \A N \in 1..IMin(L, 9) :
  /\ DirFitsStorage(L, N, lam)
  /\ \A l \in 1..(L - 1) : DirUnity(N, l) /\ DirSymmetric(N, l)
Binomials == \A g \in 0..28 : DirExact(g)
MonotoneK == Ready => \A j \in 0..(JMax(L, lam)) : \A l \in 0..(L - 1) : kt[j][l] <= kt[j + 1][l]
\* successive J0: the scaling energy of J0+1 is that of J0 plus scale J0 (refinement)
Refines == Ready => \A j0 \in J0s : (j0 + 1) \in J0s =>
  \A l \in 0..(L - 1) : Phi2(kt, j0 + 1, l) = Phi2(kt, j0, l) + Kappa2(kt, j0, j0, l)
=============================================================================
