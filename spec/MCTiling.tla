------------------------------ MODULE MCTiling -------------------------------
(* Exhaustive check of the facts of Tiling.tla over a finite grid.          *)
EXTENDS Tiling, TLC
VARIABLES L, lam, go
MCLams == { <<2,1>>, <<3,1>>, <<3,2>>, <<5,2>>, <<5,1>>, <<7,2>>, <<4,1>>, <<9,2>> }
MCNs == {1, 2, 3, 4, 5, 8, 9}
MaxL == 48
\* a thorough run replaces these through MCTiling.thorough.cfg
DeepMaxL == 160
DeepLams == { <<2,1>>, <<3,1>>, <<3,2>>, <<5,2>>, <<5,1>>, <<7,2>>, <<4,1>>, <<9,2>>, <<5,4>>, <<4,3>>, <<8,3>>, <<6,1>>, <<7,1>>, <<10,3>> }
DeepNs == {1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16}
Init == lam \in MCLams /\ L \in 2..IMin(MaxL, IF lam = <<5,4>> THEN 8 ELSE IF lam = <<4,3>> THEN 14 ELSE IF lam = <<10,3>> THEN 60 ELSE IF lam = <<8,3>> THEN 60 ELSE IF lam[2] = 2 /\ lam[1] > 5 THEN 60 ELSE 1000) /\ go = FALSE
Next == ~ go /\ go' = TRUE /\ UNCHANGED << L, lam >>     \* spreads the work over the workers
Spec == Init /\ [][Next]_<< L, lam, go >>
Covers == go => BandCovers(L, lam)
Monotone == go => MonotoneBands(L, lam)
Full == go => TopIsFull(L, lam)
Least == go => LeastJ(L, lam)
Parity == go => \A N \in MCNs : N <= L => ParityKept(L, N, lam)
LowerInside == go => \A j \in 0..JMax(L, lam) : WavL0(L, lam, j, TRUE) < WavL(L, lam, j, TRUE)
ScalingNested == go => \A j \in 0..(JMax(L, lam) - 1) : ScalL(L, j, lam, TRUE) <= WavL(L, lam, j, TRUE)
\* the two highest scales share a kernel: same stored geometry
KernelShared == go => \A N \in MCNs : \A j0 \in 0..(JMax(L, lam) - 1) :
  LET J == JMax(L, lam) IN
  /\ KernelIndex(L, j0, lam, J) = NumKernels(L, j0, lam) - 1
  /\ \A a, b \in j0..J : KernelIndex(L, j0, lam, a) = KernelIndex(L, j0, lam, b) =>
        (WavL(L, lam, a, TRUE) = WavL(L, lam, b, TRUE) /\ WavN(L, N, lam, a, TRUE) = WavN(L, N, lam, b, TRUE))
ShapesPositive == go => \A N \in MCNs : \A s \in Samplings : \A j \in 0..JMax(L, lam) :
  \A d \in 1..3 : WavShape(L, N, lam, j, s, NONE, TRUE)[d] >= 1
=============================================================================
