------------------------------ MODULE MCOverlap ------------------------------
EXTENDS Overlap
MCCfgs == {"a"}
MCSigs == {"1", "2"}
MCBackends == {"base", "c"}
MCMaxLen == 4
MCThreads == {1, 2}
Symm == Permutations(Threads)
=============================================================================
