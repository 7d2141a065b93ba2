---- MODULE MCSymmetry ----
EXTENDS Symmetry
MCLS == {2, 3}
MCNS == {1, 2, 3}
====
