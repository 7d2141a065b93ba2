SPECIFICATION Spec
INVARIANTS Unity Support Scaling Directions Binomials MonotoneK Refines
CHECK_DEADLOCK FALSE
