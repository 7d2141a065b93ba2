CONSTANTS
  MaxL <- DeepMaxL
  MCLams <- DeepLams
  MCNs <- DeepNs
SPECIFICATION Spec
INVARIANTS Covers Monotone Full Least Parity LowerInside ScalingNested KernelShared ShapesPositive
CHECK_DEADLOCK FALSE
