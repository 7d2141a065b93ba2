CONSTANTS
  LS <- MCLS
  NS <- MCNS
  MaxWord = 4
SPECIFICATION Spec
INVARIANTS Covariant SynthesisCovariant Steerable RealStaysReal
CHECK_DEADLOCK FALSE
