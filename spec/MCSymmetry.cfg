CONSTANTS
  LS <- MCLS
  NS <- MCNS
  MaxWord = 2
SPECIFICATION Spec
INVARIANTS Covariant SynthesisCovariant Steerable RealStaysReal
CHECK_DEADLOCK FALSE
