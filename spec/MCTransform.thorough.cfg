CONSTANTS
  Ls <- DeepLs
  Ns <- DeepNs
  Lams <- DeepLams
  Spins <- DeepSpins
SPECIFICATION Spec
INVARIANTS NeverExceeds Reconstructs Conserves BandsHold OrientationsHold
CHECK_DEADLOCK FALSE
