CONSTANTS
  Ls <- MCLs
  Ns <- MCNs
  Lams <- MCLams
  Spins <- MCSpins
SPECIFICATION Spec
INVARIANTS NeverExceeds Reconstructs Conserves BandsHold OrientationsHold
CHECK_DEADLOCK FALSE
