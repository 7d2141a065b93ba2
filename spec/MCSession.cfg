CONSTANTS
  Cfgs <- MCCfgs
  Sigs <- MCSigs
  Backends <- MCBackends
  MaxLen <- MCMaxLen
SPECIFICATION Spec
INVARIANTS Deterministic RecIsSignal
PROPERTIES Frame
VIEW View
CHECK_DEADLOCK FALSE
