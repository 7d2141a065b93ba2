CONSTANTS
  Cfgs <- MCCfgs
  Sigs <- MCSigs
  Backends <- MCBackends
  MaxLen <- MCMaxLen
  Threads <- MCThreads
SPECIFICATION OSpec
INVARIANTS Sequential Legal
PROPERTIES Silent
CHECK_DEADLOCK FALSE
