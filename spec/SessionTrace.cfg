CONSTANTS
  Cfgs <- MCCfgs
  Sigs <- MCSigs
  Backends <- MCBackends
  MaxLen <- MCMaxLen
SPECIFICATION TraceSpec
POSTCONDITION Complete
CHECK_DEADLOCK FALSE
