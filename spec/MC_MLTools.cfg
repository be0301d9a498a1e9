CONSTANTS
  N = 2
  K = 2
  MAXL = 3
SPECIFICATION Spec
INVARIANT FlattenExact IntegrateExact IntegrateStable MatrixExact
CHECK_DEADLOCK FALSE
