CONSTANTS
  V <- VV
  C <- CC
  B = 5
SPECIFICATION Spec
INVARIANT Archive OnlyFeasible
PROPERTY BestSoFar Attains
CHECK_DEADLOCK FALSE
