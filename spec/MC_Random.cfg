CONSTANTS
  N = 4
  C = 2
SPECIFICATION Spec
INVARIANT Machine Laws
CHECK_DEADLOCK FALSE
