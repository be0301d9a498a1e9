CONSTANTS
  N = 5
  C = 2
SPECIFICATION Spec
INVARIANT Machine Laws
CHECK_DEADLOCK FALSE
