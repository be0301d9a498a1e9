CONSTANTS
  N = 5
  V = 3
SPECIFICATION Spec
INVARIANT Laws
CHECK_DEADLOCK FALSE
