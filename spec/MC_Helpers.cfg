CONSTANTS
  N = 4
  V = 3
SPECIFICATION Spec
INVARIANT Laws
CHECK_DEADLOCK FALSE
