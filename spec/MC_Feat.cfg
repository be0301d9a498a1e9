CONSTANTS
  N = 2
  F = 2
  D = 3
SPECIFICATION Spec
VIEW View
INVARIANT Indistinguishable Emit
PROPERTY Shrinks
CHECK_DEADLOCK FALSE
