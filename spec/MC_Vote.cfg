CONSTANTS
  L = 4
  K = 3
  W = 2
SPECIFICATION Spec
INVARIANT HasWinner Symmetric Monotone Absolute Uniform Emit
CHECK_DEADLOCK FALSE
