CONSTANTS
  U = {1, 2, 3}
  MAXQ = 3
SPECIFICATION Spec
VIEW View
INVARIANT Conserved Monotone RecoverIsReplay Accounted
CHECK_DEADLOCK FALSE
