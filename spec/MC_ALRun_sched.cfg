CONSTANTS
  NF = 2
  NU = 2
  Q = 1
  CRASHES = 1
  SHARED = FALSE
  FORGET = FALSE
  SCHED = TRUE
SPECIFICATION Spec
INVARIANT OwnPrefix FinalExact Emit
CHECK_DEADLOCK FALSE
