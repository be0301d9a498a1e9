CONSTANTS
  NF = 2
  NU = 3
  Q = 2
  CRASHES = 0
  SHARED = FALSE
  FORGET = FALSE
  SCHED = TRUE
SPECIFICATION Spec
INVARIANT OwnPrefix FinalExact Emit
CHECK_DEADLOCK FALSE
