CONSTANTS
  NF = 2
  NU = 2
  Q = 1
  CRASHES = 0
  SHARED = TRUE
  FORGET = FALSE
  SCHED = FALSE
SPECIFICATION Spec
INVARIANT OwnPrefix FinalExact 
PROPERTY Ends
CHECK_DEADLOCK FALSE
