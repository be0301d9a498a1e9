CONSTANTS
  NF = 2
  NU = 3
  Q = 1
  CRASHES = 1
  SHARED = FALSE
  FORGET = TRUE
  SCHED = FALSE
SPECIFICATION Spec
INVARIANT OwnPrefix FinalExact 
PROPERTY Ends
CHECK_DEADLOCK FALSE
