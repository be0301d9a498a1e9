CONSTANTS
  NF = 3
  NU = 3
  Q = 2
  CRASHES = 2
  SHARED = FALSE
  FORGET = FALSE
  SCHED = FALSE
SPECIFICATION Spec
INVARIANT OwnPrefix FinalExact 
PROPERTY Ends
CHECK_DEADLOCK FALSE
