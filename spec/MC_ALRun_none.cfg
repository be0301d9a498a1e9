CONSTANTS
  NF = 2
  NU = 4
  Q = 0
  CRASHES = 3
  SHARED = FALSE
  FORGET = FALSE
  SCHED = FALSE
SPECIFICATION Spec
INVARIANT OwnPrefix FinalExact 
PROPERTY Ends
CHECK_DEADLOCK FALSE
