CONSTANTS
  N = 3
  M = 2
  Q = 1
  MaxCrash = 1
  MarkLate = FALSE
SPECIFICATION TSpec
PROPERTY Completes NoIdleSlot
CHECK_DEADLOCK FALSE
