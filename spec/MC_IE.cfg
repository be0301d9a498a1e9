CONSTANTS
  N = 3
  D = 3
  E = {30, 80, 100}
SPECIFICATION Spec
INVARIANT SomeoneIsAsked RecordsAreCounts BestAsked Equal SomeoneAgrees Emit
CHECK_DEADLOCK FALSE
