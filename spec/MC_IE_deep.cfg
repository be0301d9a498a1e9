CONSTANTS
  N = 3
  D = 4
  E = {60, 90}
SPECIFICATION Spec
INVARIANT SomeoneIsAsked RecordsAreCounts BestAsked Equal SomeoneAgrees
CHECK_DEADLOCK FALSE
