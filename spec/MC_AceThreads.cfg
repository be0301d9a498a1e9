CONSTANTS
  N = 3
  M = 2
  Q = 2
  MaxCrash = 2
  MarkLate = FALSE
SPECIFICATION TSpec
INVARIANT WithinLimit OncePerRun ReturnsAfterAll NoLoss Complete NotAgain
CHECK_DEADLOCK FALSE
