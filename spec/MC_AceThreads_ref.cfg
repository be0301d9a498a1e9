CONSTANTS
  N = 4
  M = 2
  Q = 2
  MaxCrash = 0
  MarkLate = FALSE
SPECIFICATION TSpec
INVARIANT WithinLimit OncePerRun ReturnsAfterAll
PROPERTY Refines
CHECK_DEADLOCK FALSE
