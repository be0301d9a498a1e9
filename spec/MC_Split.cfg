CONSTANTS
  MINN = 3
  MAXN = 5
SPECIFICATION Spec
INVARIANT DoneOK RefusedOK NotStuck
CHECK_DEADLOCK FALSE
