CONSTANTS
  N = 3
  D = 4
  BACKS = 2
SPECIFICATION Spec
INVARIANT Collections Partition Repository Money Disk NothingTwice Exhausted Again Emit
CHECK_DEADLOCK FALSE
