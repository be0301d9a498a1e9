CONSTANTS
  N = 4
  D = 6
  BACKS = 1
SPECIFICATION Spec
VIEW View
INVARIANT Collections Partition Repository Money Disk NothingTwice Exhausted Again
CHECK_DEADLOCK FALSE
