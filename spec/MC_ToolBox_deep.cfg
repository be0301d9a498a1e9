CONSTANTS
  P = 2
  D = 2
  MAXH = 4
  MAXS = 3
SPECIFICATION Spec
VIEW View
INVARIANT SplitOnce FileIsAHandle OneFilePerTool
PROPERTY Reopened
CHECK_DEADLOCK FALSE
