CONSTANTS
  P = 2
  D = 2
  MAXH = 3
  MAXS = 2
SPECIFICATION Spec
VIEW View
INVARIANT SplitOnce FileIsAHandle OneFilePerTool
PROPERTY Reopened
CHECK_DEADLOCK FALSE
