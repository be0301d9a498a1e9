CONSTANTS
  N = 4
  D = 3
SPECIFICATION Spec
VIEW View
INVARIANT Partition NoSelectionWhenEmpty Emit
PROPERTY Progress
CHECK_DEADLOCK FALSE
