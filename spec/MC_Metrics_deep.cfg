CONSTANTS
  N = 6
  K = 5
  V = 2
  W = 5
SPECIFICATION Spec
INVARIANT BinLaws RowLaws
CHECK_DEADLOCK FALSE
