CONSTANTS
  N = 4
  K = 4
  V = 2
  W = 3
SPECIFICATION Spec
INVARIANT BinLaws RowLaws
CHECK_DEADLOCK FALSE
