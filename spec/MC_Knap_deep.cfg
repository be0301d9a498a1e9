CONSTANTS
  N = 4
  V = 3
  C = 3
  B = 7
SPECIFICATION Spec
INVARIANT DpIsBest BackIsBest MoreBudgetIsNoWorse
CHECK_DEADLOCK FALSE
