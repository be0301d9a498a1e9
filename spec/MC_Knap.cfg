CONSTANTS
  N = 3
  V = 2
  C = 3
  B = 5
SPECIFICATION Spec
INVARIANT DpIsBest BackIsBest MoreBudgetIsNoWorse Emit
CHECK_DEADLOCK FALSE
