CONSTANTS
  PERF = {0, 60}
  COST = {1, 3}
  IP = {40, 70}
  LEN = 2
  SEQLEN = 2
SPECIFICATION Spec
INVARIANT RightQuery SubCurve Lengths ExactAt WithinBudget TSym Emit
CHECK_DEADLOCK FALSE
