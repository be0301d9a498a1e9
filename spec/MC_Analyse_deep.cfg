CONSTANTS
  PERF = {0, 60, 100}
  COST = {1, 2}
  IP = {40}
  LEN = 3
  SEQLEN = 0
SPECIFICATION Spec
INVARIANT RightQuery SubCurve Lengths ExactAt WithinBudget TSym
CHECK_DEADLOCK FALSE
