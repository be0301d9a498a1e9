CONSTANTS
  P = {50, 70}
  C = {1, 3}
  NN = {1, 10}
SPECIFICATION Spec
INVARIANT Exists Dominates CheaperIsBetter Emit
CHECK_DEADLOCK FALSE
