CONSTANTS
  P = {50, 60, 80, 100}
  C = {0, 1, 2, 5}
  NN = {1, 10}
SPECIFICATION Spec
INVARIANT Exists Dominates CheaperIsBetter
CHECK_DEADLOCK FALSE
