CONSTANTS
  I = {1, 2}
  X = {7, 8}
  L = {0, 1}
  Kind = "element"
SPECIFICATION Spec
VIEW View
INVARIANT OneRow Agree
PROPERTY CostRule Growth
CHECK_DEADLOCK FALSE
