CONSTANTS
  MAXU = 2
  MAXB = 2
  MAXC = 1
  MAXT = 1
SPECIFICATION Spec
PROPERTY Ends
INVARIANT FirstCheck NeverOnEmpty QueriesExact
CHECK_DEADLOCK FALSE
