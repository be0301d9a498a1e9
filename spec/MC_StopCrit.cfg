CONSTANTS
  MAXU = 3
  MAXB = 2
  MAXC = 2
  MAXT = 2
SPECIFICATION Spec
VIEW View
INVARIANT FirstCheck NeverOnEmpty QueriesExact
CHECK_DEADLOCK FALSE
