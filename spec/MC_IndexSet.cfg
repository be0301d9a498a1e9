CONSTANTS
  U = {0, 1, 2}
  MAXB = 2
SPECIFICATION Spec
VIEW View
INVARIANT SetSemantics
PROPERTY OldBeforeNew
CHECK_DEADLOCK FALSE
