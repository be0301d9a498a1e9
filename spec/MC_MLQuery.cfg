CONSTANTS
  N = 2
  K = 3
  D = 2
SPECIFICATION Spec
VIEW View
INVARIANT OnlyUnknown Emit
PROPERTY PartlyKnownStay AskAll AuroDistinct
CHECK_DEADLOCK FALSE
