CONSTANTS
  NQ = 3
  ND = 4
  V = 3
SPECIFICATION Spec
INVARIANT QuireLaws DensityLaws
CHECK_DEADLOCK FALSE
