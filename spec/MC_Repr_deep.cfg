CONSTANTS
  NQ = 4
  ND = 4
  V = 3
SPECIFICATION Spec
INVARIANT QuireLaws DensityLaws
CHECK_DEADLOCK FALSE
