CONSTANTS
  U = {1, 2}
  MAXQ = 2
SPECIFICATION Spec
VIEW ViewDisk
INVARIANT Conserved Monotone RecoverIsReplay Accounted DiskComplete
CHECK_DEADLOCK FALSE
