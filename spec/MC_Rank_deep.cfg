CONSTANTS
  K = 3
  Den = 6
SPECIFICATION Spec
INVARIANT Exists BinaryAgree ClassSymmetric Extremes Uniform Unanimous KLNonNegative
CHECK_DEADLOCK FALSE
