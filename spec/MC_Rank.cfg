CONSTANTS
  K = 3
  Den = 4
SPECIFICATION Spec
INVARIANT Exists BinaryAgree ClassSymmetric Extremes Uniform Unanimous KLNonNegative Emit
CHECK_DEADLOCK FALSE
