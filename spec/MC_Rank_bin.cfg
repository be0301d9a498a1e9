CONSTANTS
  K = 2
  Den = 6
SPECIFICATION Spec
INVARIANT Exists BinaryAgree ClassSymmetric Extremes Uniform Unanimous KLNonNegative Emit
CHECK_DEADLOCK FALSE
