CONSTANTS
  N = 2
  K = 2
SPECIFICATION Spec
VIEW View
INVARIANT InRange RoundTrips OneDimInjective Partition AddDiscardExact
CHECK_DEADLOCK FALSE
