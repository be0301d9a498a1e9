CONSTANTS
  Names = {"a", "b"}
  Idx = {0, 1}
  K = 2
  MAXH = 1
SPECIFICATION Spec
VIEW View
INVARIANT Ledger PerOracle Reproducible
CHECK_DEADLOCK FALSE
