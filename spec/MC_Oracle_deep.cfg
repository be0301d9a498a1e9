CONSTANTS
  Names = {"a", "b"}
  Idx = {0, 1}
  K = 2
  MAXH = 2
SPECIFICATION Spec
VIEW View
INVARIANT Ledger PerOracle Reproducible
CHECK_DEADLOCK FALSE
