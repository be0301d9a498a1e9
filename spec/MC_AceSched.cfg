SPECIFICATION Spec
INVARIANT WithinLimit Emit
CHECK_DEADLOCK FALSE
