SPECIFICATION GSpec
INVARIANTS Refines SetsExact Emit
CHECK_DEADLOCK FALSE
