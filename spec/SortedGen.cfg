SPECIFICATION Spec
INVARIANTS Agree Sortedness Emit
CHECK_DEADLOCK FALSE
