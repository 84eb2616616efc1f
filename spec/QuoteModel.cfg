SPECIFICATION Spec
INVARIANTS Distinct Shared Known
PROPERTY Fresh
CHECK_DEADLOCK FALSE
