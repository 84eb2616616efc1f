SPECIFICATION Spec
INVARIANTS Symmetric Implies Reflexive Wider NanNever
CHECK_DEADLOCK FALSE
