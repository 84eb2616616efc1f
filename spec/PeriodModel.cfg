SPECIFICATION Spec
CONSTRAINT Bound
INVARIANTS KeepsItsAmount NormalStays Facts
CHECK_DEADLOCK FALSE
