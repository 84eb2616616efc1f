SPECIFICATION Spec
INVARIANTS AsBuilt Tiled Paid InOrder Regular Repeat
CHECK_DEADLOCK FALSE
