SPECIFICATION Spec
INVARIANTS LastWins Emit
CHECK_DEADLOCK FALSE
