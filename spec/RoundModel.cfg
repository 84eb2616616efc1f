SPECIFICATION Spec
INVARIANTS Keeps Moves Neighbour Away Toward Odd Mirror Split Nearest
PROPERTY Monotone
CHECK_DEADLOCK FALSE
