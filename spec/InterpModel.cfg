SPECIFICATION Spec
INVARIANTS Nodes Convex Areas StartsAtZero SlopeIsDifference Unique
CHECK_DEADLOCK FALSE
