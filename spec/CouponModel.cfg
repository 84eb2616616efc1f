SPECIFICATION Spec
INVARIANTS ZeroOutside FullAtEnd ExCancels Signs DaysCounted
PROPERTIES Growing NotPast
CHECK_DEADLOCK FALSE
