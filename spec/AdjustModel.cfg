SPECIFICATION Spec
INVARIANTS Idempotent OnBusinessDay Fixed DirectionOk NearestOk MonthKept AdvanceUndo CountAgrees CountFlips WalkCounts
CHECK_DEADLOCK FALSE
