SPECIFICATION Spec
INVARIANTS ReadsBack Lists Signs Rounds
PROPERTY InOrder
CHECK_DEADLOCK FALSE
