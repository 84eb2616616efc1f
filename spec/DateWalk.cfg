SPECIFICATION Spec
INVARIANT ClosedForms MonthEnds EasterRules PeriodLaws
CHECK_DEADLOCK FALSE
