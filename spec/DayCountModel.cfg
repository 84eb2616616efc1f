SPECIFICATION Spec
INVARIANTS IsdaIsTheSum IsmaIsTheSum AfbLaws Additive360 Antisymmetric NearPlain WholeMonths MonthsExact
CHECK_DEADLOCK FALSE
