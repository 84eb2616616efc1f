SPECIFICATION Spec
INVARIANTS OwedIsOutstanding StillToRepay TradedWhileOwed MaturedPaysNothing SettlesOpen Ordered Maturity Accrues NearPar
PROPERTY RepaidGrows
CHECK_DEADLOCK FALSE
