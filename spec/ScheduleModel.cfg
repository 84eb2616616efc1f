SPECIFICATION Spec
INVARIANTS IIncreasing IFlags IEnds IInner IGrid ICovered ITwentieth IWednesday ICuts OnlyShort
PROPERTY Progress
CHECK_DEADLOCK FALSE
