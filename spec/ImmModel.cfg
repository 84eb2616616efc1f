SPECIFICATION Spec
INVARIANTS NextIsFirst NoneBetween MainIsLater CodesTurnBack AfterTrade OnTwentieth LongerIsLater Semiannual
PROPERTIES NeverBack RollsOnly
CHECK_DEADLOCK FALSE
