SPECIFICATION Spec
INVARIANTS Commute Inverse NegSub Sizes DotLaw AbsLaw PowerLaw CauchySchwarz
CHECK_DEADLOCK FALSE
