SPECIFICATION Spec
INVARIANTS Algebra Reciprocal Exponential Euler Roots Compounds Logs RealPowers Signed
CHECK_DEADLOCK FALSE
