SPECIFICATION Spec
INVARIANTS Remains NextIsFirst InclusionOnlyOnTheDay Defined ZeroYield Falls Linear Empty Convex SameValue ConvexToo LastDate
PROPERTY Shrinks
CHECK_DEADLOCK FALSE
