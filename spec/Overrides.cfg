SPECIFICATION Spec
INVARIANTS Refines SetsExact Disjoint
PROPERTIES ResetOk CopyKept
