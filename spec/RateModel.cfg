SPECIFICATION Spec
INVARIANTS OneAtZero Flat Meet Ordered Chain Mixed
PROPERTY Growing
CHECK_DEADLOCK FALSE
