------------------------------- MODULE Sorted -------------------------------
(* Bounds in a sorted sequence.                                                *)
EXTENDS Integers, Sequences, FiniteSets
NonDecreasing(s) == \A k \in 1..(Len(s) - 1) : s[k] <= s[k + 1]
Lower(s, v) == Cardinality({k \in DOMAIN s : s[k] < v})
Upper(s, v) == Cardinality({k \in DOMAIN s : s[k] <= v})
=============================================================================
