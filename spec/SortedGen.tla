------------------------------ MODULE SortedGen -----------------------------
(* Every sorted sequence over 0..Top (even numbers, so that the gaps can be    *)
(* asked for) up to length L is printed for replay; the bounds are checked     *)
(* against a search that walks the sequence.                                   *)
EXTENDS Sorted, TLC
CONSTANTS Top, L
VARIABLE s
Init == s = <<>>
Next == Len(s) < L /\ \E v \in 0..Top : (IF s = <<>> THEN TRUE ELSE 2 * v >= s[Len(s)]) /\ s' = Append(s, 2 * v)
Spec == Init /\ [][Next]_s
RECURSIVE WalkUp(_, _, _)
WalkUp(q, v, k) == IF k > Len(q) \/ q[k] >= v THEN k - 1 ELSE WalkUp(q, v, k + 1)
RECURSIVE WalkDown(_, _, _)
WalkDown(q, v, k) == IF k = 0 \/ q[k] <= v THEN k ELSE WalkDown(q, v, k - 1)
Agree == \A v \in -1..(2 * Top + 1) :
            /\ Lower(s, v) = WalkUp(s, v, 1)
            /\ Upper(s, v) = WalkDown(s, v, Len(s))
            /\ Lower(s, v) <= Upper(s, v)
            /\ \A k \in DOMAIN s : (s[k] = v) <=> (k > Lower(s, v) /\ k <= Upper(s, v))
Sortedness == NonDecreasing(s)
Emit == PrintT("REPLAY|" \o ToString(s))
=============================================================================
