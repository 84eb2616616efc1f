------------------------------ MODULE Overrides -----------------------------
(* User holiday overrides on one calendar and on a copy of it.               *)
(* Abstract state: ov[d] = the last instruction about day d since the last    *)
(* reset ("none", "hol", "biz").  The sets the implementation keeps are       *)
(* carried along as a refinement, and must determine the same holidays.       *)
EXTENDS Integers, FiniteSets
CONSTANTS D, BuiltIn           \* days are 1..D; BuiltIn = number of built-in holidays (1..BuiltIn)
VARIABLES ov, added, removed, cp
vars == <<ov, added, removed, cp>>
DaySet == 1..D
B(d) == d <= BuiltIn
None == [d \in DaySet |-> "none"]
(* the abstract meaning *)
IsHol(o, d) == o[d] = "hol" \/ (o[d] = "none" /\ B(d))
AddedSet(o) == {d \in DaySet : IsHol(o, d) /\ ~B(d)}
RemovedSet(o) == {d \in DaySet : ~IsHol(o, d) /\ B(d)}

Init == ov = None /\ added = {} /\ removed = {} /\ cp = [ov |-> None, added |-> {}, removed |-> {}]
Add(d) == /\ ov' = [ov EXCEPT ![d] = "hol"]
          /\ removed' = removed \ {d}
          /\ added' = IF B(d) THEN added ELSE added \cup {d}
          /\ UNCHANGED cp
Remove(d) == /\ ov' = [ov EXCEPT ![d] = "biz"]
             /\ added' = added \ {d}
             /\ removed' = IF B(d) THEN removed \cup {d} ELSE removed
             /\ UNCHANGED cp
Reset == ov' = None /\ added' = {} /\ removed' = {} /\ UNCHANGED cp
Copy == cp' = [ov |-> ov, added |-> added, removed |-> removed] /\ UNCHANGED <<ov, added, removed>>
Swap == /\ cp' = [ov |-> ov, added |-> added, removed |-> removed]
        /\ ov' = cp.ov /\ added' = cp.added /\ removed' = cp.removed
Next == (\E d \in DaySet : Add(d) \/ Remove(d)) \/ Reset \/ Copy \/ Swap
Spec == Init /\ [][Next]_vars

ImplHol(d) == d \in added \/ (d \notin removed /\ B(d))
Refines == \A d \in DaySet : ImplHol(d) = IsHol(ov, d)
SetsExact == added = AddedSet(ov) /\ removed = RemovedSet(ov)
Disjoint == added \cap removed = {}
ResetOk == [][Reset => \A d \in DaySet : IsHol(ov', d) = B(d)]_vars
CopyKept == [][~(cp' # cp /\ ov' # ov /\ cp'.ov # ov)]_vars
=============================================================================
