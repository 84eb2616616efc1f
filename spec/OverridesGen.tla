---------------------------- MODULE OverridesGen ----------------------------
(* Every history of override operations up to length L, printed for replay:   *)
(* a history is a list of numbers 10*op + day, op 1 = add, 2 = remove,        *)
(* 3 = reset, 4 = copy, 5 = swap with the copy.                               *)
EXTENDS Overrides, Sequences, TLC
CONSTANT L
VARIABLE h
GInit == Init /\ h = <<>>
GNext == Len(h) < L /\ ( (\E d \in DaySet : (Add(d) /\ h' = Append(h, 10 + d))
                                      \/ (Remove(d) /\ h' = Append(h, 20 + d)))
         \/ (Reset /\ h' = Append(h, 30)) \/ (Copy /\ h' = Append(h, 40)) \/ (Swap /\ h' = Append(h, 50)))
GSpec == GInit /\ [][GNext]_<<vars, h>>
RECURSIVE Show(_)
Show(q) == IF q = <<>> THEN "" ELSE ToString(Head(q)) \o " " \o Show(Tail(q))
Emit == Len(h) < L \/ PrintT("REPLAY|" \o Show(h))
=============================================================================
