----------------------------- MODULE BuilderGen -----------------------------
(* The schedule builder as a state machine: the state is the option record;   *)
(* every sequence of L setter calls is printed for replay as numbers           *)
(* 10*setter + argument index.  Setters 4 and 5 (forwards, backwards) and 3    *)
(* (rule) write the same option.                                              *)
EXTENDS Integers, Sequences, TLC
CONSTANT L
VARIABLES o, h
Slot(op) == IF op \in {4, 5} THEN 3 ELSE op
Args(op) == IF op \in {4, 5} THEN {0} ELSE IF op = 6 THEN {0, 1} ELSE {0, 1, 2}
Value(op, a) == CASE op = 4 -> 2 [] op = 5 -> 0 [] OTHER -> a
Init == o = [s \in {1, 2, 3, 6, 7, 8} |-> -1] /\ h = <<>>
Call(op, a) == o' = [o EXCEPT ![Slot(op)] = Value(op, a)] /\ h' = Append(h, 10 * op + a)
Next == Len(h) < L /\ \E op \in 1..8 : \E a \in Args(op) : Call(op, a)
Spec == Init /\ [][Next]_<<o, h>>
(* order of calls to different options does not matter; the last call to one counts *)
LastOf(s) == LET K == {k \in DOMAIN h : Slot(h[k] \div 10) = s}
             IN  IF K = {} THEN -1
                 ELSE LET k == CHOOSE k \in K : \A j \in K : j <= k IN Value(h[k] \div 10, h[k] % 10)
LastWins == \A s \in DOMAIN o : o[s] = LastOf(s)
RECURSIVE Show(_)
Show(q) == IF q = <<>> THEN "" ELSE ToString(Head(q)) \o " " \o Show(Tail(q))
Emit == PrintT("REPLAY|" \o Show(h))
=============================================================================
