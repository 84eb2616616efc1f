------------------------------- MODULE LegGen -------------------------------
(* The leg builder as a state machine over abstract values: every sequence of  *)
(* L setter calls is printed for replay as 10*setter + argument.                *)
EXTENDS Integers, Sequences, TLC
L0 == INSTANCE Legs
CONSTANT L
VARIABLES t, h
Value(op, a) == <<op, a>>
Init == t = L0!NoTerms /\ h = <<>>
Call(op, a) == t' = L0!Set(t, op, Value(op, a)) /\ h' = Append(h, 10 * op + a)
Next == Len(h) < L /\ \E op \in 1..12 : \E a \in {0, 1} : Call(op, a)
Spec == Init /\ [][Next]_<<t, h>>
LastOf(slot) == LET K == {k \in DOMAIN h : L0!Slot(h[k] \div 10) = slot}
                IN  IF K = {} THEN L0!NoTerms[slot]
                    ELSE LET k == CHOOSE k \in K : \A j \in K : j <= k IN Value(h[k] \div 10, h[k] % 10)
LastWins == \A s \in DOMAIN t : t[s] = LastOf(s)
RECURSIVE Show(_)
Show(q) == IF q = <<>> THEN "" ELSE ToString(Head(q)) \o " " \o Show(Tail(q))
Emit == PrintT("REPLAY|" \o Show(h))
=============================================================================
