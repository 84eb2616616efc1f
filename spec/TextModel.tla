----------------------------- MODULE TextModel ------------------------------
(* A day walking through the calendar: its written form can be read back, and   *)
(* later days have later texts.                                                 *)
EXTENDS Texts
CONSTANTS From, To
VARIABLE s
Init == s \in {From + 100 * k : k \in 0..((To - From) \div 100)}
Next == s < To /\ s % 100 # (From - 1) % 100 /\ s' = s + 1
Spec == Init /\ [][Next]_s
ReadsBack == ReadDate(DateText(s)) = s /\ Len(DateText(s)) = 10
Lists == OnlyDates(<<91, 10, 9>> \o DateText(s) \o <<44, 10, 93>>) = DateText(s)
Signs == PeriodText(-s, 3) = <<Minus>> \o PeriodText(s, 3)
Rounds == LET d == DaysOfTime(s - 40000, 360) IN 16 * d - (s - 40000) * 360 \in -8..8
InOrder == [][Before(DateText(s), DateText(s'), 1) /\ ~Before(DateText(s'), DateText(s), 1)]_s
=============================================================================
