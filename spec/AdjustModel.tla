----------------------------- MODULE AdjustModel ----------------------------
(* Laws of the business-day queries, checked for every holiday pattern over a *)
(* window of N days placed on a month end, a mid-month and a year end.        *)
(* The state walks a date by the queries' own steps (adjust, advance a day),  *)
(* so that compositions of queries are covered as well as single ones.        *)
EXTENDS BusinessDays
CONSTANTS N, Origins
VARIABLES origin, pat, d
vars == <<origin, pat, d>>
OriginSet == CASE Origins = 3 -> {Serial(25, 2, 2019), Serial(11, 6, 2021), Serial(27, 12, 2022)}
               [] OTHER -> {Serial(25, 2, 2019)}
H(s) == s \in {origin + k : k \in pat}
Lo == origin - 3
Hi == origin + N + 3
Init == origin \in OriginSet /\ pat \in SUBSET (0..(N - 1)) /\ d = origin
Adj(c) == d' = Adjust(H, d, c) /\ UNCHANGED <<origin, pat>>
Step(n) == d' = Advance(H, d, n, Days, Following, FALSE) /\ UNCHANGED <<origin, pat>>
Back == d' = d + 1 /\ UNCHANGED <<origin, pat>>
Next == d >= Lo /\ d <= Hi /\ (Back \/ (\E c \in Conventions : Adj(c)) \/ Step(1) \/ Step(-1))
Spec == Init /\ [][Next]_vars

Idempotent == \A c \in Conventions : LET r == Adjust(H, d, c) IN Adjust(H, r, c) = r
OnBusinessDay == \A c \in Conventions \ {Unadjusted} : ~H(Adjust(H, d, c))
Fixed == ~H(d) => \A c \in Conventions : Adjust(H, d, c) = d
DirectionOk == /\ Adjust(H, d, Following) >= d
               /\ Adjust(H, d, Preceding) <= d
               /\ \A s \in d..(Adjust(H, d, Following) - 1) : H(s)
               /\ \A s \in (Adjust(H, d, Preceding) + 1)..d : H(s)
NearestOk == LET r == Adjust(H, d, Nearest)
                 k == IF r > d THEN r - d ELSE d - r
             IN  (\A j \in 0..(k - 1) : H(d + j) /\ H(d - j)) /\ (r < d => H(d + k))
MonthKept == LET r == Adjust(H, d, ModifiedFollowing) IN
             (\E s \in Lo..Hi : SameMonth(s, d) /\ ~H(s)) => SameMonth(r, d)
AdvanceUndo == ~H(d) => Walk(H, Walk(H, d, 2), -2) = d
CountAgrees == BusinessBetween(H, d, Hi + 5, TRUE, TRUE) = Len(BusinessList(H, d, Hi + 5))
CountFlips == \A a, b \in BOOLEAN :
              BusinessBetween(H, d, Hi + 5, a, b) = -BusinessBetween(H, Hi + 5, d, b, a)
WalkCounts == LET t == Walk(H, d, 3) IN BusinessBetween(H, d, t, FALSE, TRUE) = 3
=============================================================================
