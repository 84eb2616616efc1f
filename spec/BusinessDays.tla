---------------------------- MODULE BusinessDays ----------------------------
(* Business-day queries over a set of holidays, given as a predicate H on     *)
(* serial numbers.  The definitions are declarative and close to the prose of *)
(* the properties; they do not follow the implementation's loops.             *)
EXTENDS Dates

Following == 1           ModifiedFollowing == 2   Preceding == 3
ModifiedPreceding == 4   Unadjusted == 5          HalfMonthModifiedFollowing == 6
Nearest == 7
Conventions == 1..7

RECURSIVE NextBusiness(_, _)
NextBusiness(H(_), s) == IF ~InRange(s) THEN Refused
                         ELSE IF H(s) THEN NextBusiness(H, s + 1) ELSE s
RECURSIVE PrevBusiness(_, _)
PrevBusiness(H(_), s) == IF ~InRange(s) THEN Refused
                         ELSE IF H(s) THEN PrevBusiness(H, s - 1) ELSE s

SameMonth(s, t) == MonthOf(s) = MonthOf(t) /\ YearOf(s) = YearOf(t)

Adjust(H(_), s, c) ==
    IF c = Unadjusted \/ ~H(s) THEN s
    ELSE LET up == NextBusiness(H, s)
             down == PrevBusiness(H, s)
         IN  CASE c = Following -> up
               [] c = Preceding -> down
               [] c = ModifiedFollowing -> IF SameMonth(up, s) THEN up ELSE down
               [] c = ModifiedPreceding -> IF SameMonth(down, s) THEN down ELSE up
               [] c = HalfMonthModifiedFollowing ->
                     IF ~SameMonth(up, s) \/ (DayOf(s) <= 15 /\ DayOf(up) > 15) THEN down ELSE up
               [] c = Nearest -> IF up - s <= s - down THEN up ELSE down

(* the n-th business day after (before) s; s itself need not be one *)
RECURSIVE Walk(_, _, _)
Walk(H(_), s, n) == IF s = Refused \/ n = 0 THEN s
                    ELSE IF n > 0 THEN Walk(H, NextBusiness(H, s + 1), n - 1)
                    ELSE Walk(H, PrevBusiness(H, s - 1), n + 1)

LastBusinessOfMonth(H(_), s) == PrevBusiness(H, EndOfMonth(s))
AtMonthEnd(H(_), s) == s >= LastBusinessOfMonth(H, s)

Advance(H(_), s, n, unit, c, eom) ==
    IF n = 0 THEN Adjust(H, s, c)
    ELSE IF unit = Days THEN Walk(H, s, n)
    ELSE LET t == AddPeriod(s, n, unit)
         IN  IF t = Refused THEN Refused
             ELSE IF eom /\ unit \in {Months, Years} /\ AtMonthEnd(H, s)
                  THEN LastBusinessOfMonth(H, t)
                  ELSE Adjust(H, t, c)

(* ascending lists and counts *)
HolidayList(H(_), a, b) == SelectSeq([k \in 1..(b - a + 1) |-> a + k - 1], H)
BusinessList(H(_), a, b) == SelectSeq([k \in 1..(b - a + 1) |-> a + k - 1], LAMBDA s : ~H(s))
Count(H(_), a, b) == Cardinality({s \in a..b : ~H(s)})
BusinessBetween(H(_), from, to, first, last) ==
    IF from = to THEN (IF first /\ last /\ ~H(from) THEN 1 ELSE 0)
    ELSE LET a == IF from < to THEN from ELSE to
             b == IF from < to THEN to ELSE from
             n == Count(H, a, b) - (IF ~first /\ ~H(from) THEN 1 ELSE 0)
                                 - (IF ~last /\ ~H(to) THEN 1 ELSE 0)
         IN  IF from < to THEN n ELSE -n
=============================================================================
