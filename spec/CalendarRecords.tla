-------------------------- MODULE CalendarRecords --------------------------
(* Judges one market-year: hol = days the holiday query calls holidays,      *)
(* list = holiday list with weekends, nw = without, bd = business-day list.  *)
EXTENDS Calendars, TraceRecords
Fail(name, ok) == IF ok THEN {} ELSE {name}
SetOf(q) == {q[k] : k \in DOMAIN q}
Ascending(q) == \A k \in 1..(Len(q) - 1) : q[k] < q[k + 1]
Bad(r) ==
    LET H == HolidaysInYear(r.cal, r.y)
        D == YearDaysSet(r.y)
    IN  Fail("holidays", SetOf(r.hol) = H)
        \cup Fail("holiday-list", SetOf(r.list) = H /\ Ascending(r.list))
        \cup Fail("holidays-without-weekends",
                  SetOf(r.nw) = (IF HasWeekends(r.cal) THEN H \ Weekends(r.y) ELSE H) /\ Ascending(r.nw))
        \cup Fail("business-days", SetOf(r.bd) = D \ H /\ Ascending(r.bd))
        \cup Fail("weekend-days", SetOf(r.we) = (IF HasWeekends(r.cal) THEN {1, 7} ELSE {}))
Conforms == i = 0 \/ Report(Bad(Trace[i]))
=============================================================================
