---------------------------- MODULE TextRecords -----------------------------
(* Judges written forms and codes (C42) and day-counter identities (C41).      *)
EXTENDS Texts, TraceRecords
Fail(name, ok) == IF ok THEN {} ELSE {name}
(* dates: <<serial, text>>: the ISO date, and at most midnight after it *)
BadDates(r) == Fail("date-text", \A k \in DOMAIN r.q :
    LET t == r.q[k][2]  d == DateText(r.q[k][1]) IN t = d \/ t = d \o Midnight)
BadPeriods(r) == Fail("period-text", \A k \in DOMAIN r.q : r.q[k][3] = PeriodText(r.q[k][1], r.q[k][2]))
BadSchedule(r) == Fail("schedule-text", OnlyDates(r.t) = ConcatDates(r.d, 1))
BadCodes(r) ==
    Fail("imm-letters", r.letters = [k \in 1..12 |-> k]) \cup
    Fail("month-codes", \A k \in DOMAIN r.months : LET x == r.months[k] IN
        \A j \in DOMAIN x[2] : x[2][j] = MonthCode(x[1]))
    \cup Fail("weekday-codes", \A k \in DOMAIN r.weekdays : r.weekdays[k][2] = WeekdayCode(r.weekdays[k][1]))
    \cup Fail("weekday-order", \A a, b \in 1..7 : (r.less[a][b] = 1) <=> a < b)
BadDays(r) == Fail("days-of-time", \A k \in DOMAIN r.q :
    LET x == r.q[k] IN x[3] = DaysOfTime(x[1], x[2]) /\ (x[2] = 360 => x[4] = x[3]))
(* counters: ids, their names and texts, eq = the matrix of ==, same = the matrix of equal results *)
BadCounters(r) ==
    Fail("counter-name", \A k \in DOMAIN r.ids : r.names[k] = CounterName(r.ids[k]) /\ r.texts[k] = r.names[k])
    \cup Fail("counter-equality", \A a, b \in DOMAIN r.ids :
            (r.eq[a][b] = 1) <=> CounterName(r.ids[a]) = CounterName(r.ids[b]))
    \cup Fail("counter-copy", \A k \in DOMAIN r.ids : r.copy[k] = 1)
    \cup Fail("equal-counters-count-alike", \A a, b \in DOMAIN r.ids :
            r.eq[a][b] = 1 /\ r.ids[a] \notin {"isma", "old-isma", "isda30", "german"} => r.same[a][b] = 1)
BadCalendars(r) ==
    Fail("calendar-name", \A k \in DOMAIN r.q : r.q[k].name = CalendarName(r.q[k].id))
    \cup Fail("calendar-copy", \A k \in DOMAIN r.q : r.q[k].copy = r.q[k].name /\ r.q[k].changed = r.q[k].name)
    \cup Fail("calendar-names-differ", \A j, k \in DOMAIN r.q : j # k => r.q[j].name # r.q[k].name)
Bad(r) == CASE r.k = "date-texts" -> BadDates(r)
            [] r.k = "period-text" -> BadPeriods(r)
            [] r.k = "schedule-text" -> BadSchedule(r)
            [] r.k = "codes" -> BadCodes(r)
            [] r.k = "days-of-time" -> BadDays(r)
            [] r.k = "counters" -> BadCounters(r)
            [] r.k = "calendars" -> BadCalendars(r)
            [] OTHER -> {"unknown record kind"}
Conforms == i = 0 \/ Report(Bad(Trace[i]))
=============================================================================
