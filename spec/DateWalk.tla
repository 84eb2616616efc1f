----------------------------- MODULE DateWalk ------------------------------
(* Model: the civil calendar as a state machine that only knows "tomorrow".  *)
(* TLC walks all 109573 supported days and checks that the closed forms of   *)
(* Dates (the oracle for the recorded dates) agree with the walk.            *)
EXTENDS Dates
VARIABLES s, d, m, y, w, doy
vars == <<s, d, m, y, w, doy>>
(* The walk proper starts on Monday 1 Jan 1900.  The other New Year's Days are
   entry points too, so that TLC can walk the 300 years in parallel: the step
   from 31 December of one year must lead into the next year's entry state,
   because the invariants fix every component as a function of s. *)
Init == /\ y \in MinYear..MaxYear /\ d = 1 /\ m = 1 /\ doy = 1
        /\ s = Serial(1, 1, y) /\ w = Weekday(s)
        /\ (y = 1900 => s = 2 /\ w = 2)
Tomorrow ==
    /\ s < MaxSerial
    /\ s' = s + 1
    /\ w' = (w % 7) + 1
    /\ IF d < MonthLen(m, y)
       THEN d' = d + 1 /\ m' = m /\ y' = y /\ doy' = doy + 1
       ELSE d' = 1 /\ IF m < 12 THEN m' = m + 1 /\ y' = y /\ doy' = doy + 1
                                ELSE m' = 1 /\ y' = y + 1 /\ doy' = 1
Next == Tomorrow
Spec == Init /\ [][Next]_vars
ClosedForms ==
    /\ Civil(s) = <<d, m, y>>
    /\ Serial(d, m, y) = s
    /\ Weekday(s) = w
    /\ DayOfYear(d, m, y) = doy
    /\ ValidDMY(d, m, y) /\ ~ValidDMY(MonthLen(m, y) + 1, m, y)
    /\ Ymd(s) = 10000 * y + 100 * m + d /\ SerialOfYmd(Ymd(s)) = s
MonthEnds == (IsEndOfMonth(s) <=> d = MonthLen(m, y)) /\ MonthOf(EndOfMonth(s)) = m
EasterRules ==   \* Western and Orthodox Easter Sundays are Sundays in spring
    (d = 1 /\ m = 1) =>
        /\ Weekday(EasterSunday(y)) = 1
        /\ EasterSunday(y) >= Serial(22, 3, y) /\ EasterSunday(y) <= Serial(25, 4, y)
        /\ Weekday(OrthodoxEasterSunday(y)) = 1
        /\ OrthodoxEasterSunday(y) >= EasterSunday(y)
(* period arithmetic laws, on every day *)
PeriodLaws ==
    /\ \A n \in {1, 2, 3, 6, 11, 12, 13} :
         LET r == AddMonths(s, n) IN
           r # Refused =>
             /\ (YearOf(r) * 12 + MonthOf(r)) - (y * 12 + m) = n
             /\ DayOf(r) <= d /\ (DayOf(r) < d => IsEndOfMonth(r))
             /\ AddMonths(r, -n) <= s /\ s - AddMonths(r, -n) <= 3
             /\ (DayOf(r) = d => AddMonths(r, -n) = s)
    /\ AddPeriod(s, 1, Years) = AddMonths(s, 12)
    /\ AddPeriod(s, 1, Weeks) = AddDays(s, 7)
=============================================================================
