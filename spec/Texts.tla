------------------------------- MODULE Texts --------------------------------
(* Written forms, as sequences of character codes, and integer codes.         *)
EXTENDS Dates
Zero0 == 48  Minus == 45
IsDigit(c) == c >= 48 /\ c <= 57
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<Zero0 + n>> ELSE Digits(n \div 10) \o <<Zero0 + (n % 10)>>
Padded(n, k) == LET d == Digits(n) IN [j \in 1..(k - Len(d)) |-> Zero0] \o d
Number(n) == IF n < 0 THEN <<Minus>> \o Digits(-n) ELSE Digits(n)
(* yyyy-mm-dd *)
DateText(s) == LET c == Civil(s) IN Padded(c[3], 4) \o <<Minus>> \o Padded(c[2], 2) \o <<Minus>> \o Padded(c[1], 2)
Midnight == <<84, 48, 48, 58, 48, 48, 58, 48, 48, 43, 48, 48, 58, 48, 48>>         \* T00:00:00+00:00
(* D W M Y, and for parts of days H m s ms us *)
Letters == <<<<68>>, <<87>>, <<77>>, <<89>>, <<72>>, <<109>>, <<115>>, <<109, 115>>, <<117, 115>>>>
PeriodText(n, u) == Number(n) \o Letters[u]
RECURSIVE ConcatDates(_, _)
ConcatDates(ds, k) == IF k > Len(ds) THEN <<>> ELSE DateText(ds[k]) \o ConcatDates(ds, k + 1)
OnlyDates(t) == SelectSeq(t, LAMBDA c : IsDigit(c) \/ c = Minus)
(* reading a date back *)
Value(t, a, b) == LET RECURSIVE V(_, _)
                      V(k, acc) == IF k > b THEN acc ELSE V(k + 1, 10 * acc + t[k] - Zero0)
                  IN  V(a, 0)
ReadDate(t) == Serial(Value(t, 9, 10), Value(t, 6, 7), Value(t, 1, 4))
RECURSIVE Before(_, _, _)
Before(t, u, k) == IF k > Len(t) THEN FALSE ELSE IF t[k] # u[k] THEN t[k] < u[k] ELSE Before(t, u, k + 1)
(* integer codes *)
NoCode == -999999999
MonthCode(n) == IF n \in 1..12 THEN n ELSE NoCode
WeekdayCode(n) == IF n = 0 THEN 7 ELSE IF n \in 1..7 THEN n ELSE NoCode
(* a time of n/16 years on a year of so many days, rounded half away from zero *)
DaysOfTime(n, perYear) == LET p == n * perYear IN IF p >= 0 THEN (p + 8) \div 16 ELSE -((8 - p) \div 16)
(* the names of the calendars *)
CalendarName(id) ==
    CASE id = "TARGET" -> "TARGET" [] id = "Switzerland" -> "Switzerland" [] id = "Japan" -> "Japan"
      [] id = "UKSettlement" -> "UK settlement" [] id = "UKExchange" -> "London stock exchange"
      [] id = "UKMetals" -> "London metals exchange"
      [] id = "ItalySettlement" -> "Italian settlement" [] id = "ItalyExchange" -> "Milan stock exchange"
      [] id = "USSettlement" -> "US settlement" [] id = "USLibor" -> "US with Libor impact"
      [] id = "USNyse" -> "New York stock exchange" [] id = "USGovBond" -> "US government bond market"
      [] id = "USNerc" -> "North American Energy Reliability Council"
      [] id = "USFed" -> "Federal Reserve Bankwire System"
      [] id = "BrazilSettlement" -> "Brazil" [] id = "BrazilExchange" -> "BOVESPA"
      [] id = "WeekendsOnly" -> "weekends only" [] id = "Null" -> "Null"
(* the names of the day-count conventions *)
CounterName(id) ==
    CASE id = "actual360" -> "Actual/360" [] id = "actual360-last" -> "Actual/360 (inc)"
      [] id = "actual366" -> "Actual/366" [] id = "actual366-last" -> "Actual/366 (inc)"
      [] id = "one" -> "1/1" [] id = "simple" -> "Simple"
      [] id \in {"usa"} -> "30/360 (US)"
      [] id \in {"isma30", "bond-basis"} -> "30/360 (Bond Basis)"
      [] id \in {"european", "euro-bond-basis"} -> "30E/360 (Eurobond Basis)"
      [] id = "italian" -> "30/360 (Italian)"
      [] id \in {"isda30", "german"} -> "30E/360 (ISDA)"
      [] id = "nasd" -> "30/360 (NASD)"
      [] id = "thirty365" -> "30/365"
      [] id \in {"isma", "old-isma"} -> "Actual/Actual (ISMA)"
      [] id = "isda" -> "Actual/Actual (ISDA)"
      [] id = "afb" -> "Actual/Actual (AFB)"
=============================================================================
