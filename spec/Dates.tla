------------------------------- MODULE Dates -------------------------------
(* The civil calendar: proleptic Gregorian days from 1 Jan 1900 to           *)
(* 31 Dec 2199, identified by their serial number (1 Jan 1900 = 2).          *)
(* Weekdays are 1 = Sunday ... 7 = Saturday.                                 *)
EXTENDS Integers, Sequences, FiniteSets

MinSerial == 2
MaxSerial == 109574
MinYear == 1900
MaxYear == 2199
InRange(s) == s >= MinSerial /\ s <= MaxSerial
YearOk(y) == y >= MinYear /\ y <= MaxYear

IsLeap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0

NormalLen == <<31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31>>
MonthLen(m, y) == IF m = 2 /\ IsLeap(y) THEN 29 ELSE NormalLen[m]

CumDays == <<0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334>>
DaysBeforeMonth(m, y) == CumDays[m] + (IF m > 2 /\ IsLeap(y) THEN 1 ELSE 0)

(* leap years in 1900 .. y-1 *)
LeapsBefore(y) == ((y - 1) \div 4 - (y - 1) \div 100 + (y - 1) \div 400)
                  - (1899 \div 4 - 1899 \div 100 + 1899 \div 400)
DaysBeforeYear(y) == 365 * (y - 1900) + LeapsBefore(y)
YearDays(y) == IF IsLeap(y) THEN 366 ELSE 365

ValidDMY(d, m, y) == YearOk(y) /\ m \in 1..12 /\ d >= 1 /\ d <= MonthLen(m, y)

Serial(d, m, y) == 1 + d + DaysBeforeMonth(m, y) + DaysBeforeYear(y)
DayOfYear(d, m, y) == DaysBeforeMonth(m, y) + d
Weekday(s) == IF s % 7 = 0 THEN 7 ELSE s % 7

(* Inverse of Serial, in closed form (days counted from 1 March of year 0).  *)
CivilY(z) == LET era == z \div 146097
                 doe == z - era * 146097
                 yoe == (doe - doe \div 1460 + doe \div 36524 - doe \div 146096) \div 365
             IN  <<yoe + era * 400, doe - (365 * yoe + yoe \div 4 - yoe \div 100)>>
Civil(s) ==   \* <<day, month, year>>
    LET p  == CivilY(s - 2 + 693901)
        mp == (5 * p[2] + 2) \div 153
        d  == p[2] - (153 * mp + 2) \div 5 + 1
        m  == IF mp < 10 THEN mp + 3 ELSE mp - 9
    IN  <<d, m, IF m <= 2 THEN p[1] + 1 ELSE p[1]>>
DayOf(s) == Civil(s)[1]
MonthOf(s) == Civil(s)[2]
YearOf(s) == Civil(s)[3]

(* yyyymmdd projection used in the recorded traces *)
Ymd(s) == LET c == Civil(s) IN c[3] * 10000 + c[2] * 100 + c[1]
SerialOfYmd(k) == Serial(k % 100, (k \div 100) % 100, k \div 10000)

EndOfMonth(s) == LET c == Civil(s) IN s + (MonthLen(c[2], c[3]) - c[1])
IsEndOfMonth(s) == EndOfMonth(s) = s

(* ---- moving by a period; -1 stands for "refused" ------------------------- *)
Refused == -1
Days == 1  Weeks == 2  Months == 3  Years == 4
CalendarUnits == {Days, Weeks, Months, Years}

AddDays(s, n) == IF n > 400000 \/ n < -400000 THEN Refused
                 ELSE IF InRange(s + n) THEN s + n ELSE Refused
AddMonths(s, n) ==
    LET c == Civil(s)
        k == 12 * c[3] + (c[2] - 1) + n          \* months since year 0
        y == k \div 12
        m == (k % 12) + 1
    IN  IF ~YearOk(y) THEN Refused
        ELSE LET len == MonthLen(m, y)
             IN  Serial(IF c[1] > len THEN len ELSE c[1], m, y)
AddPeriod(s, n, unit) ==
    CASE unit = Days   -> AddDays(s, n)
      [] unit = Weeks  -> IF n > 100000 \/ n < -100000 THEN Refused ELSE AddDays(s, 7 * n)
      [] unit = Months -> AddMonths(s, n)
      [] unit = Years  -> IF n > 1000 \/ n < -1000 THEN Refused ELSE AddMonths(s, 12 * n)
      [] OTHER -> Refused

(* ---- n-th weekday -------------------------------------------------------- *)
NthWeekday(nth, w, m, y) ==
    IF nth < 1 \/ nth > 5 THEN Refused
    ELSE LET first == Serial(1, m, y)
             s == first + ((w - Weekday(first)) % 7) + 7 * (nth - 1)
         IN  IF s <= first + MonthLen(m, y) - 1 THEN s ELSE Refused
LastWeekday(w, m, y) == LET last == Serial(MonthLen(m, y), m, y)
                        IN  last - ((Weekday(last) - w) % 7)

(* ---- Easter -------------------------------------------------------------- *)
(* Gregorian computus (anonymous algorithm): Easter Sunday as serial number.  *)
EasterSunday(y) ==
    LET a == y % 19  b == y \div 100  c == y % 100
        d == b \div 4  e == b % 4
        f == (b + 8) \div 25
        g == (b - f + 1) \div 3
        h == (19 * a + b - d - g + 15) % 30
        i == c \div 4  k == c % 4
        l == (32 + 2 * e + 2 * i - h - k) % 7
        m == (a + 11 * h + 22 * l) \div 451
        month == (h + l - 7 * m + 114) \div 31
        day == ((h + l - 7 * m + 114) % 31) + 1
    IN  Serial(day, month, y)
EasterMondayDoy(y) == EasterSunday(y) + 1 - DaysBeforeYear(y) - 1
(* Julian computus, shifted to the Gregorian calendar *)
OrthodoxEasterSunday(y) ==
    LET a == y % 4  b == y % 7  c == y % 19
        d == (19 * c + 15) % 30
        e == (2 * a + 4 * b - d + 34) % 7
        month == (d + e + 114) \div 31
        day == ((d + e + 114) % 31) + 1
        shift == y \div 100 - y \div 400 - 2
    IN  Serial(day, month, y) + shift          \* day/month <= 25 April Julian
OrthodoxEasterMondayDoy(y) == OrthodoxEasterSunday(y) + 1 - DaysBeforeYear(y) - 1
=============================================================================
