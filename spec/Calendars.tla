----------------------------- MODULE Calendars -----------------------------
(* Market calendars, stated declaratively: for every market the set of       *)
(* holidays of a year, as serial numbers, from the documented rules (fixed   *)
(* dates, dates relative to Easter Monday, n-th weekdays, observance rules   *)
(* and one-off days).                                                        *)
EXTENDS Dates

YearDaysSet(y) == Serial(1, 1, y)..Serial(31, 12, y)
WeekendDay(s) == s % 7 \in {0, 1}
(* First Saturday of the year and so on: weekends without testing each day    *)
Weekends(y) == LET a == Serial(1, 1, y)  b == Serial(31, 12, y)
                   sat0 == a - ((a - 0) % 7)      \* Saturday on or before 1 January
               IN  {sat0 + 7 * k : k \in 0..53} \cup {sat0 + 1 + 7 * k : k \in 0..53}

On(d, m, y) == {Serial(d, m, y)}
When(c, S) == IF c THEN S ELSE {}
Nth(n, w, m, y) == {NthWeekday(n, w, m, y)}
Mon == 2  Tue == 3  Wed == 4  Thu == 5  Fri == 6  Sat == 7  Sun == 1
EM(y) == EasterSunday(y) + 1       \* Easter Monday

(* observance rules *)
SunToMon(s) == IF Weekday(s) = Sun THEN {s, s + 1} ELSE {s}
SatToFriSunToMon(s) == CASE Weekday(s) = Sun -> {s, s + 1}
                         [] Weekday(s) = Sat -> {s, s - 1}
                         [] OTHER -> {s}
SatSunToMon(s) == CASE Weekday(s) = Sun -> {s, s + 1}
                    [] Weekday(s) = Sat -> {s, s + 2}
                    [] OTHER -> {s}

------------------------------------------------------------------------------
(* TARGET *)
TargetHolidays(y) ==
    On(1, 1, y) \cup On(25, 12, y)
    \cup When(y >= 2000, {EM(y) - 3, EM(y)} \cup On(1, 5, y) \cup On(26, 12, y))
    \cup When(y \in {1998, 1999, 2001}, On(31, 12, y))

(* United Kingdom: the three markets share the same rules *)
UKBankHolidays(y) ==
    \* early May: first Monday, V.E. day on 8 May in 1995 and 2020
    (IF y \in {1995, 2020} THEN On(8, 5, y) ELSE Nth(1, Mon, 5, y))
    \* spring: last Monday of May, moved with an extra day in jubilee years
    \cup (CASE y = 2002 -> On(3, 6, y) \cup On(4, 6, y)
            [] y = 2012 -> On(4, 6, y) \cup On(5, 6, y)
            [] y = 2022 -> On(2, 6, y) \cup On(3, 6, y)
            [] OTHER -> {LastWeekday(Mon, 5, y)})
    \cup {LastWeekday(Mon, 8, y)}
    \cup When(y = 2011, On(29, 4, y))      \* royal wedding
    \cup When(y = 2022, On(19, 9, y))      \* state funeral
    \cup When(y = 2023, On(8, 5, y))       \* coronation
UKHolidays(y) ==
    LET xmas == Serial(25, 12, y)  box == Serial(26, 12, y) IN
    SatSunToMon(Serial(1, 1, y))
    \cup {EM(y) - 3, EM(y)}
    \cup UKBankHolidays(y)
    \cup {xmas, box}
    \cup When(WeekendDay(xmas), {xmas + 2})
    \cup When(WeekendDay(box), {box + 2})
    \cup When(y = 1999, On(31, 12, y))

SwissHolidays(y) ==
    On(1, 1, y) \cup On(2, 1, y) \cup {EM(y) - 3, EM(y), EM(y) + 38, EM(y) + 49}
    \cup On(1, 5, y) \cup On(1, 8, y) \cup On(25, 12, y) \cup On(26, 12, y)

ItalySettlementHolidays(y) ==
    On(1, 1, y) \cup On(6, 1, y) \cup {EM(y)} \cup On(25, 4, y) \cup On(1, 5, y)
    \cup When(y >= 2000, On(2, 6, y))
    \cup On(15, 8, y) \cup On(1, 11, y) \cup On(8, 12, y) \cup On(25, 12, y) \cup On(26, 12, y)
    \cup When(y = 1999, On(31, 12, y))
ItalyExchangeHolidays(y) ==
    On(1, 1, y) \cup {EM(y) - 3, EM(y)} \cup On(1, 5, y) \cup On(15, 8, y)
    \cup On(24, 12, y) \cup On(25, 12, y) \cup On(26, 12, y) \cup On(31, 12, y)

------------------------------------------------------------------------------
(* United States *)
USWashington(y) == IF y >= 1971 THEN Nth(3, Mon, 2, y) ELSE SatToFriSunToMon(Serial(22, 2, y))
USMemorial(y) == IF y >= 1971 THEN {LastWeekday(Mon, 5, y)} ELSE SatToFriSunToMon(Serial(30, 5, y))
USJuneteenth(y) == When(y >= 2022, SatToFriSunToMon(Serial(19, 6, y)))
USLabor(y) == Nth(1, Mon, 9, y)
USColumbus(y) == When(y >= 1971, Nth(2, Mon, 10, y))
USVeterans(y) == IF y \in 1971..1977 THEN Nth(4, Mon, 10, y) ELSE SatToFriSunToMon(Serial(11, 11, y))
USVeteransNoSat(y) == IF y \in 1971..1977 THEN Nth(4, Mon, 10, y) ELSE SunToMon(Serial(11, 11, y))
USThanksgiving(y) == Nth(4, Thu, 11, y)
USMLK(y, since) == When(y >= since, Nth(3, Mon, 1, y))
USIndependence(y) == SatToFriSunToMon(Serial(4, 7, y))
USChristmas(y) == SatToFriSunToMon(Serial(25, 12, y))
(* 31 December observed for a New Year's Day falling on a Saturday *)
NewYearsEveObserved(y) == When(Weekday(Serial(31, 12, y)) = Fri, On(31, 12, y))

USSettlementHolidays(y) ==
    SunToMon(Serial(1, 1, y)) \cup NewYearsEveObserved(y) \cup USMLK(y, 1983)
    \cup USWashington(y) \cup USMemorial(y) \cup USJuneteenth(y) \cup USIndependence(y)
    \cup USLabor(y) \cup USColumbus(y) \cup USVeterans(y) \cup USThanksgiving(y) \cup USChristmas(y)
(* since 2015 an Independence Day on a weekend has no impact *)
USLiborHolidays(y) ==
    USSettlementHolidays(y) \ (IF y >= 2015 /\ WeekendDay(Serial(4, 7, y))
                               THEN {Serial(3, 7, y), Serial(5, 7, y)} \ Weekends(y) ELSE {})
USNyseSpecial ==
    {Serial(5, 12, 2018), Serial(29, 10, 2012), Serial(30, 10, 2012), Serial(2, 1, 2007),
     Serial(11, 6, 2004), Serial(11, 9, 2001), Serial(12, 9, 2001), Serial(13, 9, 2001),
     Serial(14, 9, 2001), Serial(27, 4, 1994), Serial(27, 9, 1985), Serial(14, 7, 1977),
     Serial(25, 1, 1973), Serial(28, 12, 1972), Serial(21, 7, 1969), Serial(31, 3, 1969),
     Serial(10, 2, 1969), Serial(5, 7, 1968), Serial(9, 4, 1968), Serial(25, 11, 1963),
     Serial(29, 5, 1961), Serial(26, 12, 1958), Serial(24, 12, 1954), Serial(24, 12, 1956),
     Serial(24, 12, 1965)}
    \* four-day weeks of the 1968 paperwork crisis: Wednesdays from 12 June
    \cup {Serial(12, 6, 1968) + 7 * k : k \in 0..28}
USNyseHolidays(y) ==
    SunToMon(Serial(1, 1, y)) \cup USWashington(y) \cup {EM(y) - 3} \cup USMemorial(y)
    \cup USJuneteenth(y) \cup USIndependence(y) \cup USLabor(y) \cup USThanksgiving(y)
    \cup USChristmas(y) \cup USMLK(y, 1998)
    \* presidential election days
    \cup When(y <= 1968 \/ (y <= 1980 /\ y % 4 = 0), Nth(1, Tue, 11, y))
    \cup (USNyseSpecial \cap YearDaysSet(y))
USGovBondHolidays(y) ==
    SunToMon(Serial(1, 1, y)) \cup USMLK(y, 1983) \cup USWashington(y)
    \cup When(y # 2015, {EM(y) - 3}) \cup USMemorial(y) \cup USJuneteenth(y)
    \cup USIndependence(y) \cup USLabor(y) \cup USColumbus(y) \cup USVeteransNoSat(y)
    \cup USThanksgiving(y) \cup USChristmas(y)
    \cup When(y = 2018, On(5, 12, y)) \cup When(y = 2012, On(30, 10, y)) \cup When(y = 2004, On(11, 6, y))
USNercHolidays(y) ==
    SunToMon(Serial(1, 1, y)) \cup USMemorial(y) \cup SunToMon(Serial(4, 7, y)) \cup USLabor(y)
    \cup USThanksgiving(y) \cup SunToMon(Serial(25, 12, y))
USFedHolidays(y) ==
    SunToMon(Serial(1, 1, y)) \cup USMLK(y, 1983) \cup USWashington(y) \cup USMemorial(y)
    \cup USJuneteenth(y) \cup SunToMon(Serial(4, 7, y)) \cup USLabor(y) \cup USColumbus(y)
    \cup USVeteransNoSat(y) \cup USThanksgiving(y) \cup SunToMon(Serial(25, 12, y))

------------------------------------------------------------------------------
BrazilCommon(y) ==
    On(1, 1, y) \cup On(21, 4, y) \cup On(1, 5, y) \cup On(7, 9, y) \cup On(12, 10, y)
    \cup On(2, 11, y) \cup On(15, 11, y) \cup On(25, 12, y)
    \cup {EM(y) - 3, EM(y) - 49, EM(y) - 48, EM(y) + 59}
BrazilSettlementHolidays(y) == BrazilCommon(y)
LastWeekdayOfYear(y) == LET s == Serial(31, 12, y) IN
    CASE Weekday(s) = Sat -> s - 1 [] Weekday(s) = Sun -> s - 2 [] OTHER -> s
BrazilExchangeHolidays(y) ==
    BrazilCommon(y) \cup On(25, 1, y) \cup On(9, 7, y) \cup When(y >= 2007, On(20, 11, y))
    \cup On(24, 12, y) \cup {LastWeekdayOfYear(y)}

(* Japan: a holiday on a Sunday is observed on Monday as well (for the ones  *)
(* that have a substitute); equinox days from the linear approximation.      *)
LeapDaysSince2000(y) == (y - 2000) \div 4 - (y - 2000) \div 100 + (y - 2000) \div 400
VernalEquinox(y) == (20691150 + 242194 * (y - 2000)) \div 1000000 - LeapDaysSince2000(y)
AutumnalEquinox(y) == (23090000 + 242194 * (y - 2000)) \div 1000000 - LeapDaysSince2000(y)
Sub(d, m, y) == SunToMon(Serial(d, m, y))
JapanHolidays(y) ==
    LET ae == AutumnalEquinox(y)
        aged == IF y >= 2003 THEN Nth(3, Mon, 9, y) ELSE Sub(15, 9, y)
    IN
    On(1, 1, y) \cup On(2, 1, y) \cup On(3, 1, y)
    \cup (IF y >= 2000 THEN Nth(2, Mon, 1, y) ELSE Sub(15, 1, y))       \* coming of age
    \cup Sub(11, 2, y)
    \cup When(y >= 2020, Sub(23, 2, y))
    \cup When(y \in 1989..2018, Sub(23, 12, y))
    \cup Sub(VernalEquinox(y), 3, y)
    \cup Sub(29, 4, y)
    \cup On(3, 5, y) \cup On(4, 5, y) \cup On(5, 5, y)
    \cup When(\E d \in 3..5 : Weekday(Serial(d, 5, y)) = Sun, On(6, 5, y))
    \cup (CASE y \in 2003..2019 \/ y >= 2022 -> Nth(3, Mon, 7, y)       \* marine day
            [] y \in 1996..2002 -> Sub(20, 7, y)
            [] y = 2020 -> On(23, 7, y)
            [] y = 2021 -> On(22, 7, y)
            [] OTHER -> {})
    \cup (CASE y \in 2016..2019 \/ y >= 2022 -> Sub(11, 8, y)           \* mountain day
            [] y = 2020 -> On(10, 8, y)
            [] y = 2021 -> On(9, 8, y)
            [] OTHER -> {})
    \cup aged
    \cup When(y >= 2003 /\ Serial(ae, 9, y) - 2 \in aged, {Serial(ae, 9, y) - 1})
    \cup Sub(ae, 9, y)
    \cup (CASE y \in 2000..2019 \/ y >= 2022 -> Nth(2, Mon, 10, y)      \* sports day
            [] y < 2000 -> Sub(10, 10, y)
            [] y = 2020 -> On(24, 7, y)
            [] y = 2021 -> On(23, 7, y))
    \cup Sub(3, 11, y) \cup Sub(23, 11, y) \cup On(31, 12, y)
    \cup When(y = 1959, On(10, 4, y)) \cup When(y = 1989, On(24, 2, y))
    \cup When(y = 1990, On(12, 11, y)) \cup When(y = 1993, On(9, 6, y))
    \cup When(y = 2019, On(30, 4, y) \cup On(1, 5, y) \cup On(2, 5, y) \cup On(22, 10, y))

------------------------------------------------------------------------------
EuropeanCalendars == {"TARGET", "UKSettlement", "UKExchange", "UKMetals", "Switzerland",
                      "ItalySettlement", "ItalyExchange"}
USCalendars == {"USSettlement", "USLibor", "USNyse", "USGovBond", "USNerc", "USFed"}
OtherCalendars == {"BrazilSettlement", "BrazilExchange", "Japan", "WeekendsOnly", "Null"}
AllCalendars == EuropeanCalendars \cup USCalendars \cup OtherCalendars

Specials(cal, y) ==
    CASE cal = "TARGET" -> TargetHolidays(y)
      [] cal \in {"UKSettlement", "UKExchange", "UKMetals"} -> UKHolidays(y)
      [] cal = "Switzerland" -> SwissHolidays(y)
      [] cal = "ItalySettlement" -> ItalySettlementHolidays(y)
      [] cal = "ItalyExchange" -> ItalyExchangeHolidays(y)
      [] cal = "USSettlement" -> USSettlementHolidays(y)
      [] cal = "USLibor" -> USLiborHolidays(y)
      [] cal = "USNyse" -> USNyseHolidays(y)
      [] cal = "USGovBond" -> USGovBondHolidays(y)
      [] cal = "USNerc" -> USNercHolidays(y)
      [] cal = "USFed" -> USFedHolidays(y)
      [] cal = "BrazilSettlement" -> BrazilSettlementHolidays(y)
      [] cal = "BrazilExchange" -> BrazilExchangeHolidays(y)
      [] cal = "Japan" -> JapanHolidays(y)
      [] OTHER -> {}
HasWeekends(cal) == cal # "Null"
Holidays(cal, y) == (IF HasWeekends(cal) THEN Weekends(y) ELSE {}) \cup Specials(cal, y)
(* the holidays lying inside the year (observed days may spill over) *)
HolidaysInYear(cal, y) == Holidays(cal, y) \cap YearDaysSet(y)

(* built-in rule as a predicate; tables are cached for the years in use *)
IsWeekendOf(cal, s) == HasWeekends(cal) /\ WeekendDay(s)
IsBuiltInHoliday(cal, s) == IsWeekendOf(cal, s) \/ s \in Specials(cal, YearOf(s))
=============================================================================
