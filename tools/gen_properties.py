#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long texts stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=["src/" + f for f in files],
            state=[dict(name=n, meaning=m, where="src/" + w) for n, m, w in state],
            mechanism=[dict(name=n, where="src/" + w) for n, w in mechanism],
            observe_at=list(observe), hook_needed=hook)))

prop("C01", "Serial numbers and Gregorian dates correspond one-to-one",
 "Every day from 1 January 1900 to 31 December 2199 has exactly one serial number (2 to 109574), building a date from its day, month and year or from its serial gives the same day, and consecutive serials are consecutive Gregorian days with consecutive weekdays (1 January 1900 is a Monday). The day, month, year, day of year, weekday, leap-year and month-end answers of every date follow the Gregorian calendar. A day, month, year or serial outside the supported range or outside its month is refused rather than turned into another date. Today's date, and the default evaluation date, are the current day.",
 ["inputs"], "all 109573 supported serial numbers, all (day, month, year) triples around month ends and range ends, and out-of-range serials",
 "The unit tests look at about a dozen dates; the leap and year-offset tables hold 300 independent literals each, any one of which can be wrong without a test noticing.",
 ["datetime/date.rs", "datetime/weekday.rs", "datetime/months.rs"],
 [("Date::new / Date::from_serial", "datetime/date.rs"), ("YEAR_OFFSET, YEAR_IS_LEAP, MONTH_* tables", "datetime/date.rs")],
 [("Date.serial_number / Date.date_time", "two redundant representations of one day", "datetime/date.rs")],
 ["Date::new", "Date::from_serial", "accessors", "end_of_month", "is_leap"])

prop("C02", "Date arithmetic moves by exactly the period asked for",
 "Adding or subtracting days or weeks moves by exactly that many days, and adding or subtracting months or years moves to the month that many months away, keeping the day of the month or, if that month is shorter, its last day. The operator, by-reference and in-place forms agree with each other, and after any sequence of such updates the date's serial number, calendar fields, comparison, equality, hash and day differences still describe one and the same day. A move that would leave the supported range is refused, never answered with some date.",
 ["inputs", "histories"], "all start dates near month ends and range ends, all units and signed lengths, and all sequences of in-place updates",
 "Tests add a handful of periods to a handful of dates; clamping, negative lengths, century leap years, mixed in-place histories and range ends are a product space.",
 ["datetime/date.rs", "datetime/period.rs"],
 [("Date::advance and the Add/Sub/AddAssign/SubAssign impls", "datetime/date.rs")],
 [("Date.serial_number / Date.date_time", "must stay in step across in-place updates", "datetime/date.rs")],
 ["date + period", "date += period", "date + n", "date - date"])

prop("C03", "The n-th weekday of a month is the right day or is refused",
 "Asking for the n-th given weekday of a month returns the date of that month which falls on that weekday and is preceded in the month by exactly n-1 such days. If the month has fewer than n of them, or n is zero or more than five, the request is refused.",
 ["inputs"], "every month of 1900-2199, every weekday, n from 0 to 7",
 "Tests probe a few months; the result depends on the weekday of the first of the month, the month length and n.",
 ["datetime/date.rs"], [("Date::nth_weekday", "datetime/date.rs")], (), ["Date::nth_weekday"])

prop("C04", "Easter Monday tables equal the ecclesiastical computus",
 "For every year from 1900 to 2199 the reported Western Easter Monday and Orthodox Easter Monday, given as day of the year, equal the day after Easter Sunday computed by the Gregorian and Julian computus respectively. All places that offer these dates give the same answers.",
 ["inputs"], "all 300 years, both churches, both published copies of the tables",
 "The tables are 1200 literals; no test reads more than a few of them and a wrong entry silently moves several holidays of several calendars.",
 ["datetime/calendar.rs", "datetime/holiday.rs"],
 [("easter_monday / easter_monday_orthodox", "datetime/calendar.rs"), ("easter_monday / easter_monday_orthodox", "datetime/holiday.rs")], (),
 ["easter_monday(year)", "easter_monday_orthodox(year)"])

_calwhy = "Tests list the holidays of a few years of three calendars; moved holidays depend on the weekday the date falls on, on Easter and on the year, so most rule branches are never sampled."
prop("C05", "European market calendars close exactly on their documented holidays",
 "The TARGET, United Kingdom (settlement, exchange, metals), Swiss and Italian (settlement, exchange) calendars treat a day as a holiday exactly when it is a Saturday or Sunday or one of the fixed-date, Easter-linked, moved-to-Monday or one-off holidays documented for that market and year. Weekends are never business days.",
 ["inputs", "configurations"], "every day of 1900-2199 for each of the 7 calendars", _calwhy,
 ["datetime/holidays/target.rs", "datetime/holidays/unitedkingdom.rs", "datetime/holidays/switzerland.rs", "datetime/holidays/italy.rs", "datetime/weekend.rs"],
 [("is_business_day of each market", "datetime/holidays/unitedkingdom.rs")], (), ["Calendar::is_holiday", "Calendar::holiday_list", "Calendar::business_day_list"])
prop("C06", "US market calendars close exactly on their documented holidays",
 "The US settlement, Libor-impact, NYSE, government-bond, NERC and Federal Reserve calendars treat a day as a holiday exactly when it is a Saturday or Sunday, or one of the federal or exchange holidays documented for that market in that year, on the day it is observed under that market's weekend-moving rule, or a documented special closing. Weekends are never business days.",
 ["inputs", "configurations"], "every day of 1900-2199 for each of the 6 calendars", _calwhy,
 ["datetime/holidays/unitedstates.rs", "datetime/weekend.rs"],
 [("is_business_day of each market, is_settlement_business_day", "datetime/holidays/unitedstates.rs")], (), ["Calendar::is_holiday", "Calendar::holiday_list"])
prop("C07", "Brazilian, Japanese, weekends-only and null calendars follow their rules",
 "The Brazilian settlement and exchange calendars, the Japanese calendar, the weekends-only calendar and the null calendar treat a day as a holiday exactly when their documented rules say so: weekends (except in the null calendar), fixed, Easter-linked, n-th-Monday, substitute and one-off holidays, and for Japan the equinox days given by the published linear equinox approximation with Gregorian leap days counted correctly. The null calendar has neither holidays nor weekends.",
 ["inputs", "configurations"], "every day of 1900-2199 for each of the 5 calendars", _calwhy,
 ["datetime/holidays/brazil.rs", "datetime/holidays/japan.rs", "datetime/holidays/weekendsonly.rs", "datetime/holidays/nilholiday.rs"],
 [("is_business_day of each market", "datetime/holidays/japan.rs")], (), ["Calendar::is_holiday", "Calendar::holiday_list"])

prop("C08", "User holiday overrides are honoured by every calendar query until reset",
 "After any history of adding holidays, removing holidays and resetting, a day is a holiday exactly when it was last added, or is a built-in holiday that was not last removed; a reset restores the built-in rules. Every query - holiday test, holiday list, business-day list, adjustment, advancing, month end and business-day count - answers according to that same set, the reported override sets contain exactly the days whose status differs from the built-in rule, and other calendar instances, including copies taken earlier, are unaffected.",
 ["histories", "inputs"], "all histories of add/remove/reset over a set of days of both kinds, on every calendar, with every query after every step",
 "Only the add/remove path of one test is exercised, and only through one list query; the property is about every interleaving and every query seeing the same set.",
 ["datetime/calendar.rs"],
 [("add_holiday / remove_holiday / reset", "datetime/calendar.rs"), ("is_business_day / is_holiday", "datetime/calendar.rs")],
 [("added_holidays, removed_holidays", "user overrides relative to the market rule", "datetime/calendar.rs")],
 ["is_holiday", "holiday_list", "business_day_list", "adjust", "advance", "end_of_month", "business_days_between"])

prop("C09", "Business-day adjustment lands on the day its convention prescribes",
 "Adjusting a date that is a business day, or with the unadjusted convention, returns it unchanged; otherwise the result is a business day chosen as the convention says: the next (following) or previous (preceding) one, the same but turned back in the other direction when the month (modified) or also mid-month (half-month modified) would be crossed, or the nearest one with ties going forward. Adjusting an already adjusted date changes nothing.",
 ["inputs", "configurations"], "every date, convention and holiday pattern, including runs of holidays across month ends and mid-month",
 "Tests adjust a handful of dates in real calendars where long holiday runs across a month end or the 15th hardly occur.",
 ["datetime/calendar.rs", "datetime/businessdayconvention.rs"], [("Calendar::adjust", "datetime/calendar.rs")], (), ["Calendar::adjust"])
prop("C10", "Advancing by a period counts business days or adjusts the calendar date",
 "Advancing by n days moves over exactly n business days in the direction of the sign, always ending on a business day; advancing by zero just adjusts; advancing by weeks, months or years moves the calendar date by that period and then adjusts by the given convention. With the end-of-month option, a start on or after the last business day of its month yields, for months and years, the last business day of the target month.",
 ["inputs", "configurations"], "all dates, signed lengths, units, conventions, end-of-month flags and holiday patterns",
 "Tests advance over a handful of cases; month ends that are holidays, negative steps and end-of-month combinations are unsampled.",
 ["datetime/calendar.rs"], [("Calendar::advance_by_days / advance_by_period", "datetime/calendar.rs"), ("Calendar::is_end_of_month / end_of_month", "datetime/calendar.rs")], (),
 ["advance_by_days", "advance_by_period"])
prop("C11", "Holiday lists, business-day lists and counts partition every interval",
 "Over any interval the holiday list (with weekends) and the business-day list are ascending, disjoint and together contain every day exactly once, and leaving weekends out removes exactly the weekend days. The number of business days between two dates equals the number of listed business days after applying the include-first and include-last choices, and swapping the two dates flips its sign. The month-end queries agree: the reported month end is the last business day of the month, and a date is at month end exactly when it is not before that day.",
 ["inputs", "configurations"], "all intervals (forward, reversed, single-day), all four include flags, all calendars",
 "Tests count one or two intervals; end points that are holidays, equal or reversed dates and the flag combinations are not covered.",
 ["datetime/calendar.rs"], [("holiday_list / business_day_list / business_days_between / end_of_month / is_end_of_month", "datetime/calendar.rs")], (),
 ["holiday_list", "business_day_list", "business_days_between", "end_of_month", "is_end_of_month"])

prop("C12", "Period arithmetic preserves the length of time it denotes",
 "Adding, subtracting, negating, multiplying, dividing and normalising periods give a period denoting the exact resulting amount (12 months to a year, 7 days to a week), in a unit able to express it (negating and multiplying keep the unit, and so does dividing where the length divides exactly); normalising turns whole years of months into years and whole weeks of days into weeks and changes nothing else. Operations that would mix months-or-years with days-or-weeks (neither being empty), or that cannot divide exactly even after converting to months or days, are refused; converting a period to years, months, weeks or days gives its exact amount within its own family of units and is refused for the other.",
 ["inputs"], "all pairs of periods in days, weeks, months, years with signed and zero lengths, all multipliers and divisors",
 "Tests walk a fixed grid of positive multiples; signs, zeros, mixed units and refusals are not covered.",
 ["datetime/period.rs"], [("AddAssign, SubAssign, DivAssign, Mul, Neg, normalise, years/months/weeks/days", "datetime/period.rs")], (), ["Period operators"])
prop("C13", "Period comparison is consistent with elapsed time",
 "Comparing periods is antisymmetric, equality means neither is smaller, and equal periods hash equally. Two periods compare by exact amount within months-and-years or within days-and-weeks and against a zero period; across the two families one is smaller than the other whenever its longest possible number of days is below the other's shortest. Hence, whenever the comparison is unambiguous in this sense, adding the smaller period to any date never gives a later date than adding the larger one.",
 ["inputs"], "all pairs of periods with signed and zero lengths in all calendar units",
 "Tests compare positive periods on a fixed grid; zero and negative lengths and the cross-family limits are not covered.",
 ["datetime/period.rs"], [("PartialOrd/PartialEq for Period, days_min_max", "datetime/period.rs")], (), ["<, >, ==, partial_cmp"])
prop("C14", "Frequencies and periods translate back and forth",
 "Turning a payment frequency into a period and back gives the same frequency, for every frequency except the unspecified one; the period spans exactly one payment interval. Turning a period into a frequency answers the frequency named for exactly that period - stated in its own unit (1 day; 1, 2 or 4 weeks; 1, 2, 3, 4, 6 or 12 months; 1 year) - and reports an unspecified frequency when there is none (no frequency or once for an empty period), and never fails; frequencies survive the conversion to and from their integer codes.",
 ["inputs"], "all frequencies; all periods with lengths -100..1000 in days, weeks, months and years",
 "Tests convert the named frequencies one way only.",
 ["datetime/period.rs", "datetime/frequency.rs"], [("From<Frequency> for Period, Period::frequency", "datetime/period.rs"), ("From<Integer> for Frequency", "datetime/frequency.rs")], (), ["Period::from(Frequency)", "Period::frequency", "Frequency::from"])

prop("C15", "A generated schedule is an increasing date grid with its requested ends",
 "Every schedule that is produced has strictly increasing dates, one regularity flag per interval, and, for rules that do not move them, starts at the effective date and ends at the termination date adjusted by their respective conventions, or moved to the last (business) day of their month under the end-of-month option. All intermediate dates are business days of the given calendar whenever the convention adjusts. The flags are false only for the first and last intervals or next to an explicitly given first or next-to-last date.",
 ["configurations", "inputs"], "all combinations of dates, tenor, calendar, convention, termination convention, rule, end-of-month flag, optional first and next-to-last dates",
 "Tests generate about twenty schedules; the ten arguments interact at dates that collide after adjustment, month ends and stubs.",
 ["datetime/schedule.rs", "datetime/schedulebuilder.rs"], [("Schedule::new", "datetime/schedule.rs")],
 [("dates, is_regular", "the grid and the per-interval regularity", "datetime/schedule.rs")], ["dates()", "size()", "is_regular(i)", "start_date", "end_date"])
prop("C16", "Schedule dates are the seed stepped by whole tenors, with stubs at one end",
 "Generating backward (forward), the unadjusted intermediate dates are exactly the termination or next-to-last date minus (effective or first date plus) 1, 2, 3... tenors lying inside the schedule, each then adjusted by the convention; zero-coupon generation has no intermediate dates. With the end-of-month option and a seed at the end of its month, intermediate dates are month ends; dates that collide after adjustment are merged; an interval is flagged regular exactly when it is a whole-tenor step before adjustment. A backward schedule given no effective date starts a whole number of years before its last given date. Inconsistent explicit first or next-to-last dates are refused.",
 ["configurations", "inputs"], "all effective/termination dates, tenors in all units, calendars, conventions, end-of-month flag, first and next-to-last dates, for the backward, forward and zero rules",
 "The tests' schedules cover a few point combinations; stub handling, end-of-month seeds and merges appear only for specific date constellations.",
 ["datetime/schedule.rs"], [("Schedule::new: Backward, Forward, Zero branches; end-of-month and duplicate handling", "datetime/schedule.rs")],
 [("dates, is_regular", "the grid and the per-interval regularity", "datetime/schedule.rs")], ["dates()", "is_regular(i)"])
prop("C17", "CDS, twentieth and third-Wednesday schedules follow their market rules",
 "Third-Wednesday schedules have every intermediate date (the inclusive variant: the ends too) on a third Wednesday before adjustment; for tenors of whole months the twentieth rules put every date but the first on the 20th, and for whole-quarter tenors the IMM variants only in March, June, September and December. The old CDS rule leaves at least 30 days from the effective date to the first such 20th; the current credit rules start on the adjusted 20th of a quarter month on or before the effective date, and end, unadjusted, on the first such 20th on or after the termination date. These rules refuse the end-of-month option and explicit stub dates other than third Wednesdays for the third-Wednesday rule.",
 ["configurations", "inputs"], "all effective/termination dates and tenors for the seven special rules, with calendars, conventions and optional first/next-to-last dates",
 "The CDS tests fix trade dates and tenors of one standard; other rules and non-standard effective dates are unsampled.",
 ["datetime/schedule.rs"], [("Schedule::new special rules, next_twentieth, previous_twentieth", "datetime/schedule.rs")], (), ["dates()", "is_regular(i)", "previous_twentieth"])
prop("C18", "Truncating and searching a schedule keeps exactly the right dates",
 "Cutting a schedule after (or until) a date strictly inside keeps exactly the schedule dates later (earlier) than it and makes the cut date the new first (last) date; the regularity of untouched intervals is kept, an interval cut in the middle becomes irregular and a cut on a schedule date leaves its neighbours' regularity alone. A cut outside leaves the schedule as is or is refused when nothing would remain. Searching for the next or previous date returns the nearest schedule date on the right side of the reference.",
 ["inputs", "histories"], "all schedules, cut dates on, between, before and after schedule dates, repeated and mixed cuts",
 "Tests truncate three schedules at chosen dates.",
 ["datetime/schedule.rs"], [("Schedule::after / until / next_date / previous_date", "datetime/schedule.rs")],
 [("dates, is_regular", "the truncated grid", "datetime/schedule.rs")], ["after", "until", "next_date", "previous_date"])
prop("C19", "The schedule builder means the same as naming every argument",
 "Building a schedule with the fluent builder gives the same schedule as passing all arguments explicitly, with defaults for whatever was not set: the following convention, the termination convention equal to the convention, the backward rule, no end-of-month and no explicit first or next-to-last date. The order in which different options are set does not matter and a repeated setting keeps the last value.",
 ["histories", "configurations"], "all subsets, orders and repetitions of builder calls",
 "Tests use a few fixed call chains in one order.",
 ["datetime/schedulebuilder.rs"], [("ScheduleBuilder setters and build", "datetime/schedulebuilder.rs")],
 [("ScheduleBuilder option fields", "options set so far", "datetime/schedulebuilder.rs")], ["ScheduleBuilder::build"])

prop("C20", "IMM dates, codes and successors agree with each other",
 "A date is an IMM date exactly when it is the third Wednesday of its month, for the main cycle only in March, June, September and December; a code is valid exactly when it is one month letter and one digit, case-insensitively. Each IMM date turns into a code that turns back into that date for any reference date within the decade before it, and the next IMM date or code after a date is the first one strictly later.",
 ["inputs"], "all dates 1900-2199, all codes, all reference dates, main and full cycle, arbitrary strings as codes",
 "One test walks a few decades of next dates and a short list of codes.",
 ["datetime/imm.rs"], [("IMM::is_imm_date, is_imm_code, code, date, next_date, next_code", "datetime/imm.rs")], (), ["IMM functions"])
prop("C21", "Standard CDS maturities roll on the market's roll dates",
 "The standard maturity for a trade date and tenor is the 20th of the IMM month (or its pre-2015 variant) reached from the roll date in force plus the tenor: under the 2015 rule the roll happens only on 20 March and 20 September. A maturity is always after the trade date, never moves backward as the trade date advances or as the tenor lengthens, and requests without a standard maturity are refused or reported as absent.",
 ["inputs"], "all trade dates, all tenors of whole years and quarters, the three credit rules",
 "Tests contain a table of selected trade dates and tenors.",
 ["instruments/creditdefaultswap.rs", "datetime/schedule.rs"], [("cds_maturity", "instruments/creditdefaultswap.rs"), ("previous_twentieth", "datetime/schedule.rs")], (), ["cds_maturity"])

prop("C22", "30/360-type day counts follow their convention for every pair of dates",
 "For every ordered or reversed pair of dates the US, bond-basis, European, Italian, German (ISDA), NASD and 30/365 day counts equal 360*years + 30*months + days after that convention's month-end corrections, and the year fraction is that count over 360 (365). No pair of supported dates makes a day count fail.",
 ["inputs"], "all pairs of dates, in both orders, including Februaries and the 28th-31st of every month, and any termination date for the ISDA variant",
 "Tests use published example tables of ordered pairs.",
 ["datetime/daycounters/thirty360.rs", "datetime/daycounters/thirty365.rs", "datetime/daycounter.rs"],
 [("day_count of each convention", "datetime/daycounters/thirty360.rs"), ("day_count", "datetime/daycounters/thirty365.rs")], (), ["DayCounter::day_count", "DayCounter::year_fraction"])
prop("C23", "Actual, simple and one-period day counters give the defined fractions",
 "Actual/360 and Actual/366 count the real, signed number of days over a fixed basis, so their fractions add up over adjoining intervals and change sign when the dates are swapped; with the last day included the count is one more; the simple counter gives exact twelfths for dates on the same day of the month or month ends and otherwise behaves like 30/360; the one-period counter gives plus or minus one by date order.",
 ["inputs"], "all pairs and triples of dates, both last-day options",
 "Tests check a few pairs per counter.",
 ["datetime/daycounters/actual360.rs", "datetime/daycounters/actual366.rs", "datetime/daycounters/simple.rs", "datetime/daycounters/one.rs", "datetime/daycounter.rs"],
 [("day_count / year_fraction", "datetime/daycounters/actual360.rs"), ("Simple::year_fraction", "datetime/daycounters/simple.rs")], (), ["DayCounter::day_count", "DayCounter::year_fraction"])
prop("C24", "Actual/actual ISDA and Euribor fractions weigh each day by its year",
 "The ISDA fraction weighs every day by one over the length of the calendar year it lies in, so it adds up over adjoining intervals; the AFB (Euribor) fraction counts whole years backward from the end date and divides the remaining days by 366 exactly when they include a 29 February. Both are zero for equal dates and change sign when the dates are swapped.",
 ["inputs"], "all pairs and triples of dates",
 "Tests check published examples.",
 ["datetime/daycounters/actualactual.rs"], [("ActualActualISDA / ActualActualAFB year_fraction", "datetime/daycounters/actualactual.rs")], (), ["DayCounter::year_fraction"])
prop("C25", "Actual/actual ISMA fractions weigh days within their reference period",
 "Within a reference period the ISMA fraction is the days elapsed over (coupons per year times the days in the period); over several reference or notional periods the parts are added, so a whole regular period counts exactly one coupon interval. With an explicit schedule, irregular first and last periods are measured against up to two notional periods of the schedule's tenor, dates beyond them are refused, fractions add up over adjoining intervals inside the schedule and swapping dates flips the sign.",
 ["inputs", "configurations"], "date pairs inside and around reference periods of 1-12 months; schedules with regular, short and long first and last periods",
 "Tests check published examples and one or two schedules.",
 ["datetime/daycounters/actualactual.rs"], [("ActualActualISMA / ActualActualOldISMA year_fraction and schedule helpers", "datetime/daycounters/actualactual.rs")], (), ["DayCounter::year_fraction_with_reference", "DayCounter::year_fraction"])

prop("C26", "A fixed-rate leg has one correctly dated coupon per schedule period",
 "A leg built from a schedule has one coupon per schedule interval, in order, each accruing from one schedule date to the next, paid on the interval's end moved by the payment calendar, convention and lag, with the ex-coupon date derived from the payment date. Notionals and rates are taken by position, the last given one repeating; regular coupons use their own interval as reference period and irregular first and last coupons a full-tenor reference period. Setting an option again replaces the earlier value.",
 ["configurations", "histories"], "all schedules with and without stubs, notional and rate vectors shorter, equal or longer than the number of periods, payment lags, calendars and ex-coupon settings, in any setter order",
 "Tests build two or three legs.",
 ["cashflows/fixedrateleg.rs", "cashflows/fixedratecoupon.rs"], [("FixedRateLeg setters and build", "cashflows/fixedrateleg.rs")],
 [("FixedRateLeg fields", "leg terms collected so far", "cashflows/fixedrateleg.rs")], ["FixedRateLeg::build and coupon accessors"])
prop("C27", "Accrued interest grows from zero to the coupon and turns negative ex-coupon",
 "A coupon's accrued interest is zero up to its accrual start and after its payment date; in between it equals notional times the interest earned over the days elapsed since the accrual start, capped at the accrual end, where it equals the coupon amount. When the coupon trades ex-coupon, the accrued amount and period are the negative of those from the settlement date to the accrual end; the accrued days remain those since the accrual start, capped at the accrual end.",
 ["inputs"], "all coupons (day counter, rate, notional, dates) and every settlement date before, inside and after the accrual period",
 "Tests compute accrual on a handful of dates.",
 ["cashflows/fixedratecoupon.rs", "cashflows/coupon.rs"], [("FixedRateCoupon::amount / accrued_amount", "cashflows/fixedratecoupon.rs"), ("Coupon::accrued_period / accrued_days", "cashflows/coupon.rs")], (), ["amount", "accrued_amount", "accrued_period", "accrued_days"])
prop("C28", "Cash-flow queries pick exactly the flows still to come",
 "A cash flow has occurred exactly when its date is before the reference date, or equal to it unless flows on that date are included; it trades ex-coupon from its ex-coupon date on, whether accessed directly or through the leg. The next cash flow of a leg is the first that has not occurred, the leg's maturity is the latest accrual end of its coupons or date of its other flows, and leg-level accrued amount, period and days are those of the coupons paid with the next cash flow.",
 ["inputs", "histories"], "all legs, all reference dates on, between, before and after payment and ex-coupon dates, both inclusion choices",
 "Tests query a few dates on a few legs.",
 ["cashflows/cashflow.rs", "cashflows/simplecashflow.rs", "cashflows/coupon.rs"], [("has_occurred, trading_ex_coupon, next_cashflow, maturity_date, accrued_*", "cashflows/cashflow.rs")], (), ["cashflow module functions", "CashFlow trait"])
prop("C29", "A bond's life follows its cash flows",
 "A bond's notional at any date is what has not been redeemed by then, zero once matured; it can be traded exactly while its notional is not zero; its maturity is the end of its schedule, or the maturity a zero-coupon bond was given, and it is redeemed on that date moved by its calendar and convention. Its cash flows are its coupons in date order followed by redemptions repaying the face value (times the redemption percentage), a zero-coupon bond having the redemption only. Settlement is the given number of business days after the evaluation date, never before the issue date.",
 ["configurations", "histories"], "all fixed-rate and zero-coupon bonds built from schedules, calendars, settlement days and redemption, over the advance of the evaluation date through the whole life",
 "Tests price two bonds on one evaluation date.",
 ["instruments/bond.rs", "instruments/fixedratebond.rs", "instruments/zerocouponbond.rs", "pricingengines/bond/bondfunctions.rs"],
 [("Bond::notional, settlement_date, cashflows, redemptions", "instruments/bond.rs"), ("bondfunctions::is_tradeable, accrued_*", "pricingengines/bond/bondfunctions.rs")],
 [("notional schedule, notionals, cash flows, redemptions", "what is still owed at each date", "instruments/bond.rs")], ["Bond accessors"])
prop("C30", "Present value discounts exactly the flows still to come",
 "The present value of a set of cash flows at a yield is the sum, over flows that have not occurred at the settlement date and do not trade ex-coupon, of the amount discounted from its payment date, from one flow to the one before it, back to the valuation date; so at a zero yield it is the plain sum, it is linear in the amounts, and it falls when the yield rises if all remaining flows are positive. The modified duration is the relative fall, per unit of yield, of the value of those flows each discounted over its whole time to the valuation date, which for compounded and continuous yields is the present value. Clean price plus accrued interest is the dirty price, per 100 of notional; the accrued interest of a bond that can be traded is that of its coupons.",
 ["inputs", "configurations"], "all flow lists, yields, compounding conventions, settlement and valuation dates",
 "Tests check a handful of published prices.",
 ["cashflows/cashflow.rs", "pricingengines/bond/bondfunctions.rs", "instruments/bond.rs"], [("cashflow::npv, modified_duration", "cashflows/cashflow.rs"), ("bondfunctions::bond_yield", "pricingengines/bond/bondfunctions.rs")], (), ["cashflow::npv", "Bond prices"])
prop("C31", "The yield found for a price reprices to that price",
 "Whenever a yield is reported for cash flows and a price, pricing the remaining flows at that yield gives the price back within tolerance, the yield of a bond priced at a known yield is that yield, and higher prices give lower yields. Searches start from a guess from which they do not leave the yields that have a price. A price no yield can explain, because no remaining flow has its sign, is refused, and no other is for that reason.",
 ["inputs", "configurations"], "all flow lists with positive flows, prices from deep discount to high premium, compounding conventions and settlement dates",
 "Tests check a table of published yields.",
 ["cashflows/irrfinder.rs", "cashflows/cashflow.rs", "pricingengines/bond/bondfunctions.rs"], [("IrrFinder::at / derivative / check_sign", "cashflows/irrfinder.rs"), ("cashflow::bond_yield", "cashflows/cashflow.rs")], (), ["bond_yield"])
prop("C32", "Interest rates convert consistently between compounding conventions",
 "The compound factor of a rate over a time follows its convention (simple, compounded n times a year, continuous, and the two mixed conventions that switch at the first compounding period), is one at time zero and its reciprocal is the discount factor. The rate implied by a compound factor reproduces that factor, an equivalent rate in another convention gives the same factor over the same time, and invalid combinations of convention and frequency, negative times and non-positive factors are refused.",
 ["inputs", "configurations"], "all rates, times, compounding conventions and frequencies, with dates and with times",
 "Tests use a published table of conversions at 4-digit accuracy.",
 ["rates/interestrate.rs", "rates/compounding.rs"], [("compound_factor, discount_factor, implied_rate, equivalent_rate", "rates/interestrate.rs")], (), ["InterestRate methods"])

prop("C33", "Root finders only report roots of the function they were given",
 "Whenever a solver returns, the result lies within the bracket it was given or established and within any enforced bounds, and it is a root to the requested accuracy: the function is zero there or changes sign within that distance. It evaluates the function only inside those bounds, at most about its evaluation limit, gives up a well-posed search only when that limit is used up, and refuses brackets without a sign change, reversed brackets, guesses outside the bracket, violated bounds and non-positive accuracy.",
 ["inputs", "histories"], "all continuous functions with a bracketed root (monotone, non-monotone, flat, steep, discontinuous), all brackets, guesses, steps, accuracies and enforced bounds, for each solver",
 "Tests solve four formulas with three accuracies.",
 ["maths/solvers1d/solver1d.rs", "maths/solvers1d/brent.rs", "maths/solvers1d/newtonsafe.rs", "maths/solvers1d/finitedifferencenewtonsafe.rs"],
 [("Solver1D::solve / solve_bracketed, solve_impl", "maths/solvers1d/solver1d.rs")],
 [("bracket and root estimate", "sign-changing interval maintained by the search", "maths/solvers1d/solver1d.rs")], ["sequence of evaluated points", "returned root"])
prop("C34", "Linear interpolation is the piecewise line through its nodes",
 "The interpolated value equals the node value at every node and lies on the straight segment between neighbouring nodes elsewhere; the derivative is that segment's slope (the right-hand one at an inner node, the last segment's at the last node), the second derivative is zero and the primitive is the exact area from the first node. Outside the nodes the query is refused unless extrapolation is allowed, in which case the end segments are prolonged.",
 ["inputs"], "all increasing node sets and values, query points at, between and outside the nodes",
 "Tests query one equispaced line-like data set.",
 ["maths/interpolations/linearinterpolation.rs", "maths/bounds.rs"], [("LinearInterpolation::value/derivative/primitive/locate", "maths/interpolations/linearinterpolation.rs")], (), ["Interpolation trait methods"])
prop("C35", "Lagrange interpolation is the unique polynomial through its nodes",
 "Through n nodes the interpolated value is that of the unique polynomial of degree below n taking the node values, and the derivative is that polynomial's derivative, at nodes (including one at zero) as well as between them. Outside the nodes the query is refused unless extrapolation is allowed.",
 ["inputs"], "all increasing node sets (any signs, including zero) and values; query points at, between and outside nodes",
 "Tests use one set of equally spaced nodes and a Runge-like function.",
 ["maths/interpolations/lagrangeinterpolation.rs"], [("LagrangeInterpolation::value/derivative", "maths/interpolations/lagrangeinterpolation.rs")], (), ["value", "derivative"])
prop("C36", "Rounding follows the chosen OMG rule at the chosen digit",
 "Rounding to a precision keeps a value already representable at that precision, returns one of its two neighbours at that precision otherwise, and picks it by the rule: away from zero (up), toward zero (down), away from zero exactly when the dropped fraction reaches the rounding digit (closest), or that rule applied to positive numbers only (floor) or to negative numbers only (ceiling). Except for the floor and ceiling rules, rounding a negated value negates the result; no rounding returns the value itself.",
 ["inputs"], "all exactly representable values, signs, precisions and rounding digits",
 "Tests use one table of 16 values per rule with digit 5.",
 ["maths/rounding.rs"], [("Rounding::round", "maths/rounding.rs")], (), ["Rounding::round"])
prop("C37", "Sorted-slice bounds bracket the sought value",
 "On a sorted slice the lower bound is the number of elements smaller than the value and the upper bound the number of elements not larger than it, so the elements between the two bounds are exactly those equal to the value.",
 ["inputs"], "all sorted slices, with repetitions and of any length, and all values",
 "Tests probe one slice without repetitions.",
 ["maths/bounds.rs"], [("lower_bound / upper_bound", "maths/bounds.rs")], (), ["lower_bound", "upper_bound"])
prop("C38", "Array arithmetic acts element by element on arrays of equal size",
 "Adding, subtracting, multiplying or dividing two arrays, or an array and a number, negation and absolute value act on each position independently and preserve the size; the dot product is the sum of the position-wise products and the norm the root of the dot product with itself. Operations on arrays of different sizes are refused, and swapping exchanges the whole contents.",
 ["inputs", "histories"], "all arrays of small exact values, all operation sequences",
 "Tests apply each operator to one pair of arrays.",
 ["maths/array.rs"], [("operator impls, dot_product, norm2, swap", "maths/array.rs")], (), ["Array operators"])
prop("C39", "Closeness tests are symmetric relative comparisons",
 "Two numbers are close when they differ by no more than the tolerance times the smaller of their magnitudes, close enough when by no more than the tolerance times the larger, the tolerance being the stated multiple of machine precision; equal numbers, including infinities, are always close and a number is close to zero only when below the squared tolerance. Both tests are symmetric and closeness implies being close enough.",
 ["inputs"], "all pairs of floating-point numbers a whole number of units in the last place apart, zero, tiny values and infinities",
 "No test exercises them directly.",
 ["maths/comparison.rs"], [("close, close_n, close_enough", "maths/comparison.rs")], (), ["close", "close_n", "close_enough"])
prop("C40", "Every currency carries its ISO identity",
 "Each provided currency reports the name, three-letter code and (where it has one) numeric code documented for it, no two distinct currencies share a code or a name or compare equal, and its symbols, number of fractions per unit and rounding convention (the euro: to the closest cent; the others: none) are the documented ones. Money keeps exactly the amount and currency it was built with, and quotes and instruments valued by a quote report the value that quote has when asked.",
 ["configurations", "histories"], "all currencies offered, all amounts, and all histories of quotes moving and instruments being valued",
 "Only a few are constructed in tests.",
 ["currencies/currency.rs", "currencies/europe.rs", "currencies/asia.rs", "currencies/america.rs", "currencies/africa.rs", "currencies/oceania.rs", "currencies/money.rs"],
 [("per-currency constructors", "currencies/europe.rs")], (), ["Currency accessors"])

prop("C41", "Day counters and calendars are known by the name of their convention or market",
 "Every day counter reports the name of its convention (for example Actual/360, Actual/360 (inc), 30/360 (US), 30E/360 (ISDA), Actual/Actual (AFB)), its written form is that name, and alternative constructors of one convention report the same one. Two day counters compare equal exactly when their names are the same, and counters of a convention that has no further data give the same results when they are equal. A copy is equal to its original and counts alike. Every calendar reports the name of its market (for example TARGET, London stock exchange, US settlement), no two markets share one, and copies and holidays added or removed leave it as it is.",
 ["configurations", "inputs"], "all pairs of day counters the library offers, with any schedule or termination date",
 "Tests look at the results of single counters, never at their names or whether two of them are equal; coupons and rates compare them.",
 ["datetime/daycounter.rs", "datetime/daycounters/actual360.rs", "datetime/daycounters/actual366.rs", "datetime/daycounters/actualactual.rs", "datetime/daycounters/one.rs", "datetime/daycounters/simple.rs", "datetime/daycounters/thirty360.rs", "datetime/daycounters/thirty365.rs", "datetime/calendar.rs", "datetime/holiday.rs"],
 [("DayCounter::name, Debug, PartialEq", "datetime/daycounter.rs"), ("name of each convention", "datetime/daycounters/thirty360.rs"), ("Calendar::name", "datetime/calendar.rs"), ("name of each market", "datetime/holiday.rs")], (), ["DayCounter::name", "Calendar::name", "format!(\"{:?}\")", "==", "clone"])
prop("C42", "Written forms and integer codes denote the value they came from",
 "The written form of a date is its ISO date (year-month-day, at most followed by midnight UTC), of a period its signed length followed by the letter of its unit (D, W, M, Y; H, m, s, ms, us for parts of days), and of a schedule the ISO dates of exactly its dates, in order. Months convert to and from the numbers 1 to 12 and weekdays 1 (Sunday) to 7 (Saturday, also 0), other numbers are refused, weekdays are ordered by their numbers, and the IMM month letters F to Z carry the numbers of their months. A time in years converts to the nearest whole number of days of a year of the given length, 360 unless stated.",
 ["inputs"], "all dates, periods and schedules; all integer codes, valid or not; positive and negative times",
 "Tests never read a printed form back and convert only the valid codes.",
 ["datetime/date.rs", "datetime/period.rs", "datetime/schedule.rs", "datetime/months.rs", "datetime/weekday.rs", "datetime.rs"],
 [("Debug for Date, Period, Schedule", "datetime/schedule.rs"), ("From conversions of Month and Weekday", "datetime/months.rs"), ("time_to_days", "datetime.rs")], (), ["format!(\"{:?}\")", "Month::from", "Weekday::from", "time_to_days"])
prop("C43", "Curves derive discounts and forwards from what they are given",
 "The discount factor of a curve at a date is the one it gives for the time of that date from its reference date, with the same permission to extrapolate; the forward rate over a period from a date is the one between that date and that date moved by the period, with the same day counter, compounding, frequency and permission to extrapolate, and is refused when the period leads out of the supported dates. A curve given by zero yields discounts by the continuously compounded zero yield of that very time, and by one at time zero.",
 ["inputs", "configurations"], "all curves (any reference date, day counter, level and slope), all dates before and after the reference date, all periods, and all times",
 "No test exercises the derived queries of the curve interfaces at all.",
 ["termstructures/yieldtermstructure.rs", "termstructures/zeroyieldstructure.rs", "termstructures/termstructure.rs"],
 [("discount_from_date / forward_rate_from_date_period", "termstructures/yieldtermstructure.rs"), ("ZeroYieldStructure::discount", "termstructures/zeroyieldstructure.rs")], (), ["what the curve is asked", "what is returned"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P))
