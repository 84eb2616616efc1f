From 5895bd7e9dbb42eebb87f7c177d76744cf51e93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:20 +0000
Subject: [PATCH 01/27] fix: Calendar::is_holiday honours added and removed
 holidays

The holiday test, and with it adjust, advance, holiday_list and the month-end
queries, looked at the market rule only, so user overrides were visible to
business_day_list and business_days_between but not to the others.
---
 src/datetime/calendar.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/datetime/calendar.rs b/src/datetime/calendar.rs
index 25a16a4..0e7a030 100644
--- a/src/datetime/calendar.rs
+++ b/src/datetime/calendar.rs
@@ -65,7 +65,7 @@ impl Calendar {
 
     /// Returns `true` iff the date is a holiday for the given market
     pub fn is_holiday(&self, date: &Date) -> bool {
-        !self.holiday.is_business_day(date)
+        !self.is_business_day(date)
     }
 
     /// Returns `true` iff the weekday is part of the weekend for the given market.    
-- 
2.43.0


From ecc5cf9a8c55d5d23afae11cc8631f6ac572c3f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:20 +0000
Subject: [PATCH 02/27] fix: weekends are holidays in the US settlement and
 Libor calendars

---
 src/datetime/holidays/unitedstates.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/datetime/holidays/unitedstates.rs b/src/datetime/holidays/unitedstates.rs
index d0675e9..6896002 100644
--- a/src/datetime/holidays/unitedstates.rs
+++ b/src/datetime/holidays/unitedstates.rs
@@ -77,7 +77,7 @@ impl UnitedStatesSettlement {
 
     pub fn is_business_day(&self, date: &Date) -> bool {
         let w = date.weekday();
-        self.is_weekend(w) || is_settlement_business_day(date)
+        !self.is_weekend(w) && is_settlement_business_day(date)
     }
 
     pub fn is_weekend(&self, weekday: Weekday) -> bool {
@@ -121,7 +121,7 @@ impl UnitedStatesLiborImpact {
             return true;
         }
 
-        self.is_weekend(w) || is_settlement_business_day(date)
+        !self.is_weekend(w) && is_settlement_business_day(date)
     }
 
     pub fn is_weekend(&self, weekday: Weekday) -> bool {
-- 
2.43.0


From 814baaa984c8e098848d5128db31b840eb05a2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:20 +0000
Subject: [PATCH 03/27] fix: count leap days correctly in Japan's equinox
 holidays

The truncating division gave the wrong equinox in three out of four years
before 2000 (e.g. 21 March 1995 was a business day), and the signs of the
century corrections were reversed, moving it two days early after 2100.
---
 src/datetime/holidays/japan.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/datetime/holidays/japan.rs b/src/datetime/holidays/japan.rs
index aeb90c6..de68577 100644
--- a/src/datetime/holidays/japan.rs
+++ b/src/datetime/holidays/japan.rs
@@ -44,7 +44,9 @@ impl Japan {
 
         // equinox calculation
         let moving_amount = (y - 2000) as Time * DIFF_PER_YEAR;
-        let number_of_leap_years = (y - 2000) / 4 + (y - 2000) / 100 - (y - 2000) / 400;
+        // leap days between 2000 and y, negative before 2000 (hence the floored division)
+        let number_of_leap_years = (y - 2000).div_euclid(4) - (y - 2000).div_euclid(100)
+            + (y - 2000).div_euclid(400);
         let ve = // vernal equinox day
             (EXACT_VERNAL_EQUINOX_TIME + moving_amount - number_of_leap_years as Time) as Day;
         let ae = // autumnal equinox day
-- 
2.43.0


From e25200b0d689934dece222066d8a6763a1391d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:32 +0000
Subject: [PATCH 04/27] fix: refuse in-place day updates that leave the
 supported date range

d += n and d -= n skipped the range check that d + n and d - n perform and
silently produced dates outside 1900-2199. The holiday and business-day lists
relied on stepping past the last supported day and now stop at their end.
---
 src/datetime/calendar.rs | 8 ++++++++
 src/datetime/date.rs     | 8 ++------
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/datetime/calendar.rs b/src/datetime/calendar.rs
index 0e7a030..21d9c0b 100644
--- a/src/datetime/calendar.rs
+++ b/src/datetime/calendar.rs
@@ -120,6 +120,10 @@ impl Calendar {
             if self.is_holiday(&d) && (include_weekends || !self.is_weekend(d.weekday())) {
                 result.push(d);
             }
+            // avoid incrementing Date::max_date()
+            if d == to {
+                break;
+            }
             d += 1;
         }
         result
@@ -139,6 +143,10 @@ impl Calendar {
             if self.is_business_day(&d) {
                 result.push(d);
             }
+            // avoid incrementing Date::max_date()
+            if d == to {
+                break;
+            }
             d += 1;
         }
         result
diff --git a/src/datetime/date.rs b/src/datetime/date.rs
index bc3cf87..04b03a9 100644
--- a/src/datetime/date.rs
+++ b/src/datetime/date.rs
@@ -84,9 +84,7 @@ impl<'a> Add<SerialNumber> for &'a Date {
 
 impl AddAssign<SerialNumber> for Date {
     fn add_assign(&mut self, rhs: SerialNumber) {
-        self.date_time = Date::min_date().date_time
-            + Duration::days(self.serial_number as BigInteger + rhs as BigInteger - 2);
-        self.serial_number += rhs;
+        *self = *self + rhs;
     }
 }
 
@@ -110,9 +108,7 @@ impl<'a> Sub<SerialNumber> for &'a Date {
 
 impl SubAssign<SerialNumber> for Date {
     fn sub_assign(&mut self, rhs: SerialNumber) {
-        self.date_time = Date::min_date().date_time
-            + Duration::days(self.serial_number as BigInteger - rhs as BigInteger - 2);
-        self.serial_number -= rhs;
+        *self = *self - rhs;
     }
 }
 
-- 
2.43.0


From 6c889f762e4982c4e82c4d6231c075d64ffaa0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:13 +0000
Subject: [PATCH 05/27] fix: order a period against an empty period by its sign

---
 src/datetime/period.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/datetime/period.rs b/src/datetime/period.rs
index a7b458b..212820a 100644
--- a/src/datetime/period.rs
+++ b/src/datetime/period.rs
@@ -61,7 +61,7 @@ impl PartialOrd for Period {
             return 0.partial_cmp(&p2.length);
         }
         if p2.length == 0 {
-            return 0.partial_cmp(&p1.length);
+            return p1.length.partial_cmp(&0);
         }
 
         // exact comparisons
-- 
2.43.0


From a555b0946c375c09114e8f46b4cd8bc7e0d947bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:30 +0000
Subject: [PATCH 06/27] fix: a negative period of months has no named frequency

---
 src/datetime/period.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/datetime/period.rs b/src/datetime/period.rs
index 212820a..24d8674 100644
--- a/src/datetime/period.rs
+++ b/src/datetime/period.rs
@@ -299,7 +299,7 @@ impl Period {
                 }
             }
             Months => {
-                if 12 % self.length == 0 && self.length <= 12 {
+                if self.length > 0 && 12 % self.length == 0 {
                     Frequency::from(12 / self.length)
                 } else {
                     OtherFrequency
-- 
2.43.0


From 38d50b180a7a504ef767793fef280fd6f3abd664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:30 +0000
Subject: [PATCH 07/27] fix: convert every frequency back from its integer code

---
 src/datetime/frequency.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/datetime/frequency.rs b/src/datetime/frequency.rs
index 591af31..03331e0 100644
--- a/src/datetime/frequency.rs
+++ b/src/datetime/frequency.rs
@@ -32,6 +32,8 @@ pub enum Frequency {
 impl From<Integer> for Frequency {
     fn from(n: Integer) -> Self {
         match n {
+            -1 => Self::NoFrequency,
+            0 => Self::Once,
             1 => Self::Annual,
             2 => Self::Semiannual,
             3 => Self::EveryFourthMonth,
@@ -42,6 +44,7 @@ impl From<Integer> for Frequency {
             26 => Self::Biweekly,
             52 => Self::Weekly,
             365 => Self::Daily,
+            999 => Self::OtherFrequency,
             other => panic!("Invalid frequency: {}", other),
         }
     }
-- 
2.43.0


From 9a2d40640e01f04e683a96e67513ec1e1846083c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:33 +0000
Subject: [PATCH 08/27] fix: hash equal periods equally

---
 src/datetime/period.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/datetime/period.rs b/src/datetime/period.rs
index 24d8674..3ee58d9 100644
--- a/src/datetime/period.rs
+++ b/src/datetime/period.rs
@@ -44,8 +44,15 @@ impl PartialEq for Period {
 
 impl Hash for Period {
     fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
-        self.length.hash(state);
-        self.unit.hash(state);
+        // periods that compare equal (e.g. 12 months and 1 year) must have the same hash
+        let (length, unit) = match self.unit {
+            _ if self.length == 0 => (0, Days),
+            Years => (12 * self.length, Months),
+            Weeks => (7 * self.length, Days),
+            unit => (self.length, unit),
+        };
+        length.hash(state);
+        unit.hash(state);
     }
 }
 
-- 
2.43.0


From 556870935d032bde6ea97923d7dcd57961d10789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:51 +0000
Subject: [PATCH 09/27] fix: adjust the termination date by its own convention

---
 src/datetime/schedule.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/datetime/schedule.rs b/src/datetime/schedule.rs
index 0db6400..0e2b228 100644
--- a/src/datetime/schedule.rs
+++ b/src/datetime/schedule.rs
@@ -499,7 +499,9 @@ impl Schedule {
                 && result.rule != DateGenerationRule::CDS2015
             {
                 let len = result.dates.len();
-                result.dates[len - 1] = result.calendar.adjust(result.dates[len - 1], convention);
+                result.dates[len - 1] = result
+                    .calendar
+                    .adjust(result.dates[len - 1], termination_date_convention);
             }
         }
 
-- 
2.43.0


From 43abcfb3173181521da3368eb503cec3a6e05628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:54 +0000
Subject: [PATCH 10/27] fix: give a backward schedule without effective date a
 usable start

---
 src/datetime/schedule.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/datetime/schedule.rs b/src/datetime/schedule.rs
index 0e2b228..9e3443a 100644
--- a/src/datetime/schedule.rs
+++ b/src/datetime/schedule.rs
@@ -121,6 +121,10 @@ impl Schedule {
                 let date_diff_serial = &next_to_last - eval_date;
                 let y = date_diff_serial / 366 + 1;
                 effective_date = next_to_last - Period::new(y, Years);
+            } else {
+                let date_diff_serial = &termination_date - eval_date;
+                let y = date_diff_serial / 366 + 1;
+                effective_date = termination_date - Period::new(y, Years);
             }
         } else {
             assert!(
-- 
2.43.0


From 309bff64edc9fd2915e0abf6a4fba75c17af109e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:18 +0000
Subject: [PATCH 11/27] fix: schedule dates always increase; empty intervals
 between coinciding dates are dropped

---
 src/datetime/schedule.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/datetime/schedule.rs b/src/datetime/schedule.rs
index 9e3443a..6a6c9b3 100644
--- a/src/datetime/schedule.rs
+++ b/src/datetime/schedule.rs
@@ -534,6 +534,23 @@ impl Schedule {
             result.is_regular.remove(0); // this is expensive
         }
 
+        // Intermediate dates can also end up on the same day, e.g., an explicit first date and a
+        // month end; the empty interval between them is dropped.
+        let mut i = 1;
+        while i < result.dates.len() {
+            if result.dates[i] == result.dates[i - 1] {
+                result.dates.remove(i);
+                result.is_regular.remove(i - 1);
+            } else {
+                i += 1;
+            }
+        }
+        assert!(
+            result.dates.windows(2).all(|d| d[0] < d[1]),
+            "schedule dates are not in increasing order: {:?}",
+            result
+        );
+
         assert!(
             result.dates.len() > 1,
             "Degenerate single date ({:?}) schedule \
-- 
2.43.0


From 55f54bb96394c0ad9d36899c6ce2c4068de15b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:12 +0000
Subject: [PATCH 12/27] fix: text with non-ASCII characters is not an IMM code

---
 src/datetime/imm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/datetime/imm.rs b/src/datetime/imm.rs
index cd6949b..9b73781 100644
--- a/src/datetime/imm.rs
+++ b/src/datetime/imm.rs
@@ -55,7 +55,7 @@ impl IMM {
 
     /// Returns whether or not the given `input` string is an IMM code
     pub fn is_imm_code(&self, input: &str, main_cycle: bool) -> bool {
-        if input.len() != 2 {
+        if input.len() != 2 || !input.is_ascii() {
             return false;
         }
         let mut str1 = "0123456789";
-- 
2.43.0


From 9e0b116f0c0a63c7647496f96619226ed4fdc9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:12 +0000
Subject: [PATCH 13/27] fix: IMM codes of the year 1900 turn back into their
 dates

---
 src/datetime/imm.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/datetime/imm.rs b/src/datetime/imm.rs
index 9b73781..6d2bc01 100644
--- a/src/datetime/imm.rs
+++ b/src/datetime/imm.rs
@@ -134,16 +134,11 @@ impl IMM {
         // This cannot panic, since we have already checked abvoe that the code is valid.
         let mut y = code[1..2].parse::<Integer>().unwrap();
 
-        // year < 1900 are not valid QuantLib years: to avoid a run-time
-        // exception few lines below we need to add 10 years right away
-        if y == 0 && reference_date.year() < 1909 {
-            y += 10;
-        }
         let reference_year = reference_date.year() % 10;
         y += reference_date.year() - reference_year;
-        let result = self.next_date(&Date::new(1, month, y), false);
+        let result = Date::nth_weekday(3, Wednesday, month, y);
         if &result < reference_date {
-            return self.next_date(&Date::new(1, month, y + 10), false);
+            return Date::nth_weekday(3, Wednesday, month, y + 10);
         }
         result
     }
-- 
2.43.0


From 58356047ef8d4f88635830abd986b6f0e00f4179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:57 +0000
Subject: [PATCH 14/27] fix: 30/360 and 30/365 day counts when the second day
 of the month is smaller

---
 src/datetime/daycounters/thirty360.rs | 8 ++++----
 src/datetime/daycounters/thirty365.rs | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/datetime/daycounters/thirty360.rs b/src/datetime/daycounters/thirty360.rs
index 0e04e88..355a708 100644
--- a/src/datetime/daycounters/thirty360.rs
+++ b/src/datetime/daycounters/thirty360.rs
@@ -215,7 +215,7 @@ impl EU {
             dd2 = 30;
         }
 
-        360 * (yy2 - yy1) + 30 * (mm2 - mm1) + (dd2 - dd1) as Integer
+        360 * (yy2 - yy1) + 30 * (mm2 - mm1) + (dd2 as Integer - dd1 as Integer)
     }
 
     pub fn year_fraction(
@@ -261,7 +261,7 @@ impl IT {
             dd2 = 30;
         }
 
-        360 * (yy2 - yy1) + 30 * (mm2 - mm1) + (dd2 - dd1) as Integer
+        360 * (yy2 - yy1) + 30 * (mm2 - mm1) + (dd2 as Integer - dd1 as Integer)
     }
 
     pub fn year_fraction(
@@ -310,7 +310,7 @@ impl ISDA {
             dd2 = 30;
         }
 
-        360 * (yy2 - yy1) + 30 * (mm2 as Integer - mm1 as Integer) + (dd2 - dd1) as Integer
+        360 * (yy2 - yy1) + 30 * (mm2 as Integer - mm1 as Integer) + (dd2 as Integer - dd1 as Integer)
     }
 
     pub fn year_fraction(
@@ -353,7 +353,7 @@ impl NASD {
             mm2 += 1;
         }
 
-        360 * (yy2 - yy1) + 30 * (mm2 - mm1) + (dd2 - dd1) as Integer
+        360 * (yy2 - yy1) + 30 * (mm2 - mm1) + (dd2 as Integer - dd1 as Integer)
     }
 
     pub fn year_fraction(
diff --git a/src/datetime/daycounters/thirty365.rs b/src/datetime/daycounters/thirty365.rs
index c6bc9ef..cfc7bd6 100644
--- a/src/datetime/daycounters/thirty365.rs
+++ b/src/datetime/daycounters/thirty365.rs
@@ -29,7 +29,7 @@ impl Thirty365 {
         let yy1 = d1.year();
         let yy2 = d2.year();
 
-        360 * (yy2 - yy1) + 30 * (mm2 - mm1) + (dd2 - dd1) as Integer
+        360 * (yy2 - yy1) + 30 * (mm2 - mm1) + (dd2 as Integer - dd1 as Integer)
     }
 
     pub fn year_fraction(
-- 
2.43.0


From 2ea3dc226315594ec1e33f705dc4c4882a661f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:57 +0000
Subject: [PATCH 15/27] fix: ISDA fractions of dates in the last supported year

---
 src/datetime/daycounters/actualactual.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/datetime/daycounters/actualactual.rs b/src/datetime/daycounters/actualactual.rs
index 1261a6d..0ed06fb 100644
--- a/src/datetime/daycounters/actualactual.rs
+++ b/src/datetime/daycounters/actualactual.rs
@@ -404,7 +404,7 @@ impl ISDA {
         let dib2 = if Date::is_leap(y2) { 366.0 } else { 365.0 };
 
         let mut sum = (y2 - y1 - 1) as Time;
-        sum += Date::days_between(d1, &Date::new(1, January, y1 + 1)) / dib1;
+        sum += (dib1 + 1.0 - d1.day_of_year() as Time) / dib1;
         sum += Date::days_between(&Date::new(1, January, y2), d2) / dib2;
         sum
     }
-- 
2.43.0


From 3f13107b110ab4c1694c5221edb66878a4b9f862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:57 +0000
Subject: [PATCH 16/27] fix: AFB fractions of dates in the first supported year

---
 src/datetime/daycounters/actualactual.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/datetime/daycounters/actualactual.rs b/src/datetime/daycounters/actualactual.rs
index 0ed06fb..b3a1968 100644
--- a/src/datetime/daycounters/actualactual.rs
+++ b/src/datetime/daycounters/actualactual.rs
@@ -441,7 +441,8 @@ impl AFB {
         let mut new_d2 = *d2;
         let mut temp = *d2;
         let mut sum = 0.0;
-        while &temp > d1 {
+        // no date lies a whole year before a date of the first supported year
+        while &temp > d1 && new_d2.year() > Date::min_date().year() {
             temp = new_d2 - Period::new(1, Years);
             if temp.day_of_month() == 28 && temp.month() == February && Date::is_leap(temp.year()) {
                 temp += 1;
-- 
2.43.0


From 3a8ac966abd9fa5e7641d089e34f6b2d12837f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:57 +0000
Subject: [PATCH 17/27] fix: ISMA fractions with a long first coupon and an
 irregular last one

---
 src/datetime/daycounters/actualactual.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/datetime/daycounters/actualactual.rs b/src/datetime/daycounters/actualactual.rs
index b3a1968..6e19b4f 100644
--- a/src/datetime/daycounters/actualactual.rs
+++ b/src/datetime/daycounters/actualactual.rs
@@ -188,7 +188,8 @@ impl ISMA {
                 self.schedule.business_day_convention(),
                 self.schedule.end_of_month(),
             );
-            new_dates[self.schedule.size() - 1] = notional_last_coupon;
+            let last = new_dates.len() - 1;
+            new_dates[last] = notional_last_coupon;
             if notional_last_coupon < *self.schedule.end_date() {
                 let next_notional_coupon = self.schedule.calendar().advance_by_period(
                     notional_last_coupon,
-- 
2.43.0


From d91ca40c8958f57db6590dcdf77b7dcdb57822fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:57 +0000
Subject: [PATCH 18/27] fix: ISMA fractions of a schedule with a single
 irregular interval

---
 src/datetime/daycounters/actualactual.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/datetime/daycounters/actualactual.rs b/src/datetime/daycounters/actualactual.rs
index 6e19b4f..24cbead 100644
--- a/src/datetime/daycounters/actualactual.rs
+++ b/src/datetime/daycounters/actualactual.rs
@@ -181,7 +181,11 @@ impl ISMA {
             }
         }
 
-        if !self.schedule.has_is_regular() || !self.schedule.is_regular(self.schedule.size() - 1) {
+        // a single interval is already measured back from its end
+        if self.schedule.size() > 2
+            && (!self.schedule.has_is_regular()
+                || !self.schedule.is_regular(self.schedule.size() - 1))
+        {
             let notional_last_coupon = self.schedule.calendar().advance_by_period(
                 self.schedule[self.schedule.size() - 2],
                 self.schedule.tenor(),
-- 
2.43.0


From d2a901e946435d28f38dd789ce00e5d9af4ad0b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:57 +0000
Subject: [PATCH 19/27] fix: ISMA fractions for coupon intervals that do not
 divide a year

---
 src/datetime/daycounters/actualactual.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/datetime/daycounters/actualactual.rs b/src/datetime/daycounters/actualactual.rs
index 24cbead..ed852a4 100644
--- a/src/datetime/daycounters/actualactual.rs
+++ b/src/datetime/daycounters/actualactual.rs
@@ -225,21 +225,21 @@ impl ISMA {
         // guess how many coupon periods per year
         let coupons_per_year;
         if reference_day_count < 16 {
-            coupons_per_year = 1;
+            coupons_per_year = 1.0;
             reference_day_count = self.day_count(d1, &(d1 + Period::new(1, Years)));
         } else {
             coupons_per_year = self.find_coupons_per_year(d3, d4);
         }
 
-        self.day_count(d1, d2) as f64 / (reference_day_count * coupons_per_year) as f64
+        self.day_count(d1, d2) as f64 / (reference_day_count as f64 * coupons_per_year)
     }
 
-    fn find_coupons_per_year(&self, ref_start: &Date, ref_end: &Date) -> Integer {
+    fn find_coupons_per_year(&self, ref_start: &Date, ref_end: &Date) -> Real {
         // This will only work for day counts longer than 15 days.
         let day_count = self.day_count(ref_start, ref_end);
         let years = day_count as Real / 365.0;
         let months = (12.0 * years).round() as Integer;
-        (12.0 / months as f64).round() as Integer
+        12.0 / months as Real
     }
 }
 
-- 
2.43.0


From 970afb8a1e0c802b00d489edc1f74365088708cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:08 +0000
Subject: [PATCH 20/27] fix: the linear interpolation's derivative at the last
 node is the last segment's slope

---
 src/maths/interpolations/linearinterpolation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/maths/interpolations/linearinterpolation.rs b/src/maths/interpolations/linearinterpolation.rs
index a3f6888..61d2319 100644
--- a/src/maths/interpolations/linearinterpolation.rs
+++ b/src/maths/interpolations/linearinterpolation.rs
@@ -70,7 +70,7 @@ impl<'a> Interpolation for LinearInterpolation<'a> {
         } else if x > self.x[self.x.len() - 1] {
             self.x.len() - 2
         } else {
-            upper_bound(self.x, x) - 1
+            upper_bound(&self.x[..self.x.len() - 1], x) - 1
         }
     }
 
-- 
2.43.0


From 89fd7547e83551cc8da1ead90a87f1086c99bb7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:08 +0000
Subject: [PATCH 21/27] fix: Lagrange interpolation returns the node value at a
 node at zero

---
 src/maths/interpolations/lagrangeinterpolation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/maths/interpolations/lagrangeinterpolation.rs b/src/maths/interpolations/lagrangeinterpolation.rs
index 7f7e472..5c753db 100644
--- a/src/maths/interpolations/lagrangeinterpolation.rs
+++ b/src/maths/interpolations/lagrangeinterpolation.rs
@@ -84,7 +84,7 @@ impl<'a> Interpolation for LagrangeInterpolation<'a> {
         self.check_range(x, allow_extrapolation);
         let eps = 10.0 * f64::EPSILON * x.abs();
         let lb = lower_bound(self.x, x - eps);
-        if lb != self.x.len() && self.x[lb] - x < eps {
+        if lb != self.x.len() && self.x[lb] - x <= eps {
             return self.y[lb];
         }
         let mut n = 0.0;
-- 
2.43.0


From 75a46c4d40097cdf756cb70977d5602965001ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:19 +0000
Subject: [PATCH 22/27] fix: Newton solvers only report a root where the
 function changes sign within the accuracy

---
 .../solvers1d/finitedifferencenewtonsafe.rs   | 30 +++++++++++++++---
 src/maths/solvers1d/newtonsafe.rs             | 31 +++++++++++++++----
 2 files changed, 50 insertions(+), 11 deletions(-)

diff --git a/src/maths/solvers1d/finitedifferencenewtonsafe.rs b/src/maths/solvers1d/finitedifferencenewtonsafe.rs
index 7a97d69..d710f3a 100644
--- a/src/maths/solvers1d/finitedifferencenewtonsafe.rs
+++ b/src/maths/solvers1d/finitedifferencenewtonsafe.rs
@@ -65,6 +65,9 @@ impl private::SolverDetail for FiniteDifferenceNewtonSafe {
         // xmax - xmin > 0 is verified previously
         let mut dx = sd.xmax - sd.xmin;
         while sd.evaluation_number <= self.max_evaluations() {
+            if f_root == 0.0 {
+                return sd.root;
+            }
             let mut f_root_old = f_root;
             let mut root_old = sd.root;
             let dx_old = dx;
@@ -86,11 +89,6 @@ impl private::SolverDetail for FiniteDifferenceNewtonSafe {
                 dx = f_root / df_root;
                 sd.root -= dx;
             }
-            // convergence criterion
-            if dx.abs() < accuracy {
-                return sd.root;
-            }
-
             f_root = f(sd.root);
             sd.evaluation_number += 1;
             df_root = (f_root_old - f_root) / (root_old - sd.root);
@@ -100,6 +98,28 @@ impl private::SolverDetail for FiniteDifferenceNewtonSafe {
             } else {
                 xh = sd.root;
             }
+            // convergence criterion: a short step alone does not tell that the root is near, the
+            // function must also change sign within the accuracy
+            if dx.abs() < accuracy {
+                let far = if f_root < 0.0 { xh } else { xl };
+                let near = sd.root + accuracy.copysign(far - sd.root);
+                if (far - sd.root).abs() <= accuracy || near == sd.root {
+                    return sd.root;
+                }
+                let f_near = f(near);
+                sd.evaluation_number += 1;
+                if (f_near < 0.0) != (f_root < 0.0) {
+                    return sd.root;
+                }
+                if f_near < 0.0 {
+                    xl = near;
+                } else {
+                    xh = near;
+                }
+                df_root = (f_near - f_root) / (near - sd.root);
+                sd.root = near;
+                f_root = f_near;
+            }
         }
 
         panic!(
diff --git a/src/maths/solvers1d/newtonsafe.rs b/src/maths/solvers1d/newtonsafe.rs
index 8046520..dd750c2 100644
--- a/src/maths/solvers1d/newtonsafe.rs
+++ b/src/maths/solvers1d/newtonsafe.rs
@@ -85,6 +85,9 @@ impl private::SolverDetail for NewtonSafe {
 
         sd.evaluation_number += 1;
         while sd.evaluation_number <= self.max_evaluations() {
+            if froot == 0.0 {
+                return sd.root;
+            }
             // Bisect if (out of range || not decreasing fast enough)
             if (((sd.root - xh) * dfroot - froot) * ((sd.root - xl) * dfroot - froot) > 0.0)
                 || ((2.0 * froot).abs() > (dx_old * dfroot).abs())
@@ -97,12 +100,6 @@ impl private::SolverDetail for NewtonSafe {
                 dx = froot / dfroot;
                 sd.root -= dx;
             }
-            // Convergence criterion
-            if dx.abs() < accuracy {
-                f(sd.root);
-                sd.evaluation_number += 1;
-                return sd.root;
-            }
             froot = f(sd.root);
             dfroot = derivative(sd.root);
             sd.evaluation_number += 1;
@@ -111,6 +108,28 @@ impl private::SolverDetail for NewtonSafe {
             } else {
                 xh = sd.root;
             }
+            // Convergence criterion. A short step alone does not tell that the root is near: the
+            // function must also change sign within the accuracy
+            if dx.abs() < accuracy {
+                let far = if froot < 0.0 { xh } else { xl };
+                let near = sd.root + accuracy.copysign(far - sd.root);
+                if (far - sd.root).abs() <= accuracy || near == sd.root {
+                    return sd.root;
+                }
+                let fnear = f(near);
+                sd.evaluation_number += 1;
+                if (fnear < 0.0) != (froot < 0.0) {
+                    return sd.root;
+                }
+                if fnear < 0.0 {
+                    xl = near;
+                } else {
+                    xh = near;
+                }
+                sd.root = near;
+                froot = fnear;
+                dfroot = derivative(near);
+            }
         }
 
         panic!(
-- 
2.43.0


From 2b3c4ab2e62cd1be88d47e04d6f109cb6c8b1131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:53 +0000
Subject: [PATCH 23/27] fix: FixedRateLeg rate and notional setters replace
 earlier values

---
 src/cashflows/fixedrateleg.rs | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/cashflows/fixedrateleg.rs b/src/cashflows/fixedrateleg.rs
index 4377767..10c63a7 100644
--- a/src/cashflows/fixedrateleg.rs
+++ b/src/cashflows/fixedrateleg.rs
@@ -51,7 +51,7 @@ impl FixedRateLeg {
     }
 
     pub fn with_notional(mut self, notional: Real) -> Self {
-        self.notionals.resize(1, notional);
+        self.notionals = vec![notional];
         self
     }
 
@@ -67,10 +67,7 @@ impl FixedRateLeg {
         compounding: Compounding,
         frequency: Frequency,
     ) -> Self {
-        self.coupon_rates.resize(
-            1,
-            InterestRate::new(rate, daycounter, compounding, frequency),
-        );
+        self.coupon_rates = vec![InterestRate::new(rate, daycounter, compounding, frequency)];
         self
     }
 
@@ -81,15 +78,17 @@ impl FixedRateLeg {
         compounding: Compounding,
         frequency: Frequency,
     ) -> Self {
-        for rate in rates {
-            let r = InterestRate::new(rate, daycounter.clone(), compounding.clone(), frequency);
-            self.coupon_rates.push(r);
-        }
+        self.coupon_rates = rates
+            .into_iter()
+            .map(|rate| {
+                InterestRate::new(rate, daycounter.clone(), compounding.clone(), frequency)
+            })
+            .collect();
         self
     }
 
     pub fn with_interest_rate(mut self, interest_rate: InterestRate) -> Self {
-        self.coupon_rates.resize(1, interest_rate);
+        self.coupon_rates = vec![interest_rate];
         self
     }
 
-- 
2.43.0


From 30ef2adac437709c8d83548bf9389f82e86f2bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:53 +0000
Subject: [PATCH 24/27] fix: Rc-held cash flows keep their ex-coupon date

---
 src/cashflows/cashflow.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cashflows/cashflow.rs b/src/cashflows/cashflow.rs
index 2a1e42f..a1a7568 100644
--- a/src/cashflows/cashflow.rs
+++ b/src/cashflows/cashflow.rs
@@ -146,6 +146,10 @@ where
         (**self).date()
     }
 
+    fn ex_coupon_date(&self) -> Date {
+        (**self).ex_coupon_date()
+    }
+
     fn reference_period_start(&self) -> Date {
         (**self).reference_period_start()
     }
-- 
2.43.0


From 819ca14470ed4a9ac798e05a3be6349cb644450e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:56 +0000
Subject: [PATCH 25/27] fix: accrued amount is negative once a coupon trades
 ex-coupon

---
 src/cashflows/fixedratecoupon.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cashflows/fixedratecoupon.rs b/src/cashflows/fixedratecoupon.rs
index b9fd397..281d70e 100644
--- a/src/cashflows/fixedratecoupon.rs
+++ b/src/cashflows/fixedratecoupon.rs
@@ -89,7 +89,7 @@ impl CashFlow for FixedRateCoupon {
                 &self.ref_period_start,
                 &self.ref_period_end,
             );
-            self.nominal * (compound_factor - 1.0)
+            -self.nominal * (compound_factor - 1.0)
         } else {
             // usual case
             let compound_factor = self.rate.compound_factor_between_dates(
-- 
2.43.0


From 3a54e46461e130df8963495811c0c209d398276b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:37 +0000
Subject: [PATCH 26/27] fix: the maturity of flows that do not accrue is their
 payment date

---
 src/cashflows/cashflow.rs        | 8 +++++++-
 src/instruments/fixedratebond.rs | 3 +--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/cashflows/cashflow.rs b/src/cashflows/cashflow.rs
index a1a7568..f251b9b 100644
--- a/src/cashflows/cashflow.rs
+++ b/src/cashflows/cashflow.rs
@@ -257,7 +257,13 @@ pub fn maturity_date<T: CashFlow>(cashflows: &Vec<T>) -> Date {
     assert!(!cashflows.is_empty(), "Empty cashflows");
     let mut d = Date::default();
     for cf in cashflows {
-        d = d.max(cf.accrual_end_date());
+        let accrual_end_date = cf.accrual_end_date();
+        d = d.max(if accrual_end_date == Date::default() {
+            // no accrual, e.g. a redemption
+            cf.date()
+        } else {
+            accrual_end_date
+        });
     }
     d
 }
diff --git a/src/instruments/fixedratebond.rs b/src/instruments/fixedratebond.rs
index 86903f6..cf3963d 100644
--- a/src/instruments/fixedratebond.rs
+++ b/src/instruments/fixedratebond.rs
@@ -12,7 +12,6 @@ use crate::{
         daycounter::DayCounter, frequency::Frequency::*, period::Period, schedule::Schedule,
     },
     maths::comparison::close,
-    pricingengines::bond::bondfunctions,
     rates::{compounding::Compounding::Simple, interestrate::InterestRate},
     types::{Integer, Real},
 };
@@ -239,7 +238,7 @@ impl Bond for FixedRateBond {
     }
 
     fn maturity_date(&self) -> Date {
-        bondfunctions::maturity_date(&self.cashflows)
+        self.maturity_date
     }
 
     fn notional_schedule(&self) -> &Vec<Date> {
-- 
2.43.0


From 6389f617ac2768897dcda1ce05e4b78e20ef97ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:41 +0000
Subject: [PATCH 27/27] fix: spell the name of the Chinese yuan as documented

---
 src/currencies/asia.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/currencies/asia.rs b/src/currencies/asia.rs
index 85db991..80e2adb 100644
--- a/src/currencies/asia.rs
+++ b/src/currencies/asia.rs
@@ -15,7 +15,7 @@ impl CNYCurrency {
     pub fn new() -> CNYCurrency {
         Self {
             data: CurrencyData::new(
-                "Chinese yean".to_string(),
+                "Chinese yuan".to_string(),
                 "CNY".to_string(),
                 156,
                 "Y".to_string(),
-- 
2.43.0

