From ac8af985bce725ec57fd34767cc055b0cbf20934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:07 +0000
Subject: [PATCH 01/54] fix: sign of the exponentials in Hull-White
 bond_log_variance's antiderivative

---
 src/models/interestrate/hull_white.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/models/interestrate/hull_white.rs b/src/models/interestrate/hull_white.rs
index 42dcd6d..e8abba1 100644
--- a/src/models/interestrate/hull_white.rs
+++ b/src/models/interestrate/hull_white.rs
@@ -74,7 +74,7 @@ impl HullWhite1F {
         let lambda = self.mean_reversion;
         let tau_fn = |s: f64| -> f64 {
             // antiderivative of [(e^{-λ(T-s)} - 1)/λ]² wrt s
-            //   = (1/λ²)·[ (−1/(2λ))·e^{−2λ(T−s)} + (2/λ)·e^{−λ(T−s)} + s ] + C
+            //   = (1/λ²)·[ (1/(2λ))·e^{−2λ(T−s)} − (2/λ)·e^{−λ(T−s)} + s ] + C
             // Apply at (s₁, s₂), take the difference.
             if lambda.abs() < 1.0e-12 {
                 // Ho–Lee limit:  B = -(T − s)  ⇒  ∫ B² ds = (T-s)³ / 3 evaluated
@@ -83,7 +83,7 @@ impl HullWhite1F {
             }
             let e1 = (-lambda * (big_t - s)).exp();
             let e2 = (-2.0 * lambda * (big_t - s)).exp();
-            (1.0 / (lambda * lambda)) * (-0.5 / lambda * e2 + 2.0 / lambda * e1 + s)
+            (1.0 / (lambda * lambda)) * (0.5 / lambda * e2 - 2.0 / lambda * e1 + s)
         };
         eta * eta * (tau_fn(s2) - tau_fn(s1))
     }
-- 
2.43.0


From 65527e12a5b3eea61ccc4b12f069b2c6bd61ebb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:07 +0000
Subject: [PATCH 02/54] fix: small-time expansion of E[sqrt] in CIR sqrt_mean
 keeps the full -v/(8m^2) correction

---
 src/models/common/cir.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/models/common/cir.rs b/src/models/common/cir.rs
index ab5b413..bf0c731 100644
--- a/src/models/common/cir.rs
+++ b/src/models/common/cir.rs
@@ -111,7 +111,7 @@ impl CirProcess {
         if eps > 500.0 {
             let m = self.mean(t).max(1.0e-300);
             let v = self.variance(t);
-            return (m * (1.0 - v / (8.0 * m * m))).max(0.0).sqrt();
+            return m.sqrt() * (1.0 - v / (8.0 * m * m)).max(0.0);
         }
 
         // Σ_{k≥0}  (ε/2)^k / k!  · Γ((ℓ+1)/2 + k) / Γ(ℓ/2 + k).
-- 
2.43.0


From 4c960db56136c252bb62f3339185d2d1a1e24138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:44 +0000
Subject: [PATCH 03/54] fix: simulate_at_dates captures observations reached by
 a zero-length day-count step

---
 src/models/common/simulation.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/models/common/simulation.rs b/src/models/common/simulation.rs
index 6c831db..9ffbeac 100644
--- a/src/models/common/simulation.rs
+++ b/src/models/common/simulation.rs
@@ -156,11 +156,10 @@ pub fn simulate_at_dates<M: SimulationModel>(
         let mut next_obs = 0_usize;
         for i in 1..grid.len() {
             let dt = yf[i] - yf[i - 1];
-            if dt <= 0.0 {
-                continue;
+            if dt > 0.0 {
+                let t_mid = 0.5 * (yf[i] + yf[i - 1]);
+                state = model.step(&state, t_mid, dt);
             }
-            let t_mid = 0.5 * (yf[i] + yf[i - 1]);
-            state = model.step(&state, t_mid, dt);
             while next_obs < obs_indices.len() && obs_indices[next_obs] == i {
                 path.push(state.clone());
                 next_obs += 1;
-- 
2.43.0


From 2a348d8820bc3598d0a396dda49fa40b550be5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:50 +0000
Subject: [PATCH 04/54] fix: December offset of the no-leap Actual/365 day
 count is 334

---
 src/time/daycounters/actual365fixed.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/time/daycounters/actual365fixed.rs b/src/time/daycounters/actual365fixed.rs
index 19057c6..e9896e8 100644
--- a/src/time/daycounters/actual365fixed.rs
+++ b/src/time/daycounters/actual365fixed.rs
@@ -21,7 +21,7 @@ impl Actual365Fixed {
     }
 
     fn nl_day_count(&self, d1: NaiveDate, d2: NaiveDate) -> i64 {
-        const MONTH_OFFSET: [i64; 12] = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 344];
+        const MONTH_OFFSET: [i64; 12] = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334];
         let mut s1 =
             d1.day() as i64 + MONTH_OFFSET[d1.month() as usize - 1usize] + (d1.year() as i64 * 365);
         let mut s2 =
-- 
2.43.0


From 680e9acc5b13e131b086d54ccf2667cd59551e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:50 +0000
Subject: [PATCH 05/54] fix: sign of the stub-year terms of Actual/Actual ISDA

---
 src/time/daycounters/actualactual.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/time/daycounters/actualactual.rs b/src/time/daycounters/actualactual.rs
index c7ab213..a8534cb 100644
--- a/src/time/daycounters/actualactual.rs
+++ b/src/time/daycounters/actualactual.rs
@@ -19,14 +19,16 @@ impl ActualActual {
     fn isda_year_fraction(&self, d1: NaiveDate, d2: NaiveDate) -> f64 {
         if d1 == d2 {
             0f64
+        } else if d1 > d2 {
+            -self.isda_year_fraction(d2, d1)
         } else {
             let y1 = d1.year();
             let y2 = d2.year();
             let dib1 = if d1.leap_year() { 366f64 } else { 365f64 };
             let dib2 = if d2.leap_year() { 366f64 } else { 365f64 };
             let mut sum: f64 = (y2 - y1) as f64 - 1.0;
-            sum += (d1 - NaiveDate::from_ymd_opt(y1 + 1, 1, 1).unwrap()).num_days() as f64 / dib1;
-            sum += (NaiveDate::from_ymd_opt(y2, 1, 1).unwrap() - d2).num_days() as f64 / dib2;
+            sum += (NaiveDate::from_ymd_opt(y1 + 1, 1, 1).unwrap() - d1).num_days() as f64 / dib1;
+            sum += (d2 - NaiveDate::from_ymd_opt(y2, 1, 1).unwrap()).num_days() as f64 / dib2;
             sum
         }
     }
-- 
2.43.0


From 098ad1253e081555a19644807941b214dfbcc8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:50 +0000
Subject: [PATCH 06/54] fix: sign of the stub term of Actual/Actual Euro (AFB)

---
 src/time/daycounters/actualactual.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/time/daycounters/actualactual.rs b/src/time/daycounters/actualactual.rs
index a8534cb..139ceb6 100644
--- a/src/time/daycounters/actualactual.rs
+++ b/src/time/daycounters/actualactual.rs
@@ -36,6 +36,8 @@ impl ActualActual {
     fn euro_year_fraction(&self, d1: NaiveDate, d2: NaiveDate) -> f64 {
         if d1 == d2 {
             0f64
+        } else if d1 > d2 {
+            -self.euro_year_fraction(d2, d1)
         } else {
             let mut new_d2 = d2;
             let mut temp = d2;
@@ -62,7 +64,7 @@ impl ActualActual {
                     den += 1.0;
                 }
             }
-            sum + (d1 - new_d2).num_days() as f64 / den
+            sum + (new_d2 - d1).num_days() as f64 / den
         }
     }
 }
-- 
2.43.0


From ba7d671bf07689aee703e01d875523a742a1fadb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:50 +0000
Subject: [PATCH 07/54] fix: Business/252 counts each intermediate month once

---
 src/time/daycounters/business252.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/time/daycounters/business252.rs b/src/time/daycounters/business252.rs
index c6becb3..c42f4c1 100644
--- a/src/time/daycounters/business252.rs
+++ b/src/time/daycounters/business252.rs
@@ -27,8 +27,9 @@ impl DayCounters for Business252 {
             let mut d = (NaiveDate::from_ymd_opt(d1.year(), d1.month(), 1).unwrap() + Months(1))?;
             total += self.calendar.business_days_between(d1, d, None, None);
             while !self.same_month(d, d2) {
-                total += self.calendar.business_days_between(d, d2, None, None);
-                d = (d + Months(1))?;
+                let next = (d + Months(1))?;
+                total += self.calendar.business_days_between(d, next, None, None);
+                d = next;
             }
             total += self.calendar.business_days_between(d, d2, None, None);
             Ok(total)
-- 
2.43.0


From 0b6c6127759f9a43edc05c186a589e81ec0c6827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:50 +0000
Subject: [PATCH 08/54] fix: Nearest business-day adjustment returns the
 business day, not the holiday

---
 src/time/calendars.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/time/calendars.rs b/src/time/calendars.rs
index 9c81ad8..ce0bd3c 100644
--- a/src/time/calendars.rs
+++ b/src/time/calendars.rs
@@ -247,9 +247,9 @@ pub trait Calendar: Debug {
                 d2 -= ONE_DAY;
             }
             return if self.is_holiday(d1) {
-                Some(d1)
-            } else {
                 Some(d2)
+            } else {
+                Some(d1)
             };
         } else {
             return None;
-- 
2.43.0


From fdea3ab89fe09e74c0c5a766d98c1f9a60c4c1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:50 +0000
Subject: [PATCH 09/54] fix: business_days_between honours
 include_first/include_last in both directions

---
 src/time/calendars.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/time/calendars.rs b/src/time/calendars.rs
index ce0bd3c..2170016 100644
--- a/src/time/calendars.rs
+++ b/src/time/calendars.rs
@@ -317,15 +317,23 @@ pub trait Calendar: Debug {
         include_last: Option<bool>,
     ) -> i64 {
         if from > to {
-            return -self.business_days_between(to, from, include_first, include_last);
+            return -self.business_days_between(
+                to,
+                from,
+                Some(include_last.unwrap_or(false)),
+                Some(include_first.unwrap_or(true)),
+            );
         }
         let include_first = include_first.unwrap_or(true);
         let include_last = include_last.unwrap_or(false);
+        if from == to {
+            return i64::from(include_first && include_last && self.is_business_day(from));
+        }
         let mut day_count = 0;
         let day_diff = ((to + Duration::try_days(if include_last { 1 } else { 0 }).unwrap())
-            - (from + Duration::try_days(if include_first { 1 } else { 0 }).unwrap()))
+            - (from + Duration::try_days(if include_first { 0 } else { 1 }).unwrap()))
         .num_days();
-        for date in (from + Duration::try_days(if include_first { 1 } else { 0 }).unwrap())
+        for date in (from + Duration::try_days(if include_first { 0 } else { 1 }).unwrap())
             .iter_days()
             .take(day_diff as usize)
         {
-- 
2.43.0


From 1a8afae9b7a0cb6292e6100cffd256a80ab1fc08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:50 +0000
Subject: [PATCH 10/54] fix: end-of-month advance keeps the target month and
 applies to month-end dates only

---
 src/time/calendars.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/time/calendars.rs b/src/time/calendars.rs
index 2170016..73ffd98 100644
--- a/src/time/calendars.rs
+++ b/src/time/calendars.rs
@@ -269,8 +269,8 @@ pub trait Calendar: Debug {
         match period {
             Period::Months(_) | Period::Years(_) => {
                 let advance_date = (date + period)?;
-                Ok(if end_of_month {
-                    Some(self.end_of_month(self.adjust(advance_date, bdc).unwrap()))
+                Ok(if end_of_month && date >= self.end_of_month(date) {
+                    Some(self.end_of_month(advance_date))
                 } else {
                     self.adjust(advance_date, bdc)
                 })
-- 
2.43.0


From d3680899d3baf454b8808a66046aa10af347fb9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:50 +0000
Subject: [PATCH 11/54] fix: IMM next_date moves to the month it computed

---
 src/time/imm.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/time/imm.rs b/src/time/imm.rs
index 51a8856..9806df0 100644
--- a/src/time/imm.rs
+++ b/src/time/imm.rs
@@ -132,8 +132,10 @@ impl IMM {
         if skip_months != offset || date.day() > 21 {
             skip_months += date.month();
             if skip_months > 12 {
-                month -= 12;
+                month = skip_months - 12;
                 year += 1;
+            } else {
+                month = skip_months;
             }
         }
         let mut result = self.nth_weekday(3, Weekday::Wed, month, year).unwrap();
-- 
2.43.0


From 02257d955933b1ca2f21d5946f92b131c2f67ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:50 +0000
Subject: [PATCH 12/54] fix: lower-case IMM codes convert to dates and
 non-ASCII text is not an IMM code

---
 src/time/imm.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/time/imm.rs b/src/time/imm.rs
index 9806df0..b717462 100644
--- a/src/time/imm.rs
+++ b/src/time/imm.rs
@@ -50,7 +50,7 @@ impl IMM {
 
     /// IMM Codes are constructed by IMMMonth + year.
     pub fn is_imm_code(&self, imm_code: String, main_cycle: bool) -> bool {
-        if imm_code.len() != 2 {
+        if imm_code.chars().count() != 2 {
             return false;
         }
 
@@ -101,6 +101,7 @@ impl IMM {
         if !self.is_imm_code(imm_code.clone(), false) {
             None
         } else {
+            let imm_code = imm_code.to_ascii_uppercase();
             let ref_date = ref_date.unwrap_or(chrono::offset::Utc::now().date_naive());
             let month = imm_code.chars().nth(0).unwrap();
             let mut year = imm_code.chars().nth(1).unwrap().to_digit(10).unwrap() as i32;
-- 
2.43.0


From c3e327c214277d86b703e0fe1439bf2c488f3198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:50 +0000
Subject: [PATCH 13/54] fix: the month-end cap no longer pulls day and week
 settlements back to or before their near leg

---
 src/time/period.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/time/period.rs b/src/time/period.rs
index d2f0fe9..35a4143 100644
--- a/src/time/period.rs
+++ b/src/time/period.rs
@@ -55,7 +55,8 @@ impl Period {
     /// | rest  | T+2       | spot + tenor |
     ///
     /// The result is rolled forward to the next business day (following convention)
-    /// and capped at end-of-month when the unadjusted date falls on or after it.
+    /// and, for month and year tenors, capped at end-of-month when the unadjusted
+    /// date falls on or after it.
     ///
     /// For pairs with a non-standard spot lag (e.g. USDCAD at T+1), use
     /// `FXUnderlying::settlement_date` instead, which applies the pair's convention.
@@ -109,7 +110,9 @@ impl Period {
             _ => valuation_date + spot_offset,
         };
         let mut settlement_date = (target_date + *self)?;
-        if settlement_date >= calendar.end_of_month(settlement_date) {
+        if matches!(self, Period::Months(_) | Period::Years(_))
+            && settlement_date >= calendar.end_of_month(settlement_date)
+        {
             settlement_date = calendar.end_of_month(settlement_date)
         }
         while !calendar.is_business_day(settlement_date) {
-- 
2.43.0


From aa1ae03d8ca74404bae538c13102df3b367325bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:42 +0000
Subject: [PATCH 14/54] fix: nelder_mead ranks an undefined objective value
 last instead of panicking

---
 src/math/optimize.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/math/optimize.rs b/src/math/optimize.rs
index faa2c0d..d5a6849 100644
--- a/src/math/optimize.rs
+++ b/src/math/optimize.rs
@@ -58,6 +58,12 @@ where
     let n = x0.len();
     assert!(n >= 1);
 
+    // An undefined objective value ranks as the worst possible one.
+    let mut f = |x: &[f64]| {
+        let v = f(x);
+        if v.is_nan() { f64::INFINITY } else { v }
+    };
+
     // Build initial simplex: (n+1) vertices.
     let mut simplex: Vec<Vec<f64>> = Vec::with_capacity(n + 1);
     simplex.push(x0.to_vec());
-- 
2.43.0


From c3fa2b94ea08312740f73a4b27404c12355e6edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:03 +0000
Subject: [PATCH 15/54] fix: tenor arithmetic reports out-of-range results as
 an error instead of panicking or wrapping

---
 src/time/period.rs | 50 ++++++++++++++++++++++++----------------------
 1 file changed, 26 insertions(+), 24 deletions(-)

diff --git a/src/time/period.rs b/src/time/period.rs
index 35a4143..4febdc0 100644
--- a/src/time/period.rs
+++ b/src/time/period.rs
@@ -158,18 +158,19 @@ impl Add<Period> for NaiveDate {
             Period::TN => self + ONE_DAY,
             Period::SPOT => self,
             Period::SN => self + ONE_DAY,
-            Period::Days(num) => {
-                self + Duration::try_days(num).ok_or_else(|| {
-                    Error::PeriodOutOfBounds(format!("{num} days is out of bounds"))
-                })?
-            }
-            Period::Weeks(num) => {
-                self + Duration::try_days(num * 7).ok_or_else(|| {
-                    Error::PeriodOutOfBounds(format!("{num} weeks is out of bounds"))
-                })?
-            }
-            Period::Months(num) => self + Months::new(num),
-            Period::Years(num) => self + Months::new(num * 12),
+            Period::Days(num) => Duration::try_days(num)
+                .and_then(|d| self.checked_add_signed(d))
+                .ok_or_else(|| Error::PeriodOutOfBounds(format!("{num} days is out of bounds")))?,
+            Period::Weeks(num) => Duration::try_weeks(num)
+                .and_then(|d| self.checked_add_signed(d))
+                .ok_or_else(|| Error::PeriodOutOfBounds(format!("{num} weeks is out of bounds")))?,
+            Period::Months(num) => self.checked_add_months(Months::new(num)).ok_or_else(|| {
+                Error::PeriodOutOfBounds(format!("{num} months is out of bounds"))
+            })?,
+            Period::Years(num) => num
+                .checked_mul(12)
+                .and_then(|months| self.checked_add_months(Months::new(months)))
+                .ok_or_else(|| Error::PeriodOutOfBounds(format!("{num} years is out of bounds")))?,
         };
 
         Ok(date)
@@ -185,18 +186,19 @@ impl Sub<Period> for NaiveDate {
             Period::TN => self - ONE_DAY,
             Period::SPOT => self,
             Period::SN => self - ONE_DAY,
-            Period::Days(num) => {
-                self - Duration::try_days(num).ok_or_else(|| {
-                    Error::PeriodOutOfBounds(format!("{num} days is out of bounds"))
-                })?
-            }
-            Period::Weeks(num) => {
-                self - Duration::try_days(num * 7).ok_or_else(|| {
-                    Error::PeriodOutOfBounds(format!("{num} weeks is out of bounds"))
-                })?
-            }
-            Period::Months(num) => self - Months::new(num),
-            Period::Years(num) => self - Months::new(num * 12),
+            Period::Days(num) => Duration::try_days(num)
+                .and_then(|d| self.checked_sub_signed(d))
+                .ok_or_else(|| Error::PeriodOutOfBounds(format!("{num} days is out of bounds")))?,
+            Period::Weeks(num) => Duration::try_weeks(num)
+                .and_then(|d| self.checked_sub_signed(d))
+                .ok_or_else(|| Error::PeriodOutOfBounds(format!("{num} weeks is out of bounds")))?,
+            Period::Months(num) => self.checked_sub_months(Months::new(num)).ok_or_else(|| {
+                Error::PeriodOutOfBounds(format!("{num} months is out of bounds"))
+            })?,
+            Period::Years(num) => num
+                .checked_mul(12)
+                .and_then(|months| self.checked_sub_months(Months::new(months)))
+                .ok_or_else(|| Error::PeriodOutOfBounds(format!("{num} years is out of bounds")))?,
         };
 
         Ok(date)
-- 
2.43.0


From 4316e009a4ec06b956d700d0bc7be66f2a87fd91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:03 +0000
Subject: [PATCH 16/54] fix: Japanese equinox holidays follow the equinox in
 every year, not only 2014-2028

---
 src/time/calendars/japan.rs | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/src/time/calendars/japan.rs b/src/time/calendars/japan.rs
index 0e3e8f5..4c25278 100644
--- a/src/time/calendars/japan.rs
+++ b/src/time/calendars/japan.rs
@@ -9,17 +9,34 @@ use serde::{Deserialize, Serialize};
 pub struct Japan;
 
 impl Japan {
+    // Equinox days in Japan Standard Time, from the Hydrographic Department's formula.
+    fn equinox_day(&self, y: i32, base: f64) -> u32 {
+        let leaps = if y < 1980 {
+            (y - 1983) / 4
+        } else {
+            (y - 1980) / 4
+        };
+        ((base + 0.242194 * (y - 1980) as f64).floor() as i32 - leaps) as u32
+    }
     fn vernal_equinox_day(&self, y: i32) -> u32 {
-        match y {
-            2014 | 2015 | 2018 | 2019 | 2022 | 2023 | 2027 => 21,
-            _ => 20,
-        }
+        self.equinox_day(
+            y,
+            match y {
+                ..=1979 => 20.8357,
+                1980..=2099 => 20.8431,
+                _ => 21.8510,
+            },
+        )
     }
     fn autumnal_equinox_day(&self, y: i32) -> u32 {
-        match y {
-            2020 | 2024 | 2028 => 22,
-            _ => 23,
-        }
+        self.equinox_day(
+            y,
+            match y {
+                ..=1979 => 23.2588,
+                1980..=2099 => 23.2488,
+                _ => 24.2488,
+            },
+        )
     }
 }
 
-- 
2.43.0


From 8d791497ea328c5b18bf7621d46d5b1681d7aaca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:03 +0000
Subject: [PATCH 17/54] fix: Ukrainian Easter and Trinity holidays follow the
 Orthodox Easter

---
 src/time/calendars/ukraine.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/time/calendars/ukraine.rs b/src/time/calendars/ukraine.rs
index 789e73a..03745ab 100644
--- a/src/time/calendars/ukraine.rs
+++ b/src/time/calendars/ukraine.rs
@@ -12,7 +12,7 @@ pub struct Ukraine;
 impl Calendar for Ukraine {
     fn is_business_day(&self, date: NaiveDate) -> bool {
         let (d, w, m, y, dd) = self.naive_date_to_dkmy(date);
-        let em = self.easter_monday(y);
+        let em = self.orthodox_easter_monday(y);
         if self.is_weekend(date)
             // New Year's Day (possibly moved to Weekday::Mon)
             || ((d == 1 || ((d == 2 || d == 3) && w == Weekday::Mon))
-- 
2.43.0


From e8d14afdac7c339023211a90bff986032ebbcb7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:03 +0000
Subject: [PATCH 18/54] fix: the 2019 transferred Russian holiday is 10 May (9
 May is Victory Day itself)

---
 src/time/calendars/russia.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/time/calendars/russia.rs b/src/time/calendars/russia.rs
index 6ac83db..5632d48 100644
--- a/src/time/calendars/russia.rs
+++ b/src/time/calendars/russia.rs
@@ -22,7 +22,7 @@ impl Russia {
         match y {
             2017 => matches!((m, d), (2, 24) | (5, 8) | (11, 6)),
             2018 => matches!((m, d), (3, 9) | (4, 30) | (5, 2) | (6, 11) | (12, 31)),
-            2019 => matches!((m, d), (5, 2) | (5, 3) | (5, 9)),
+            2019 => matches!((m, d), (5, 2) | (5, 3) | (5, 10)),
             2020 => matches!((m, d), (3, 30) | (3, 31) | (4, 1) | (4, 2) | (4, 3)),
             _ => false,
         }
-- 
2.43.0


From 8209a74c2338ab0f1244a8691d807e6832d47c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:16 +0000
Subject: [PATCH 19/54] fix: the Federal Reserve stays open on the Friday
 before a Saturday Juneteenth

---
 src/time/calendars/unitedstates.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/time/calendars/unitedstates.rs b/src/time/calendars/unitedstates.rs
index 79223ee..870e3ec 100644
--- a/src/time/calendars/unitedstates.rs
+++ b/src/time/calendars/unitedstates.rs
@@ -309,8 +309,8 @@ impl UnitedStates {
             || self.is_washington_birthday(date)
             // Memorial Day (last Monday in May)
             || self.is_memorial_day(date)
-            // Juneteenth (Monday if Sunday or Friday if Saturday)
-            || self.is_juneteenth(date)
+            // Juneteenth (Monday if Sunday; the preceding Friday stays open if Saturday)
+            || (self.is_juneteenth(date) && d != 18)
             // Independence Day (Monday if Sunday)
             || ((d == 4 || (d == 5 && w == Weekday::Mon)) && m == 7)
             // Labor Day (first Monday in September)
-- 
2.43.0


From ae04d9e1be2018eafff6f82aba4973853b342b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:16 +0000
Subject: [PATCH 20/54] fix: the NYSE was closed on 9 January 2025 like the
 bond market

---
 src/time/calendars/unitedstates.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/time/calendars/unitedstates.rs b/src/time/calendars/unitedstates.rs
index 870e3ec..ea985f2 100644
--- a/src/time/calendars/unitedstates.rs
+++ b/src/time/calendars/unitedstates.rs
@@ -156,6 +156,8 @@ impl UnitedStates {
         if
         // President Bush's Funeral
         (y == 2018 && m == 12 && d == 5)
+                // President Carter's national day of mourning
+                || (y == 2025 && m == 1 && d == 9)
                 // Hurricane Sandy
                 || (y == 2012 && m == 10 && (d == 29 || d == 30))
                 // President Ford's funeral
-- 
2.43.0


From 8498d031901475167fed9414af8d454f056190f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:38 +0000
Subject: [PATCH 21/54] fix: Israeli new year 2001 and independence day 2038
 fall on their Hebrew-calendar dates

---
 src/time/calendars/israel.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/time/calendars/israel.rs b/src/time/calendars/israel.rs
index ba4e307..42ca363 100644
--- a/src/time/calendars/israel.rs
+++ b/src/time/calendars/israel.rs
@@ -263,7 +263,7 @@ pub static INDEPENDENCE_DAY: Lazy<HashSet<(u32, u32, i32)>> = Lazy::new(|| {
         (15, 5, 2035),
         (1, 5, 2036),
         (21, 4, 2037),
-        (10, 5, 2038),
+        (11, 5, 2038),
         (28, 4, 2039),
         (18, 4, 2040),
         (7, 5, 2041),
@@ -394,7 +394,7 @@ pub static FAST_DAY: Lazy<HashSet<(u32, u32, i32)>> = Lazy::new(|| {
 pub static NEW_YEAR: Lazy<HashSet<(u32, u32, i32)>> = Lazy::new(|| {
     HashSet::from([
         (30, 9, 2000),
-        (17, 9, 2001),
+        (18, 9, 2001),
         (7, 9, 2002),
         (27, 9, 2003),
         (16, 9, 2004),
-- 
2.43.0


From fefb84c83904bb5a242e73b0c64810fcc71ec8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:38 +0000
Subject: [PATCH 22/54] fix: NYSE election-day closing is the Tuesday after the
 first Monday of November

---
 src/time/calendars/unitedstates.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/time/calendars/unitedstates.rs b/src/time/calendars/unitedstates.rs
index ea985f2..ed2ba8a 100644
--- a/src/time/calendars/unitedstates.rs
+++ b/src/time/calendars/unitedstates.rs
@@ -148,7 +148,10 @@ impl UnitedStates {
         }
 
         // Presidential election days
-        if (y <= 1968 || (y <= 1980 && y % 4 == 0)) && m == 11 && d <= 7 && w == Weekday::Tue {
+        if (y <= 1968 || (y <= 1980 && y % 4 == 0))
+            && m == 11
+            && (2..=8).contains(&d)
+            && w == Weekday::Tue {
             return false;
         }
 
-- 
2.43.0


From c0c81b0caea7e34f2a9c08dfb8dc00966dac612c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:19 +0000
Subject: [PATCH 23/54] fix: Taiwanese lunar new year and dragon boat festival
 of 2010 are in February and June

---
 src/time/calendars/taiwan.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/time/calendars/taiwan.rs b/src/time/calendars/taiwan.rs
index c938ffb..7180847 100644
--- a/src/time/calendars/taiwan.rs
+++ b/src/time/calendars/taiwan.rs
@@ -107,11 +107,11 @@ impl Calendar for Taiwan {
             return false;
         }
         // Year 2010
-        // Lunar New Year 01-13 to 01-21
-        // Dragon Boat Festival 05-16
+        // Lunar New Year 02-13 to 02-21
+        // Dragon Boat Festival 06-16
         // Moon Festival 09-22
         if (y == 2010)
-            && (((13..=21).contains(&d) && m == 1) || (d == 16 && m == 5) || (d == 22 && m == 9))
+            && (((13..=21).contains(&d) && m == 2) || (d == 16 && m == 6) || (d == 22 && m == 9))
         {
             return false;
         }
-- 
2.43.0


From eb1a9abe6f7d587376736c5bef8735068d472e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:19 +0000
Subject: [PATCH 24/54] fix: Singaporean Chinese new year of 2010 is in
 February

---
 src/time/calendars/singapore.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/time/calendars/singapore.rs b/src/time/calendars/singapore.rs
index 0987325..c885a61 100644
--- a/src/time/calendars/singapore.rs
+++ b/src/time/calendars/singapore.rs
@@ -32,7 +32,7 @@ impl Calendar for Singapore {
             || ((d == 19 || d == 20) && m == 2 && y == 2007)
             || ((d == 7 || d == 8) && m == 2 && y == 2008)
             || ((d == 26 || d == 27) && m == 1 && y == 2009)
-            || ((d == 15 || d == 16) && m == 1 && y == 2010)
+            || ((d == 15 || d == 16) && m == 2 && y == 2010)
             || ((d == 23 || d == 24) && m == 1 && y == 2012)
             || ((d == 11 || d == 12) && m == 2 && y == 2013)
             || (d == 31 && m == 1 && y == 2014)
-- 
2.43.0


From 84fa0b6bfd14ee83001f1c4b3648ea46aa18fb54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:41 +0000
Subject: [PATCH 25/54] fix: yield curve past its last pillar is flat at the
 last zero rate, not the first

---
 src/markets/termstructures/yieldcurve.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/markets/termstructures/yieldcurve.rs b/src/markets/termstructures/yieldcurve.rs
index 4646b6a..c82aec5 100644
--- a/src/markets/termstructures/yieldcurve.rs
+++ b/src/markets/termstructures/yieldcurve.rs
@@ -234,7 +234,10 @@ impl YieldTermStructure {
                 break;
             }
         }
-        if second == true_first {
+        if second.date < target_date {
+            // Past the last pillar: flat at the last zero rate.
+            first.zero_rate
+        } else if second == true_first {
             true_first.zero_rate
         } else {
             let d1 = (target_date - first.date).num_days() as f64;
-- 
2.43.0


From 0537a0da736931a754c0c7284079422b42023db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:41 +0000
Subject: [PATCH 26/54] fix: hidden pillars do not take part in zero-rate
 interpolation

---
 src/markets/termstructures/yieldcurve.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/markets/termstructures/yieldcurve.rs b/src/markets/termstructures/yieldcurve.rs
index c82aec5..dd8ec02 100644
--- a/src/markets/termstructures/yieldcurve.rs
+++ b/src/markets/termstructures/yieldcurve.rs
@@ -226,7 +226,9 @@ impl YieldTermStructure {
                 second = strip_curve;
                 break;
             }
-            first = strip_curve;
+            if !strip_curve.hidden_pillar {
+                first = strip_curve;
+            }
         }
         for strip_curve in &self.stripped_curves {
             if !strip_curve.hidden_pillar {
-- 
2.43.0


From 8264492901fa12e91dc84e48c1d018f55ce56928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:41 +0000
Subject: [PATCH 27/54] fix: the pillar closest to a date past the whole strip
 is the last one

---
 src/markets/termstructures/yieldcurve.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/markets/termstructures/yieldcurve.rs b/src/markets/termstructures/yieldcurve.rs
index dd8ec02..488cb08 100644
--- a/src/markets/termstructures/yieldcurve.rs
+++ b/src/markets/termstructures/yieldcurve.rs
@@ -62,6 +62,9 @@ pub trait InterestRateQuote {
             }
             first = stripped_curve;
         }
+        if second.date < target_date {
+            return first;
+        }
         if second == stripped_curves.first().unwrap() {
             first = stripped_curves.first().unwrap();
         }
-- 
2.43.0


From b82f9149fe2498698a23821962d5b7a363f1b263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:41 +0000
Subject: [PATCH 28/54] fix: cash quotes that share a maturity are stripped
 once each

---
 src/markets/termstructures/yieldcurve.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/markets/termstructures/yieldcurve.rs b/src/markets/termstructures/yieldcurve.rs
index 488cb08..d81e6d4 100644
--- a/src/markets/termstructures/yieldcurve.rs
+++ b/src/markets/termstructures/yieldcurve.rs
@@ -127,6 +127,7 @@ impl YieldTermMarketData {
             cash_quote_maturity.push(cash.maturity_date(self.valuation_date).unwrap());
         }
         cash_quote_maturity.sort();
+        cash_quote_maturity.dedup();
 
         for maturity in cash_quote_maturity {
             for cash in &self.cash_quote {
-- 
2.43.0


From 66f2799f6388f383f2bb422534ddd2fb03128a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:41 +0000
Subject: [PATCH 29/54] fix: stripped swap pillars carry their discount factor

---
 src/markets/termstructures/yieldcurve.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/markets/termstructures/yieldcurve.rs b/src/markets/termstructures/yieldcurve.rs
index d81e6d4..7b83eea 100644
--- a/src/markets/termstructures/yieldcurve.rs
+++ b/src/markets/termstructures/yieldcurve.rs
@@ -168,7 +168,11 @@ impl YieldTermMarketData {
                 source: swap.yts_type(),
             });
             let zero_rate = swap.solve_zero_rate(self.valuation_date, outputs.clone());
-            outputs.last_mut().unwrap().zero_rate = zero_rate;
+            let pillar = outputs.last_mut().unwrap();
+            let year_fraction =
+                Actual365Fixed::default().year_fraction(self.valuation_date, pillar.date)?;
+            pillar.zero_rate = zero_rate;
+            pillar.discount = (-zero_rate * year_fraction).exp();
         }
         Ok(outputs)
     }
-- 
2.43.0


From bfc5c2a691c9dee50941dd483676bbe03f08f0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:41 +0000
Subject: [PATCH 30/54] fix: swap strips also solve for negative zero rates

---
 src/derivatives/interestrate/swap.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/derivatives/interestrate/swap.rs b/src/derivatives/interestrate/swap.rs
index e258896..ba209d7 100644
--- a/src/derivatives/interestrate/swap.rs
+++ b/src/derivatives/interestrate/swap.rs
@@ -271,7 +271,7 @@ impl InterestRateSwap {
             self.calculate_npv(x, valuation_date, &mut stripped_curves.to_vec())
                 .unwrap()
         };
-        let root = find_root_brent(0f64, 0.5f64, &mut f, &mut convergency);
+        let root = find_root_brent(-0.25f64, 0.5f64, &mut f, &mut convergency);
         root.unwrap()
     }
 
-- 
2.43.0


From f89333cc7d39935129845365e62e0cc0dd7713b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:54 +0000
Subject: [PATCH 31/54] fix: AONIA fixes on the Australian calendar, not the
 Austrian one

---
 src/markets/interestrate/interestrateindex.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/markets/interestrate/interestrateindex.rs b/src/markets/interestrate/interestrateindex.rs
index e0f24be..31da32e 100644
--- a/src/markets/interestrate/interestrateindex.rs
+++ b/src/markets/interestrate/interestrateindex.rs
@@ -1,7 +1,7 @@
 use crate::time::businessdayconvention::BusinessDayConvention;
 use crate::time::calendars::unitedkingdom::UnitedKingdomMarket;
 use crate::time::calendars::unitedstates::UnitedStatesMarket;
-use crate::time::calendars::{Austria, Calendar, Target, UnitedKingdom, UnitedStates};
+use crate::time::calendars::{Australia, Calendar, Target, UnitedKingdom, UnitedStates};
 use crate::time::daycounters::DayCounters;
 use crate::time::daycounters::actual360::Actual360;
 use crate::time::daycounters::actual365fixed::Actual365Fixed;
@@ -41,7 +41,7 @@ impl InterestRateIndex {
                 period: Period::SPOT,
                 settlement_days: 0,
                 currency: AUD,
-                calendar: Box::<Austria>::default(),
+                calendar: Box::<Australia>::default(),
                 convention: BusinessDayConvention::ModifiedFollowing,
                 day_counter: Box::<Actual365Fixed>::default(),
                 end_of_month: false,
-- 
2.43.0


From 0c99a9d9d58e70fba891f58be1d70d624d6893d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:54 +0000
Subject: [PATCH 32/54] fix: CDOR is a Canadian dollar index (calendar,
 Act/365)

---
 src/markets/interestrate/interestrateindex.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/markets/interestrate/interestrateindex.rs b/src/markets/interestrate/interestrateindex.rs
index 31da32e..e8cff72 100644
--- a/src/markets/interestrate/interestrateindex.rs
+++ b/src/markets/interestrate/interestrateindex.rs
@@ -1,13 +1,13 @@
 use crate::time::businessdayconvention::BusinessDayConvention;
 use crate::time::calendars::unitedkingdom::UnitedKingdomMarket;
 use crate::time::calendars::unitedstates::UnitedStatesMarket;
-use crate::time::calendars::{Australia, Calendar, Target, UnitedKingdom, UnitedStates};
+use crate::time::calendars::{Australia, Calendar, Canada, Target, UnitedKingdom, UnitedStates};
 use crate::time::daycounters::DayCounters;
 use crate::time::daycounters::actual360::Actual360;
 use crate::time::daycounters::actual365fixed::Actual365Fixed;
 use crate::time::period::Period;
 use iso_currency::Currency;
-use iso_currency::Currency::{AUD, EUR, GBP, USD};
+use iso_currency::Currency::{AUD, CAD, EUR, GBP, USD};
 use serde::{Deserialize, Serialize};
 
 #[allow(clippy::upper_case_acronyms)]
@@ -49,12 +49,10 @@ impl InterestRateIndex {
             InterestRateIndexEnum::CDOR(period) => Some(InterestRateIndex {
                 period,
                 settlement_days: 0,
-                currency: USD,
-                calendar: Box::new(UnitedStates {
-                    market: Some(UnitedStatesMarket::SOFR),
-                }),
+                currency: CAD,
+                calendar: Box::<Canada>::default(),
                 convention: BusinessDayConvention::ModifiedFollowing,
-                day_counter: Box::new(Actual360),
+                day_counter: Box::<Actual365Fixed>::default(),
                 end_of_month: false,
             }),
             InterestRateIndexEnum::EONIA => Some(InterestRateIndex {
-- 
2.43.0


From 26af7b690235d2dc3b03bb488de74c744f84a7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:23 +0000
Subject: [PATCH 33/54] fix: option delta and gamma convert a domestic notional
 at the strike, as premium and vega do

---
 src/derivatives/forex/option.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/derivatives/forex/option.rs b/src/derivatives/forex/option.rs
index c1f96a5..5d8f9eb 100644
--- a/src/derivatives/forex/option.rs
+++ b/src/derivatives/forex/option.rs
@@ -141,6 +141,15 @@ impl FXVanillaOption {
     fn direction_sign(&self) -> f64 {
         self.basic_info.direction as i8 as f64
     }
+
+    /// Notional in base (foreign) currency; a domestic notional converts at the strike.
+    fn base_notional(&self) -> f64 {
+        if self.notional_currency == self.asset.frn_currency() {
+            self.notional_amounts
+        } else {
+            self.notional_amounts / self.strike
+        }
+    }
 }
 
 impl FXDerivatives for FXVanillaOption {
@@ -185,7 +194,7 @@ impl FXDerivatives for FXVanillaOption {
         let ctx = self.bs_context(market)?;
         let omega = self.option_type.omega();
         let fwd_delta_per_unit = omega * cdf(omega * ctx.d1);
-        let delta = self.notional_amounts * self.direction_sign() * fwd_delta_per_unit;
+        let delta = self.base_notional() * self.direction_sign() * fwd_delta_per_unit;
         Ok(CurrencyValue {
             currency: self.asset.frn_currency(),
             value: delta,
@@ -200,7 +209,7 @@ impl FXDerivatives for FXVanillaOption {
             return Ok(0.0);
         }
         let gamma_per_unit = ctx.discount * pdf(ctx.d1) / (ctx.forward * ctx.sqrt_v);
-        Ok(self.notional_amounts * self.direction_sign() * gamma_per_unit)
+        Ok(self.base_notional() * self.direction_sign() * gamma_per_unit)
     }
 
     /// Black-Scholes vega per **1 % change** in volatility, converted to the
-- 
2.43.0


From 0b443aac33a74770ed9f841edfb66d410d08a8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:23 +0000
Subject: [PATCH 34/54] fix: option Greeks at the money with zero volatility
 are finite

---
 src/derivatives/forex/option.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/derivatives/forex/option.rs b/src/derivatives/forex/option.rs
index 5d8f9eb..ea203d6 100644
--- a/src/derivatives/forex/option.rs
+++ b/src/derivatives/forex/option.rs
@@ -122,7 +122,13 @@ impl FXVanillaOption {
             .year_fraction(market.valuation_date, self.basic_info.expiry_date)?;
         let variance = self.volatility * self.volatility * year_fraction;
         let sqrt_v = variance.sqrt();
-        let d1 = ((forward / self.strike).ln() + 0.5 * variance) / sqrt_v;
+        let log_moneyness = (forward / self.strike).ln();
+        // At the money with no variance left the ratio is 0/0; its limit is zero.
+        let d1 = if sqrt_v == 0.0 && log_moneyness == 0.0 {
+            0.0
+        } else {
+            (log_moneyness + 0.5 * variance) / sqrt_v
+        };
         let discount = market.domestic_curve.discount(
             self.basic_info.expiry_date,
             &InterpolationMethodEnum::StepFunctionForward,
-- 
2.43.0


From 53babbf78ee550543489d6b33ec10c84606f53bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:23 +0000
Subject: [PATCH 35/54] fix: FxMarketContext::forward_at returns the outright
 forward, not the raw points

---
 src/markets/forex/market_context.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/markets/forex/market_context.rs b/src/markets/forex/market_context.rs
index 6e2f5c2..24fdac4 100644
--- a/src/markets/forex/market_context.rs
+++ b/src/markets/forex/market_context.rs
@@ -41,6 +41,7 @@
 //!      └─ Simulator::from_market(&ctx)                       ← MC paths
 //! ```
 
+use crate::derivatives::forex::basic::FXUnderlying;
 use crate::error::{Error, Result};
 use crate::markets::forex::quotes::forwardpoints::{FXForwardHelper, FXForwardQuote};
 use crate::markets::forex::quotes::volsurface::{FXDeltaVolPillar, FXVolQuote, FXVolSurface};
@@ -153,17 +154,27 @@ impl FxMarketContext {
         ))
     }
 
+    /// The pair as an [`FXUnderlying`], where it is one.
+    fn underlying(pair: (Currency, Currency)) -> Option<FXUnderlying> {
+        format!("{}{}", pair.1.code(), pair.0.code()).parse().ok()
+    }
+
     /// Outright forward `F(T) = S + forward_points(T)` resolved via
     /// the underlying [`FXForwardHelper`]. `calendar` is the
     /// settlement calendar for the pair (typically the joint
     /// domestic/foreign calendar).
     pub fn forward_at(&self, date: NaiveDate, calendar: &dyn Calendar) -> Result<f64> {
-        self.forwards.get_forward(date, calendar)?.ok_or_else(|| {
+        let points = self.forwards.get_forward(date, calendar)?.ok_or_else(|| {
             Error::InvalidData(format!(
                 "FxMarketContext.forward_at({}): outside forward range ({} → ...)",
                 date, self.valuation_date,
             ))
-        })
+        })?;
+        let points_per_unit = match Self::underlying(self.pair) {
+            Some(underlying) => underlying.forward_points_converter(),
+            None => 10000f64,
+        };
+        Ok(self.spot + points / points_per_unit)
     }
 
     /// Domestic zero rate via step-function-forward interpolation.
-- 
2.43.0


From bf81a142a7e2aaf63ac069af8611aadb51f1f624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:23 +0000
Subject: [PATCH 36/54] fix: FxMarketContext::from_raw_quotes dates forward
 points with the pair's own spot lag

---
 src/markets/forex/market_context.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/markets/forex/market_context.rs b/src/markets/forex/market_context.rs
index 24fdac4..c28aadf 100644
--- a/src/markets/forex/market_context.rs
+++ b/src/markets/forex/market_context.rs
@@ -141,7 +141,10 @@ impl FxMarketContext {
             valuation_date,
             foreign_ir.get_stripped_curve()?,
         );
-        let forwards = FXForwardHelper::new(valuation_date, spot, fx_forward_quotes);
+        let forwards = match Self::underlying(pair) {
+            Some(underlying) => underlying.forward_helper(valuation_date, spot, fx_forward_quotes),
+            None => FXForwardHelper::new(valuation_date, spot, fx_forward_quotes),
+        };
         let vol_surface = FXVolSurface::new(valuation_date, vol_pillars)?;
         Ok(Self::new(
             valuation_date,
-- 
2.43.0


From 922ce417275d4ee04e5cb64078d8039d6a63196c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:15 +0000
Subject: [PATCH 37/54] fix: caplet pillars of a non-rectangular grid keep each
 strike column's own strip

---
 src/markets/interestrate/volsurface.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/markets/interestrate/volsurface.rs b/src/markets/interestrate/volsurface.rs
index 5c5f969..9b34288 100644
--- a/src/markets/interestrate/volsurface.rs
+++ b/src/markets/interestrate/volsurface.rs
@@ -134,8 +134,8 @@ pub struct CapletVolPillar {
 /// by strike, run an independent 1-D sequential bootstrap per strike across
 /// the maturities that strike was quoted at, then assemble pillars by taking
 /// the union of all seen maturities. Non-rectangular grids are supported —
-/// at a given expiry, a strike is represented by the most-recent (≤ expiry)
-/// stripped σ on its column.
+/// at a given expiry, a strike is represented by the σ its own column's strip
+/// uses there: the first stripped point at or after that expiry, or the last.
 #[derive(Debug)]
 pub struct IRNormalVolSurface {
     pub valuation_date: NaiveDate,
@@ -278,9 +278,9 @@ fn strip_caplet_vols(
     all_expiries.sort();
     all_expiries.dedup();
 
-    // 4. Build one pillar per expiry. For each strike column, pick the most
-    //    recent strip point whose expiry ≤ the pillar expiry. Columns with
-    //    no contribution at or before this expiry simply don't participate.
+    // 4. Build one pillar per expiry. For each strike column, pick the strip
+    //    point its own bootstrap used at the pillar expiry (the first at or
+    //    after it), so that every column still reprices its quotes.
     let mut pillars: Vec<CapletVolPillar> = Vec::with_capacity(all_expiries.len());
     for exp in all_expiries {
         let mut nodes: Vec<(f64, f64)> = columns
@@ -288,7 +288,8 @@ fn strip_caplet_vols(
             .filter_map(|(k, strip)| {
                 strip
                     .iter()
-                    .rfind(|p| p.expiry <= exp)
+                    .find(|p| exp <= p.expiry)
+                    .or(strip.last())
                     .map(|p| (*k, p.sigma))
             })
             .collect();
-- 
2.43.0


From c7e14fe14327e8e673995bdd818c96b507cbc7f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:15 +0000
Subject: [PATCH 38/54] fix: swap schedules count periods when tenor and
 duration are in different units

---
 src/derivatives/interestrate/swap.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/derivatives/interestrate/swap.rs b/src/derivatives/interestrate/swap.rs
index ba209d7..e71a6d3 100644
--- a/src/derivatives/interestrate/swap.rs
+++ b/src/derivatives/interestrate/swap.rs
@@ -129,13 +129,17 @@ impl InterestRateSwapLeg {
 
             // TODO: amortisation
             let tenor_num = match self.schedule_detail.tenor {
-                Period::Days(num) | Period::Weeks(num) => num as u32,
-                Period::Months(num) | Period::Years(num) => num,
+                Period::Days(num) => num as u32,
+                Period::Weeks(num) => num as u32 * 7,
+                Period::Months(num) => num,
+                Period::Years(num) => num * 12,
                 _ => 1,
             };
             let duration_num = match self.schedule_detail.duration {
-                Period::Days(num) | Period::Weeks(num) => num as u32,
-                Period::Months(num) | Period::Years(num) => num,
+                Period::Days(num) => num as u32,
+                Period::Weeks(num) => num as u32 * 7,
+                Period::Months(num) => num,
+                Period::Years(num) => num * 12,
                 _ => 1,
             };
 
-- 
2.43.0


From 1adf17f7c5b9849fb3b958318ee21068ec5fe8d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:15 +0000
Subject: [PATCH 39/54] fix: a notified curve takes over the market data's
 valuation date

---
 src/markets/termstructures/yieldcurve.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/markets/termstructures/yieldcurve.rs b/src/markets/termstructures/yieldcurve.rs
index 7b83eea..78de3a4 100644
--- a/src/markets/termstructures/yieldcurve.rs
+++ b/src/markets/termstructures/yieldcurve.rs
@@ -328,6 +328,7 @@ impl Observer for YieldTermStructure {
         if let Some(concrete_observable) = observable.as_any().downcast_ref::<YieldTermMarketData>()
         {
             self.stripped_curves = concrete_observable.get_stripped_curve()?;
+            self.valuation_date = concrete_observable.valuation_date;
             Ok(())
         } else {
             Ok(())
-- 
2.43.0


From 0cc39d21f067d0371ba0b18349d6fd5bb448d8a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:21 +0000
Subject: [PATCH 40/54] =?UTF-8?q?fix:=20time-dependent=20SABR=20simulation?=
 =?UTF-8?q?=20follows=20the=20=CE=B1(t)=20schedule=20after=20t=20=3D=200?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/models/forex/sabr_time_dependent.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/models/forex/sabr_time_dependent.rs b/src/models/forex/sabr_time_dependent.rs
index 3d04e83..6077e01 100644
--- a/src/models/forex/sabr_time_dependent.rs
+++ b/src/models/forex/sabr_time_dependent.rs
@@ -147,8 +147,10 @@ impl TimeDependentSabrSimulator {
         let dw_f = sqrt_dt * z1;
         let dw_a = sqrt_dt * (p.rho * z1 + sqrt_one_minus_rho_sq * z2);
 
+        // `state.vol` is `α(t)·ξ(t)` at the start of the step; bring it to
+        // the α level in force during the step (ratio is 1 off the knots).
         let f = state.forward.max(0.0);
-        let alpha = state.vol.max(0.0);
+        let alpha = state.vol.max(0.0) * (p.alpha / self.alpha_level(t_mid - 0.5 * dt));
 
         // Full-truncation Euler on F.
         let diffusion_f = alpha * f.powf(p.beta) * dw_f;
@@ -163,7 +165,9 @@ impl TimeDependentSabrSimulator {
         // constant-param SABR when schedules are flat.
         let log_drift = -0.5 * p.nu * p.nu * dt;
         let log_diffusion = p.nu * dw_a;
-        let new_vol = alpha * (log_drift + log_diffusion).exp();
+        let new_vol = alpha
+            * (log_drift + log_diffusion).exp()
+            * (self.alpha_level(t_mid + 0.5 * dt) / p.alpha);
 
         (
             SabrState {
@@ -174,6 +178,14 @@ impl TimeDependentSabrSimulator {
         )
     }
 
+    /// `α` in force just before `t`. Evaluated a hair to the left so the
+    /// end of one step and the start of the next read the same segment
+    /// whatever rounding the caller's time grid carries.
+    fn alpha_level(&self, t: f64) -> f64 {
+        let horizon = self.params.horizon();
+        self.params.alpha.at((t - 1.0e-9).clamp(0.0, horizon))
+    }
+
     /// Simulate up to `t_end` on a uniform grid of `n_steps` steps.
     /// The schedule is evaluated at each sub-step midpoint. For
     /// knot-aligned stepping use [`simulate_at_dates`] with observation
-- 
2.43.0


From 23537cd7ee311752d535610698b072c2afcbf73f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:21 +0000
Subject: [PATCH 41/54] =?UTF-8?q?fix:=20time-dependent=20SABR=20calibratio?=
 =?UTF-8?q?n=20carries=20the=20clamped=20=CF=81=20into=20later=20pillars?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/models/forex/sabr_time_dependent_calibrator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/models/forex/sabr_time_dependent_calibrator.rs b/src/models/forex/sabr_time_dependent_calibrator.rs
index 3ea25c1..77a763d 100644
--- a/src/models/forex/sabr_time_dependent_calibrator.rs
+++ b/src/models/forex/sabr_time_dependent_calibrator.rs
@@ -237,7 +237,6 @@ pub fn calibrate_time_dependent(
         );
         let rhs = target * gamma_tilde * t / omega_tilde;
         let rho_i = (rhs - tail_sum) / s_i;
-        tail_sum += rho_i * s_i;
 
         // Clamp into `(−1, 1)` — the calibration target is a smile
         // quantity, not a correlation, so a slight boundary violation
@@ -245,6 +244,7 @@ pub fn calibrate_time_dependent(
         // with a logged warning is benign; callers that need strict
         // bounds should add a pillar.
         let rho_i_clamped = rho_i.clamp(-0.999, 0.999);
+        tail_sum += rho_i_clamped * s_i;
         rho_values.push(rho_i_clamped);
     }
     let rho_sched = PiecewiseConstant::new(knots, rho_values);
-- 
2.43.0


From 228526ad4a43f0a57bc12d945a303af40f5e24ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:04 +0000
Subject: [PATCH 42/54] =?UTF-8?q?fix:=20time-dependent=20SABR=20calibratio?=
 =?UTF-8?q?n=20seeds=20=CE=B1=20on=20the=20scale=20of=20the=20pillar's=20f?=
 =?UTF-8?q?orward?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/models/forex/sabr_time_dependent_calibrator.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/models/forex/sabr_time_dependent_calibrator.rs b/src/models/forex/sabr_time_dependent_calibrator.rs
index 77a763d..259cb15 100644
--- a/src/models/forex/sabr_time_dependent_calibrator.rs
+++ b/src/models/forex/sabr_time_dependent_calibrator.rs
@@ -98,7 +98,10 @@ pub fn calibrate_time_dependent(
     let market: Vec<SabrParams> = pillars
         .iter()
         .map(|pi| {
-            let seed = SabrParams::new(pi.market_vols[pi.market_vols.len() / 2], beta, -0.20, 0.30);
+            // α carries the F^{1−β} of the ATM vol `α·F^{β−1}`.
+            let alpha_seed =
+                pi.market_vols[pi.market_vols.len() / 2] * pi.forward.powf(1.0 - beta);
+            let seed = SabrParams::new(alpha_seed, beta, -0.20, 0.30);
             let tgts: Vec<CalibrationTarget> = targets_from_grid(&pi.strikes, &pi.market_vols);
             let res = calibrate_sabr(seed, pi.forward, &tgts, pi.expiry, stage1_options);
             res.params
-- 
2.43.0


From af3dc295c2b1cd622fa90cc8af99196c1d0e85dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:48 +0000
Subject: [PATCH 43/54] =?UTF-8?q?fix:=20FX-HHW1=20transform=20evaluates=20?=
 =?UTF-8?q?=CF=86,=20B=5Fd=20and=20B=5Ff=20at=20the=20calendar=20time=20th?=
 =?UTF-8?q?at=20matches=20C's=20time=20to=20maturity?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/models/forex/fx_hhw1_chf.rs | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/src/models/forex/fx_hhw1_chf.rs b/src/models/forex/fx_hhw1_chf.rs
index e23d0e2..740b05a 100644
--- a/src/models/forex/fx_hhw1_chf.rs
+++ b/src/models/forex/fx_hhw1_chf.rs
@@ -67,17 +67,18 @@ pub struct FxHhw1ForwardChf<'a> {
 }
 
 /// Cache of `u`-independent integrand pieces on the Simpson grid for
-/// `s ∈ {0, h, 2h, …, n·h = expiry}`.
+/// times to maturity `s ∈ {0, h, 2h, …, n·h = expiry}`, i.e. calendar
+/// times `t = expiry − s`.
 #[derive(Clone, Debug)]
 struct SimpsonGrid {
     h: f64,
-    /// `φ(s_k) = E[√σ(s_k)]`.
+    /// `φ(t_k) = E[√σ(t_k)]`.
     phi: Vec<f64>,
-    /// `B_d(s_k, expiry)`.
+    /// `B_d(t_k, expiry)`.
     bd: Vec<f64>,
-    /// `B_f(s_k, expiry)`.
+    /// `B_f(t_k, expiry)`.
     bf: Vec<f64>,
-    /// `ζ_no_phi(s_k) = ρ_df η_d η_f B_d B_f − ½(η_d² B_d² + η_f² B_f²)`
+    /// `ζ_no_phi(t_k) = ρ_df η_d η_f B_d B_f − ½(η_d² B_d² + η_f² B_f²)`
     /// (the part of `ζ(s)` that doesn't multiply `φ`).
     zeta_no_phi: Vec<f64>,
     /// `ρ_xd·η_d·B_d − ρ_xf·η_f·B_f` — coefficient of `φ` in `ζ(s)`.
@@ -96,10 +97,10 @@ impl SimpsonGrid {
         let eta_f = params.foreign.sigma;
         let rho = &params.correlations;
         for k in 0..=n {
-            let s = k as f64 * h;
-            let p = params.heston.sqrt_mean(s);
-            let bds = params.domestic.b(s, expiry);
-            let bfs = params.foreign.b(s, expiry);
+            let t = (expiry - k as f64 * h).max(0.0);
+            let p = params.heston.sqrt_mean(t);
+            let bds = params.domestic.b(t, expiry);
+            let bfs = params.foreign.b(t, expiry);
             phi.push(p);
             bd.push(bds);
             bf.push(bfs);
@@ -281,17 +282,19 @@ fn a_of_tau_cached(u: Complex64, params: &FxHhwParams, grid: &SimpsonGrid) -> Co
     acc * (grid.h / 3.0)
 }
 
-/// `A'(s)` integrand. `s` is the running time inside the quadrature,
-/// `big_t` is the fixed expiry used in `B_d(s, T)`, `B_f(s, T)`.
+/// `A'(s)` integrand. `s` is the running time to maturity inside the
+/// quadrature, `big_t` is the fixed expiry; `φ(t)`, `B_d(t, T)` and
+/// `B_f(t, T)` are taken at the matching calendar time `t = T − s`.
 fn integrand(u: Complex64, s: f64, big_t: f64, params: &FxHhwParams) -> Complex64 {
     let c = c_of_tau(u, s, params);
     let iu = Complex64::new(0.0, 1.0) * u;
     let one_minus_iu = Complex64::new(1.0, 0.0) - iu;
     let u2_plus_iu = u * u + iu;
 
-    let phi = params.heston.sqrt_mean(s);
-    let bd = params.domestic.b(s, big_t);
-    let bf = params.foreign.b(s, big_t);
+    let t = (big_t - s).max(0.0);
+    let phi = params.heston.sqrt_mean(t);
+    let bd = params.domestic.b(t, big_t);
+    let bf = params.foreign.b(t, big_t);
     let eta_d = params.domestic.sigma;
     let eta_f = params.foreign.sigma;
     let rho = &params.correlations;
-- 
2.43.0


From 165b02d9d06374d58d34e564114e6c2d33170584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:26 +0000
Subject: [PATCH 44/54] fix: keep the FX-HLMM1 Heston term finite where x + d
 vanishes

---
 src/models/forex/fx_hlmm1_chf.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/models/forex/fx_hlmm1_chf.rs b/src/models/forex/fx_hlmm1_chf.rs
index 2f75c50..8620b0a 100644
--- a/src/models/forex/fx_hlmm1_chf.rs
+++ b/src/models/forex/fx_hlmm1_chf.rs
@@ -291,12 +291,12 @@ fn heston_a_closed_form(
     let iu = Complex64::new(0.0, 1.0) * u;
     let x = kappa_c - gamma_c * rho_c * iu;
     let d = (x * x - gamma_c * gamma_c * iu * (iu - Complex64::new(1.0, 0.0))).sqrt();
-    let g = (x - d) / (x + d);
     let e = (-d * tau).exp();
     let kappa_theta = Complex64::new(kappa * theta, 0.0);
-    kappa_theta / (gamma_c * gamma_c)
-        * ((x - d) * tau
-            - 2.0 * ((Complex64::new(1.0, 0.0) - g * e) / (Complex64::new(1.0, 0.0) - g)).ln())
+    // (1 − g e)/(1 − g) with g = (x − d)/(x + d), multiplied through by
+    // x + d, which vanishes at u = −i when κ < γρ.
+    let ratio = (x + d - (x - d) * e) / (2.0 * d);
+    kappa_theta / (gamma_c * gamma_c) * ((x - d) * tau - 2.0 * ratio.ln())
 }
 
 /// Advance one segment of the Riccati
-- 
2.43.0


From d0a2e0ee15b3df4120bb10349b2ba567aebede02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:21 +0000
Subject: [PATCH 45/54] fix: take FMM period-start snapshots and start x_k at
 the tenor date itself

---
 src/models/forex/fx_fmm_simulator.rs | 12 +++++-------
 src/models/interestrate/fmm.rs       | 18 ++++++++----------
 2 files changed, 13 insertions(+), 17 deletions(-)

diff --git a/src/models/forex/fx_fmm_simulator.rs b/src/models/forex/fx_fmm_simulator.rs
index 79bc89e..f079eda 100644
--- a/src/models/forex/fx_fmm_simulator.rs
+++ b/src/models/forex/fx_fmm_simulator.rs
@@ -255,11 +255,9 @@ impl FxFmmSimulator {
         }
 
         // --- x_k(t) inside-period evolution (both sides) -------------------
-        if eta_old >= 1 && eta_old <= m {
-            let k = eta_old;
+        if let Some(k) = (1..=m).find(|&j| t < tenor.dates[j]) {
             let tk_minus_1 = tenor.dates[k - 1];
-            let tk = tenor.dates[k];
-            if t > tk_minus_1 && t < tk {
+            if t >= tk_minus_1 {
                 let tau_k = tenor.tau(k);
                 let g_k = 1.0 / tau_k; // linear decay
                 let r_d_mid = 0.5 * (state.rates_d[k - 1] + new_rates_d[k - 1]);
@@ -284,9 +282,9 @@ impl FxFmmSimulator {
         state.t += dt;
 
         // --- Period-crossing snapshots on both sides ----------------------
-        let eta_new = tenor.eta(state.t);
-        if eta_new > eta_old {
-            for k in (eta_old + 1)..=eta_new.min(m) {
+        for k in 1..=m {
+            let tk_minus_1 = tenor.dates[k - 1];
+            if t < tk_minus_1 && state.t >= tk_minus_1 {
                 state.rates_at_start_d[k - 1] = state.rates_d[k - 1];
                 state.rates_at_start_f[k - 1] = state.rates_f[k - 1];
                 state.y_at_start_d[k - 1] = state.y_diag_d[k - 1];
diff --git a/src/models/interestrate/fmm.rs b/src/models/interestrate/fmm.rs
index 48dd7c8..da6fdd6 100644
--- a/src/models/interestrate/fmm.rs
+++ b/src/models/interestrate/fmm.rs
@@ -500,16 +500,14 @@ impl FmmSimulator {
             path.y_diag[j - 1] += integrand * effective_dt;
         }
 
-        // Evolve x_k(t) for the currently-active rate k = η_old via
+        // Evolve x_k(t) for the period k this step starts in, via
         // paper eq. (33): dx_k = g_k(t) y_k(t) dt + (σ_k·L_k)/(R_k+1/τ_k) dW_k.
-        // Only meaningful inside the period (t_{k-1} < t < T_k). The σ·L
+        // Only meaningful inside the period (T_{k-1} ≤ t < T_k). The σ·L
         // prefactor picks up whatever vol schedule / displacement is set
         // on the model.
-        if eta_old >= 1 && eta_old <= m {
-            let k = eta_old;
+        if let Some(k) = (1..=m).find(|&j| t < self.model.tenor.dates[j]) {
             let tk_minus_1 = self.model.tenor.dates[k - 1];
-            let tk = self.model.tenor.dates[k];
-            if t > tk_minus_1 && t < tk {
+            if t >= tk_minus_1 {
                 let tau_k = self.model.tenor.tau(k);
                 let r_k_mid = 0.5 * (path.rates[k - 1] + new_rates[k - 1]);
                 let sig_adapt_k = self.model.adapted_vol(k, t_mid, r_k_mid);
@@ -525,14 +523,14 @@ impl FmmSimulator {
         path.rates = new_rates;
         path.t += dt;
 
-        // Period-crossing snapshots: if we just crossed T_{k−1} (the
+        // Period-crossing snapshots: if we just reached T_{k−1} (the
         // start of rate k's application period), capture R_k and Y_{k,k}
         // at that moment and reset x_active so the front-stub formula
         // reads the correct reference values. (For k = 1 the snapshot
         // is set in `initial_path` already — t crosses T_0 = 0 trivially.)
-        let eta_new = self.model.tenor.eta(path.t);
-        if eta_new > eta_old {
-            for k in (eta_old + 1)..=eta_new.min(m) {
+        for k in 1..=m {
+            let tk_minus_1 = self.model.tenor.dates[k - 1];
+            if t < tk_minus_1 && path.t >= tk_minus_1 {
                 path.rates_at_start[k - 1] = path.rates[k - 1];
                 path.y_at_start[k - 1] = path.y_diag[k - 1];
                 path.x_active = 0.0;
-- 
2.43.0


From 221a179d981a7096468a341549e102c284d18509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:21 +0000
Subject: [PATCH 46/54] fix: end the FX-FMM1 rate segments at the last tenor
 date when the expiry lies beyond it

---
 src/models/forex/fx_fmm1_chf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/models/forex/fx_fmm1_chf.rs b/src/models/forex/fx_fmm1_chf.rs
index 900e6fb..537c52e 100644
--- a/src/models/forex/fx_fmm1_chf.rs
+++ b/src/models/forex/fx_fmm1_chf.rs
@@ -132,7 +132,7 @@ impl<'a> FxFmm1ForwardChf<'a> {
         // (0, expiry]. Same logic as FX-HLMM, reusing the τ = T − T_k
         // mapping in reverse order.
         let mut tau_boundaries: Vec<f64> = Vec::new();
-        for k in (0..=m - 1).rev() {
+        for k in (0..=m).rev() {
             let tau_b = expiry - tenor.dates[k];
             if tau_b > 0.0 && tau_b < expiry + 1e-12 {
                 tau_boundaries.push(tau_b);
-- 
2.43.0


From 484bb98a8f8dfc6fe93860c5a96b0f2ad50975b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:21 +0000
Subject: [PATCH 47/54] fix: keep the FX-FMM1 Heston term finite where x + d
 vanishes

---
 src/models/forex/fx_fmm1_chf.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/models/forex/fx_fmm1_chf.rs b/src/models/forex/fx_fmm1_chf.rs
index 537c52e..5a37581 100644
--- a/src/models/forex/fx_fmm1_chf.rs
+++ b/src/models/forex/fx_fmm1_chf.rs
@@ -345,12 +345,12 @@ fn heston_a_closed_form(
     let iu = Complex64::new(0.0, 1.0) * u;
     let x = kappa_c - gamma_c * rho_c * iu;
     let d = (x * x - gamma_c * gamma_c * iu * (iu - Complex64::new(1.0, 0.0))).sqrt();
-    let g = (x - d) / (x + d);
     let e = (-d * tau).exp();
     let kappa_theta = Complex64::new(kappa * theta, 0.0);
-    kappa_theta / (gamma_c * gamma_c)
-        * ((x - d) * tau
-            - 2.0 * ((Complex64::new(1.0, 0.0) - g * e) / (Complex64::new(1.0, 0.0) - g)).ln())
+    // (1 − g e)/(1 − g) with g = (x − d)/(x + d), multiplied through by
+    // x + d, which vanishes at u = −i when κ < γρ.
+    let ratio = (x + d - (x - d) * e) / (2.0 * d);
+    kappa_theta / (gamma_c * gamma_c) * ((x - d) * tau - 2.0 * ratio.ln())
 }
 
 /// Piecewise-constant Riccati step `D' = A·(B²−B)/2 − λ·D + η²·D²/2`
-- 
2.43.0


From 3607232b6e29ab5701bb34e67e15ea04fc86728f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:41 +0000
Subject: [PATCH 48/54] fix: stop the hybrid calibrators' discount factor at
 the expiry

---
 src/models/forex/fx_fmm_calibrator.rs  | 7 ++++++-
 src/models/forex/fx_hlmm_calibrator.rs | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/models/forex/fx_fmm_calibrator.rs b/src/models/forex/fx_fmm_calibrator.rs
index 44a6257..bf02bca 100644
--- a/src/models/forex/fx_fmm_calibrator.rs
+++ b/src/models/forex/fx_fmm_calibrator.rs
@@ -124,7 +124,12 @@ pub fn discount_factor(params: &FxFmmParams, expiry: f64) -> f64 {
     let m = tenor.m();
     let mut p = 1.0_f64;
     for k in 1..=m {
-        p /= 1.0 + tenor.tau(k) * tenor.initial_rates[k - 1];
+        // A period the expiry falls inside accrues only up to the expiry.
+        let accrued = expiry.min(tenor.dates[k]) - tenor.dates[k - 1];
+        if accrued <= 0.0 {
+            break;
+        }
+        p /= 1.0 + accrued * tenor.initial_rates[k - 1];
     }
     let tn = tenor.dates[m];
     if expiry > tn + 1e-12 {
diff --git a/src/models/forex/fx_hlmm_calibrator.rs b/src/models/forex/fx_hlmm_calibrator.rs
index a8eb678..e8fcf9e 100644
--- a/src/models/forex/fx_hlmm_calibrator.rs
+++ b/src/models/forex/fx_hlmm_calibrator.rs
@@ -117,7 +117,12 @@ pub fn discount_factor(params: &FxHlmmParams, expiry: f64) -> f64 {
     let n = tenor.n();
     let mut p = 1.0_f64;
     for k in 1..=n {
-        p /= 1.0 + tenor.tau(k) * tenor.libors[k - 1];
+        // A period the expiry falls inside accrues only up to the expiry.
+        let accrued = expiry.min(tenor.dates[k]) - tenor.dates[k - 1];
+        if accrued <= 0.0 {
+            break;
+        }
+        p /= 1.0 + accrued * tenor.libors[k - 1];
     }
     let tn = tenor.dates[n];
     if expiry > tn + 1e-12 {
-- 
2.43.0


From f46072192708d56b0d0401f36ffabaff960ef491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:13 +0000
Subject: [PATCH 49/54] fix: widen the default COS range where the initial
 variance exceeds its long-run level

---
 src/models/common/cos_pricer.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/models/common/cos_pricer.rs b/src/models/common/cos_pricer.rs
index 8cdfa92..e0e22a1 100644
--- a/src/models/common/cos_pricer.rs
+++ b/src/models/common/cos_pricer.rs
@@ -19,6 +19,7 @@
 //! half-width of `L · √(σ̄·T)` — a conservative Heston-style rule with
 //! `L = 10`. Callers can override via [`CosPricer::with_range`].
 
+use crate::models::common::cir::CirProcess;
 use crate::models::forex::fx_hhw1_chf::FxHhw1ForwardChf;
 use crate::models::forex::fx_hlmm1_chf::FxHlmm1ForwardChf;
 use num_complex::Complex64;
@@ -36,10 +37,18 @@ pub trait ForwardChf {
     fn log_forward(&self) -> f64;
     /// Typical instantaneous variance of `log FX_T(T)`. Used to set the
     /// COS half-width; a factor-10 is applied on top. For Heston-type
-    /// models this is just the long-run variance `σ̄`.
+    /// models this is the long-run variance `σ̄`, or the average variance
+    /// expected over `[0, T]` where the initial variance makes it larger.
     fn typical_variance(&self) -> f64;
 }
 
+/// The larger of the long-run variance and the variance expected on
+/// average over `[0, t]`.
+fn heston_variance(heston: &CirProcess, t: f64) -> f64 {
+    let weight = -(-heston.kappa * t).exp_m1() / (heston.kappa * t);
+    heston.theta + (heston.sigma_0 - heston.theta).max(0.0) * weight
+}
+
 impl<'a> ForwardChf for FxHhw1ForwardChf<'a> {
     fn evaluate(&self, u: Complex64) -> Complex64 {
         FxHhw1ForwardChf::evaluate(self, u)
@@ -53,7 +62,7 @@ impl<'a> ForwardChf for FxHhw1ForwardChf<'a> {
         (p.fx_0 * (-p.rf_0 * t).exp() / (-p.rd_0 * t).exp()).ln()
     }
     fn typical_variance(&self) -> f64 {
-        self.params().heston.theta
+        heston_variance(&self.params().heston, self.expiry)
     }
 }
 
@@ -73,7 +82,7 @@ impl<'a> ForwardChf for FxHlmm1ForwardChf<'a> {
     fn typical_variance(&self) -> f64 {
         // FX Heston variance is the dominant contributor; LMM contributions
         // are second-order for typical parameter sets.
-        self.params().heston.theta
+        heston_variance(&self.params().heston, self.expiry)
     }
 }
 
@@ -90,7 +99,7 @@ impl<'a> ForwardChf for crate::models::forex::fx_fmm1_chf::FxFmm1ForwardChf<'a>
         self.params().fx_0.ln()
     }
     fn typical_variance(&self) -> f64 {
-        self.params().heston.theta
+        heston_variance(&self.params().heston, self.expiry)
     }
 }
 
-- 
2.43.0


From 6cf95a4de46ded137db90a9d0603ab294352d561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:59 +0000
Subject: [PATCH 50/54] fix: square-root process moments stay exact for slow
 mean reversion and small vol-of-vol

1 - exp(-kappa t) cancelled for small kappa t, and the difference of two
log-gamma values lost all digits once 4 kappa theta / gamma^2 was large.
---
 src/models/common/cir.rs | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/models/common/cir.rs b/src/models/common/cir.rs
index bf0c731..027a52a 100644
--- a/src/models/common/cir.rs
+++ b/src/models/common/cir.rs
@@ -56,7 +56,7 @@ impl CirProcess {
             return self.sigma_0;
         }
         let decay = (-self.kappa * t).exp();
-        self.sigma_0 * decay + self.theta * (1.0 - decay)
+        self.sigma_0 * decay - self.theta * (-self.kappa * t).exp_m1()
     }
 
     /// `Var[σ(t)] = σ₀·(γ²/κ)·e^{−κt}·(1 − e^{−κt})
@@ -67,7 +67,7 @@ impl CirProcess {
         }
         let decay = (-self.kappa * t).exp();
         let g2_over_k = self.gamma * self.gamma / self.kappa;
-        let one_minus = 1.0 - decay;
+        let one_minus = -(-self.kappa * t).exp_m1();
         self.sigma_0 * g2_over_k * decay * one_minus
             + self.theta * (g2_over_k * 0.5) * one_minus * one_minus
     }
@@ -95,7 +95,7 @@ impl CirProcess {
             return self.mean(t).max(0.0).sqrt();
         }
 
-        let one_minus = 1.0 - (-self.kappa * t).exp();
+        let one_minus = -(-self.kappa * t).exp_m1();
         let c = self.gamma * self.gamma * one_minus / (4.0 * self.kappa);
         let ell = 4.0 * self.kappa * self.theta / (self.gamma * self.gamma);
         let eps = 4.0 * self.kappa * self.sigma_0 * (-self.kappa * t).exp()
@@ -124,8 +124,8 @@ impl CirProcess {
         let a = 0.5 * ell;
         let b = 0.5 * (ell + 1.0);
 
-        // First term (k = 0): Γ((ℓ+1)/2) / Γ(ℓ/2), computed via log-gamma.
-        let mut term = (ln_gamma(b) - ln_gamma(a)).exp();
+        // First term (k = 0): Γ((ℓ+1)/2) / Γ(ℓ/2).
+        let mut term = half_step_gamma_ratio(a);
         let mut sum = term;
         let mut k = 0_u32;
         loop {
@@ -147,8 +147,7 @@ impl CirProcess {
         assert!(self.kappa > 0.0, "CIR: κ must be positive");
         assert!(self.gamma > 0.0, "CIR: γ must be positive");
         let ell = 4.0 * self.kappa * self.theta / (self.gamma * self.gamma);
-        let gamma_ratio = (ln_gamma(0.5 * (ell + 1.0)) - ln_gamma(0.5 * ell)).exp();
-        self.gamma / (2.0 * self.kappa).sqrt() * gamma_ratio
+        self.gamma / (2.0 * self.kappa).sqrt() * half_step_gamma_ratio(0.5 * ell)
     }
 
     /// Cheap exponential proxy `E[√σ(t)] ≈ β₁ + β₂·e^{−β₃·t}` (GO eq. 2.32).
@@ -178,6 +177,16 @@ impl CirProcess {
     }
 }
 
+/// `Γ(a + ½) / Γ(a)`, via log-gamma; for large `a`, where the logarithms
+/// cancel, via `√a · (1 − 1/(8a) + 1/(128a²) + 5/(1024a³) − …)`.
+fn half_step_gamma_ratio(a: f64) -> f64 {
+    if a > 500.0 {
+        let r = 1.0 / a;
+        return a.sqrt() * (1.0 + r * (-1.0 / 8.0 + r * (1.0 / 128.0 + r * 5.0 / 1024.0)));
+    }
+    (ln_gamma(a + 0.5) - ln_gamma(a)).exp()
+}
+
 /// Deterministic proxy for `E[√σ(t)]`, of the form `β₁ + β₂·exp(−β₃·t)`.
 #[derive(Copy, Clone, Debug, PartialEq)]
 pub struct SqrtMeanProxy {
-- 
2.43.0


From c244a83fcc141969c07cc82f0d7fe110444e2b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:59 +0000
Subject: [PATCH 51/54] fix: Hull-White closed forms stay exact for small mean
 reversion

Between the Ho-Lee cut-off 1e-12 and about 1e-3 the closed forms cancelled;
the integrated squared bond volatility lost every digit.
---
 src/models/interestrate/hull_white.rs | 34 +++++++++++++++++----------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/src/models/interestrate/hull_white.rs b/src/models/interestrate/hull_white.rs
index e8abba1..39a4670 100644
--- a/src/models/interestrate/hull_white.rs
+++ b/src/models/interestrate/hull_white.rs
@@ -41,7 +41,7 @@ impl HullWhite1F {
         if self.mean_reversion.abs() < 1.0e-12 {
             return -tau;
         }
-        ((-self.mean_reversion * tau).exp() - 1.0) / self.mean_reversion
+        (-self.mean_reversion * tau).exp_m1() / self.mean_reversion
     }
 
     /// Conditional variance of the short rate:
@@ -56,7 +56,7 @@ impl HullWhite1F {
             return self.sigma * self.sigma * tau;
         }
         let a = 2.0 * self.mean_reversion;
-        self.sigma * self.sigma / a * (1.0 - (-a * tau).exp())
+        -self.sigma * self.sigma / a * (-a * tau).exp_m1()
     }
 
     /// Integrated squared bond volatility
@@ -72,18 +72,26 @@ impl HullWhite1F {
         }
         let eta = self.sigma;
         let lambda = self.mean_reversion;
+        // −∫ₛᵀ B(u, T)² du, an antiderivative of B(s, T)².
         let tau_fn = |s: f64| -> f64 {
-            // antiderivative of [(e^{-λ(T-s)} - 1)/λ]² wrt s
-            //   = (1/λ²)·[ (1/(2λ))·e^{−2λ(T−s)} − (2/λ)·e^{−λ(T−s)} + s ] + C
-            // Apply at (s₁, s₂), take the difference.
-            if lambda.abs() < 1.0e-12 {
-                // Ho–Lee limit:  B = -(T − s)  ⇒  ∫ B² ds = (T-s)³ / 3 evaluated
-                //                                     = -((T−s₂)³ − (T−s₁)³)/3
-                return -((big_t - s).powi(3)) / 3.0;
+            let tau = big_t - s;
+            let x = lambda * tau;
+            if x.abs() < 0.5 {
+                // The closed form cancels to O(x³): use its power series
+                //   τ³ · Σ_{n≥2} (2ⁿ − 2)/n! · (−x)ⁿ⁻² / (n + 1),
+                // whose first term is the Ho–Lee limit τ³/3.
+                let mut coef = 0.5;
+                let mut pow2 = 4.0;
+                let mut sum = 0.0;
+                for n in 2..24 {
+                    sum += (pow2 - 2.0) * coef / (n + 1) as f64;
+                    coef *= -x / (n + 1) as f64;
+                    pow2 *= 2.0;
+                }
+                return -tau.powi(3) * sum;
             }
-            let e1 = (-lambda * (big_t - s)).exp();
-            let e2 = (-2.0 * lambda * (big_t - s)).exp();
-            (1.0 / (lambda * lambda)) * (0.5 / lambda * e2 - 2.0 / lambda * e1 + s)
+            let m = -(-x).exp_m1();
+            -(x - m - 0.5 * m * m) / lambda.powi(3)
         };
         eta * eta * (tau_fn(s2) - tau_fn(s1))
     }
@@ -124,7 +132,7 @@ impl HullWhite1F {
         let convexity = if lambda.abs() < 1.0e-12 {
             eta * eta * t * b * b * 0.5
         } else {
-            eta * eta / (4.0 * lambda) * (1.0 - (-2.0 * lambda * t).exp()) * b * b
+            -eta * eta / (4.0 * lambda) * (-2.0 * lambda * t).exp_m1() * b * b
         };
         (p0big_t / p0t) * (-b * f0t - convexity + b * r_t).exp()
     }
-- 
2.43.0


From 9835ae59c9527c553749f253989cdbb1dc1d537f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:43 +0000
Subject: [PATCH 52/54] fix: affine FX transforms stay exact for small
 vol-of-vol and slow mean reversion

The closed forms of the FX-HLMM and FX-FMM transforms divided a
cancelling difference by the squared vol-of-vol, and the Heston
coefficient subtracted an exponential near one from one, so prices lost
most of their digits for small gamma, eta or kappa.
---
 src/models/forex.rs              |  1 +
 src/models/forex/fx_fmm1_chf.rs  | 33 +++++------------
 src/models/forex/fx_hhw1_chf.rs  |  5 ++-
 src/models/forex/fx_hlmm1_chf.rs | 37 +++++--------------
 src/models/forex/riccati.rs      | 63 ++++++++++++++++++++++++++++++++
 5 files changed, 87 insertions(+), 52 deletions(-)
 create mode 100644 src/models/forex/riccati.rs

diff --git a/src/models/forex.rs b/src/models/forex.rs
index 0cc7147..454d39c 100644
--- a/src/models/forex.rs
+++ b/src/models/forex.rs
@@ -21,6 +21,7 @@ pub mod fx_hlmm;
 pub mod fx_hlmm1_chf;
 pub mod fx_hlmm_calibrator;
 pub mod market_data;
+mod riccati;
 pub mod sabr;
 pub mod sabr_calibrator;
 pub mod sabr_effective;
diff --git a/src/models/forex/fx_fmm1_chf.rs b/src/models/forex/fx_fmm1_chf.rs
index 5a37581..0e44782 100644
--- a/src/models/forex/fx_fmm1_chf.rs
+++ b/src/models/forex/fx_fmm1_chf.rs
@@ -36,6 +36,7 @@
 
 use crate::models::common::cir::CirProcess;
 use crate::models::forex::fx_fmm::{FxFmmParams, compute_a_d, compute_a_f};
+use crate::models::forex::riccati::{exp_m1, riccati_from_zero};
 use num_complex::Complex64;
 
 /// Components of the FX-FMM1 forward ChF at `(u, τ)`.
@@ -310,8 +311,8 @@ fn heston_c(u: Complex64, kappa: f64, gamma: f64, rho: f64, tau: f64) -> Complex
     let b2_minus_b = iu * iu - iu;
     let x = kappa_c - gamma_c * rho_c * iu;
     let d = (x * x - gamma_c * gamma_c * iu * (iu - Complex64::new(1.0, 0.0))).sqrt();
-    let e = (-d * tau).exp();
-    b2_minus_b * (Complex64::new(1.0, 0.0) - e) / (x + d - (x - d) * e)
+    let one_minus_e = -exp_m1(-d * tau);
+    b2_minus_b * one_minus_e / (2.0 * d + (x - d) * one_minus_e)
 }
 
 /// Increment of classical Heston `A` between `τ_1` and `τ_2`.
@@ -344,13 +345,8 @@ fn heston_a_closed_form(
     let rho_c = Complex64::new(rho, 0.0);
     let iu = Complex64::new(0.0, 1.0) * u;
     let x = kappa_c - gamma_c * rho_c * iu;
-    let d = (x * x - gamma_c * gamma_c * iu * (iu - Complex64::new(1.0, 0.0))).sqrt();
-    let e = (-d * tau).exp();
     let kappa_theta = Complex64::new(kappa * theta, 0.0);
-    // (1 − g e)/(1 − g) with g = (x − d)/(x + d), multiplied through by
-    // x + d, which vanishes at u = −i when κ < γρ.
-    let ratio = (x + d - (x - d) * e) / (2.0 * d);
-    kappa_theta / (gamma_c * gamma_c) * ((x - d) * tau - 2.0 * ratio.ln())
+    kappa_theta * riccati_from_zero(iu * iu - iu, x, gamma, tau).1
 }
 
 /// Piecewise-constant Riccati step `D' = A·(B²−B)/2 − λ·D + η²·D²/2`
@@ -371,21 +367,12 @@ fn advance_d_riccati(
     let iu = Complex64::new(0.0, 1.0) * u;
     let u2_plus_iu = u * u + iu;
     let eta_sq = eta * eta;
-    let delta = (Complex64::new(lambda * lambda, 0.0)
-        + Complex64::new(eta_sq * a_j, 0.0) * u2_plus_iu)
-        .sqrt();
-    let denom = Complex64::new(lambda, 0.0) + delta - Complex64::new(eta_sq, 0.0) * d_prev;
-    let num = Complex64::new(lambda, 0.0) - delta - Complex64::new(eta_sq, 0.0) * d_prev;
-    let ell = num / denom;
-    let e = (-delta * s).exp();
-    let one = Complex64::new(1.0, 0.0);
-    let chi = num * (one - e) / (Complex64::new(eta_sq, 0.0) * (one - ell * e));
-    let d_new = d_prev + chi;
-
-    let coef = Complex64::new(v_0 * lambda / eta_sq, 0.0);
-    let delta_a = coef
-        * ((Complex64::new(lambda, 0.0) - delta) * s - 2.0 * ((one - ell * e) / (one - ell)).ln());
-    (d_new, delta_a)
+    // D = d_prev + χ with χ' = ½q − l·χ + ½η²·χ², χ(0) = 0.
+    let l = lambda - eta_sq * d_prev;
+    let q = -a_j * u2_plus_iu - (2.0 * lambda - eta_sq * d_prev) * d_prev;
+    let (chi, chi_integral) = riccati_from_zero(q, l, eta, s);
+    let delta_a = v_0 * lambda * (d_prev * s + chi_integral);
+    (d_prev + chi, delta_a)
 }
 
 impl<'a> FxFmm1ForwardChf<'a> {
diff --git a/src/models/forex/fx_hhw1_chf.rs b/src/models/forex/fx_hhw1_chf.rs
index 740b05a..0496308 100644
--- a/src/models/forex/fx_hhw1_chf.rs
+++ b/src/models/forex/fx_hhw1_chf.rs
@@ -24,6 +24,7 @@
 //! tests in this module.
 
 use crate::models::forex::fx_hhw::FxHhwParams;
+use crate::models::forex::riccati::exp_m1;
 use num_complex::Complex64;
 
 /// Scratch-space components of the forward ChF at `(u, τ)`. Exposed so
@@ -202,8 +203,8 @@ fn c_of_tau(u: Complex64, tau: f64, params: &FxHhwParams) -> Complex64 {
     let b_sq_minus_b = iu * iu - iu; // = −(u² + iu)
     let x = kappa - gamma * rho * iu;
     let d = (x * x - gamma * gamma * iu * (iu - Complex64::new(1.0, 0.0))).sqrt();
-    let exp_dtau = (-d * tau).exp();
-    b_sq_minus_b * (Complex64::new(1.0, 0.0) - exp_dtau) / (x + d - (x - d) * exp_dtau)
+    let one_minus_exp = -exp_m1(-d * tau);
+    b_sq_minus_b * one_minus_exp / (2.0 * d + (x - d) * one_minus_exp)
 }
 
 /// `A(u, τ)` via composite Simpson quadrature on `[0, τ]`.
diff --git a/src/models/forex/fx_hlmm1_chf.rs b/src/models/forex/fx_hlmm1_chf.rs
index 8620b0a..b88dcf4 100644
--- a/src/models/forex/fx_hlmm1_chf.rs
+++ b/src/models/forex/fx_hlmm1_chf.rs
@@ -35,6 +35,7 @@
 //! is fine — `f(t)` is smooth). All other pieces are closed form.
 
 use crate::models::forex::fx_hlmm::{FxHlmmParams, compute_a_d, compute_a_f, compute_f_linearised};
+use crate::models::forex::riccati::{exp_m1, riccati_from_zero};
 use num_complex::Complex64;
 
 /// Components of the FX-HLMM1 forward ChF at `(u, τ)`.
@@ -254,8 +255,8 @@ fn heston_c(u: Complex64, kappa: f64, gamma: f64, rho: f64, tau: f64) -> Complex
     let b2_minus_b = iu * iu - iu;
     let x = kappa_c - gamma_c * rho_c * iu;
     let d = (x * x - gamma_c * gamma_c * iu * (iu - Complex64::new(1.0, 0.0))).sqrt();
-    let e = (-d * tau).exp();
-    b2_minus_b * (Complex64::new(1.0, 0.0) - e) / (x + d - (x - d) * e)
+    let one_minus_e = -exp_m1(-d * tau);
+    b2_minus_b * one_minus_e / (2.0 * d + (x - d) * one_minus_e)
 }
 
 /// `A_heston(τ₂) − A_heston(τ₁)` where `A_heston` is the classical
@@ -290,13 +291,8 @@ fn heston_a_closed_form(
     let rho_c = Complex64::new(rho, 0.0);
     let iu = Complex64::new(0.0, 1.0) * u;
     let x = kappa_c - gamma_c * rho_c * iu;
-    let d = (x * x - gamma_c * gamma_c * iu * (iu - Complex64::new(1.0, 0.0))).sqrt();
-    let e = (-d * tau).exp();
     let kappa_theta = Complex64::new(kappa * theta, 0.0);
-    // (1 − g e)/(1 − g) with g = (x − d)/(x + d), multiplied through by
-    // x + d, which vanishes at u = −i when κ < γρ.
-    let ratio = (x + d - (x - d) * e) / (2.0 * d);
-    kappa_theta / (gamma_c * gamma_c) * ((x - d) * tau - 2.0 * ratio.ln())
+    kappa_theta * riccati_from_zero(iu * iu - iu, x, gamma, tau).1
 }
 
 /// Advance one segment of the Riccati
@@ -318,25 +314,12 @@ fn advance_d_riccati(
     let iu = Complex64::new(0.0, 1.0) * u;
     let u2_plus_iu = u * u + iu;
     let eta_sq = eta * eta;
-    let delta = (Complex64::new(lambda * lambda, 0.0)
-        + Complex64::new(eta_sq * a_j, 0.0) * u2_plus_iu)
-        .sqrt();
-    let denom = Complex64::new(lambda, 0.0) + delta - Complex64::new(eta_sq, 0.0) * d_prev;
-    let num = Complex64::new(lambda, 0.0) - delta - Complex64::new(eta_sq, 0.0) * d_prev;
-    let ell = num / denom;
-    let e = (-delta * s).exp();
-    let one = Complex64::new(1.0, 0.0);
-    let chi = num * (one - e) / (Complex64::new(eta_sq, 0.0) * (one - ell * e));
-    let d_new = d_prev + chi;
-
-    // A-integrand contribution from D_d over this segment:
-    //   λ · v₀ · ∫₀^s D(u) du
-    // = (v₀·λ/η²) · [ (λ − δ)·s − 2·log((1 − ℓ·e^{−δs}) / (1 − ℓ)) ]
-    // (paper formula for χ_A's D-piece).
-    let coef = Complex64::new(v_0 * lambda / eta_sq, 0.0);
-    let delta_a = coef
-        * ((Complex64::new(lambda, 0.0) - delta) * s - 2.0 * ((one - ell * e) / (one - ell)).ln());
-    (d_new, delta_a)
+    // D = d_prev + χ with χ' = ½q − l·χ + ½η²·χ², χ(0) = 0.
+    let l = lambda - eta_sq * d_prev;
+    let q = -a_j * u2_plus_iu - (2.0 * lambda - eta_sq * d_prev) * d_prev;
+    let (chi, chi_integral) = riccati_from_zero(q, l, eta, s);
+    let delta_a = v_0 * lambda * (d_prev * s + chi_integral);
+    (d_prev + chi, delta_a)
 }
 
 /// `∫_{τ₁}^{τ₂} f(T − s) ds` via composite Simpson on `n` sub-intervals.
diff --git a/src/models/forex/riccati.rs b/src/models/forex/riccati.rs
new file mode 100644
index 0000000..338c7a1
--- /dev/null
+++ b/src/models/forex/riccati.rs
@@ -0,0 +1,63 @@
+//! The scalar complex Riccati equation behind the affine FX transforms.
+
+use num_complex::Complex64;
+
+/// `y(τ)` and `∫₀^τ y(s) ds` for the constant-coefficient Riccati equation
+///
+/// ```text
+///     y' = ½ q − l·y + ½ v²·y²,      y(0) = 0.
+/// ```
+///
+/// Written with `a = (l − δ)/v²`, `δ = √(l² − v² q)`, as `q/(l + δ)`
+/// wherever the subtraction would cancel, so that nothing is divided by
+/// `v²` while it is small: the limit `v → 0` is the linear equation.
+pub(crate) fn riccati_from_zero(
+    q: Complex64,
+    l: Complex64,
+    v: f64,
+    tau: f64,
+) -> (Complex64, Complex64) {
+    let zero = Complex64::new(0.0, 0.0);
+    if tau <= 0.0 || q == zero {
+        return (zero, zero);
+    }
+    let v2 = v * v;
+    let delta = (l * l - v2 * q).sqrt();
+    let a = if (l + delta).norm() >= (l - delta).norm() {
+        q / (l + delta)
+    } else {
+        (l - delta) / v2
+    };
+    // (1 − e^{−δτ})/δ
+    let phi = if delta == zero {
+        Complex64::new(tau, 0.0)
+    } else {
+        -exp_m1(-delta * tau) / delta
+    };
+    // (1 − g e^{−δτ})/(1 − g) − 1 with g = (l − δ)/(l + δ).
+    let z = 0.5 * v2 * a * phi;
+    let y = 0.5 * q * phi / (1.0 + z);
+    let log_ratio = if z == zero {
+        Complex64::new(1.0, 0.0)
+    } else {
+        ln_1p(z) / z
+    };
+    (y, a * (tau - phi * log_ratio))
+}
+
+/// `e^w − 1` without cancellation for small `w`.
+pub(crate) fn exp_m1(w: Complex64) -> Complex64 {
+    let half = (0.5 * w.im).sin();
+    Complex64::new(
+        w.re.exp_m1() * w.im.cos() - 2.0 * half * half,
+        w.re.exp() * w.im.sin(),
+    )
+}
+
+/// `ln(1 + z)` without cancellation for small `z`.
+fn ln_1p(z: Complex64) -> Complex64 {
+    Complex64::new(
+        0.5 * (2.0 * z.re + z.norm_sqr()).ln_1p(),
+        z.im.atan2(1.0 + z.re),
+    )
+}
-- 
2.43.0


From f162252a35c91a16520007d734e5b1a1bb1d04a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:21 +0000
Subject: [PATCH 53/54] fix: an accrual period of no length pays nothing
 instead of making the whole swap NaN

A weekly leg over a week-long holiday (Japan, spring 2019) rolls two of its
dates onto the same business day; the implied rate of that period was 0/0.
---
 src/derivatives/interestrate/cap.rs  |  4 ++++
 src/derivatives/interestrate/swap.rs | 15 +++++++++++++--
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/derivatives/interestrate/cap.rs b/src/derivatives/interestrate/cap.rs
index b756973..e31fcde 100644
--- a/src/derivatives/interestrate/cap.rs
+++ b/src/derivatives/interestrate/cap.rs
@@ -102,6 +102,10 @@ impl CapFloor {
         let mut pv = 0.0_f64;
         for period in &self.schedule {
             let m = self.caplet_market(period, yts, vs, rate_shift_bp, vol_shift_bp)?;
+            // A period that accrues nothing pays nothing, and implies no forward.
+            if m.tau == 0.0 {
+                continue;
+            }
             let opt = match self.kind {
                 CapFloorKind::Cap => bachelier_call(m.forward, self.strike, m.variance),
                 CapFloorKind::Floor => bachelier_put(m.forward, self.strike, m.variance),
diff --git a/src/derivatives/interestrate/swap.rs b/src/derivatives/interestrate/swap.rs
index e71a6d3..b4695e9 100644
--- a/src/derivatives/interestrate/swap.rs
+++ b/src/derivatives/interestrate/swap.rs
@@ -225,6 +225,17 @@ impl InterestRateSchedulePeriod {
     }
 }
 
+/// Simple rate implied by two discount factors over `year_fraction`. A period
+/// whose ends roll onto the same business day (a weekly period over a week-long
+/// holiday) accrues nothing, whatever the rate.
+fn implied_rate(df_start: f64, df_end: f64, year_fraction: f64) -> f64 {
+    if year_fraction == 0.0 {
+        0.0
+    } else {
+        (df_start / df_end - 1.0) / year_fraction
+    }
+}
+
 #[derive(Deserialize, Serialize, Debug)]
 pub struct InterestRateSwap {
     pub legs: Vec<InterestRateSwapLeg>,
@@ -343,7 +354,7 @@ impl InterestRateSwap {
                     period.accrual_end_date,
                     &InterpolationMethodEnum::PiecewiseLinearContinuous,
                 )?;
-                (df_start / df_end - 1.0) / year_fraction + spread
+                implied_rate(df_start, df_end, year_fraction) + spread
             }
         };
 
@@ -415,7 +426,7 @@ impl InterestRateSwap {
                             yts.shifted_discount(period.accrual_start_date, method, rate_shift_bp)?;
                         let df_end =
                             yts.shifted_discount(period.accrual_end_date, method, rate_shift_bp)?;
-                        (df_start / df_end - 1.0) / year_fraction + spread
+                        implied_rate(df_start, df_end, year_fraction) + spread
                     }
                 };
                 let df_pay = yts.shifted_discount(period.pay_date, method, rate_shift_bp)?;
-- 
2.43.0


From f7fe9fdfd2127d075de649dc04a9347df6b9f539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:03 +0000
Subject: [PATCH 54/54] fix: scaling a tenor saturates instead of overflowing

---
 src/time/period.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/time/period.rs b/src/time/period.rs
index 4febdc0..e765836 100644
--- a/src/time/period.rs
+++ b/src/time/period.rs
@@ -214,10 +214,10 @@ impl Mul<Period> for u32 {
             Period::TN => Period::TN,
             Period::SPOT => Period::SPOT,
             Period::SN => Period::SN,
-            Period::Days(num) => Period::Days(num * self as i64),
-            Period::Weeks(num) => Period::Weeks(num * self as i64),
-            Period::Months(num) => Period::Months(num * self),
-            Period::Years(num) => Period::Years(num * self),
+            Period::Days(num) => Period::Days(num.saturating_mul(self as i64)),
+            Period::Weeks(num) => Period::Weeks(num.saturating_mul(self as i64)),
+            Period::Months(num) => Period::Months(num.saturating_mul(self)),
+            Period::Years(num) => Period::Years(num.saturating_mul(self)),
         }
     }
 }
-- 
2.43.0

