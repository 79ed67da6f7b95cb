From 4cde8b1b48d1fda67f0d95c2a82007b4a1e0b391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:15 +0000
Subject: [PATCH 01/34] fix: recognise "feb" as the abbreviation of February

---
 src/token.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/token.rs b/src/token.rs
index 532bb64..e1f6bcf 100644
--- a/src/token.rs
+++ b/src/token.rs
@@ -335,7 +335,7 @@ const DATE_TOKEN_TABLE: [DateToken; 280] = [
     DateToken::new(b"egt", TZ, -3600),     // East Greenland Time
     DateToken::new(EPOCH, RESERV, Epoch.value()), // "epoch" reserved for system epoch time
     DateToken::new(b"est", TZ, -18000),    // Eastern Standard Time
-    DateToken::new(b"fe", MONTH, 2),
+    DateToken::new(b"feb", MONTH, 2),
     DateToken::new(b"february", MONTH, 2),
     DateToken::new(b"fjst", DTZ, -46800), // Fiji Summer Time (13 hour offset!)
     DateToken::new(b"fjt", TZ, -43200),   // Fiji Time
-- 
2.43.0


From ceb20f7ef366d19df9ffbd986f9e623a06754858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:17 +0000
Subject: [PATCH 02/34] fix: reject token codes that are not valid
 discriminants before transmuting

---
 src/token.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/token.rs b/src/token.rs
index e1f6bcf..bd72a8a 100644
--- a/src/token.rs
+++ b/src/token.rs
@@ -144,7 +144,7 @@ impl TryFrom<u8> for TokenType {
 
     #[inline]
     fn try_from(value: u8) -> Result<Self, Self::Error> {
-        if value >= 31 {
+        if value > TokenType::DTZMOD as u8 && value != TokenType::UnknownField as u8 {
             Err(DateTimeError::invalid(format!(
                 "Invalid token type {:?}",
                 value
@@ -237,7 +237,7 @@ impl TryFrom<i32> for TokenField {
 
     #[inline]
     fn try_from(value: i32) -> Result<Self, Self::Error> {
-        if value < 0 && value > 37 {
+        if value < 0 || value > 37 {
             Err(DateTimeError::invalid(format!(
                 "Invalid token field {:?}",
                 value
-- 
2.43.0


From b1fd6c375647145fdaa8bfb5ffddc135dc96dcc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:20 +0000
Subject: [PATCH 03/34] fix: do not create uninitialised buffers and token
 arrays

---
 src/date.rs      | 12 ++++--------
 src/interval.rs  | 12 ++++--------
 src/time.rs      | 12 ++++--------
 src/timestamp.rs | 12 ++++--------
 4 files changed, 16 insertions(+), 32 deletions(-)

diff --git a/src/date.rs b/src/date.rs
index 22f81d0..15366cf 100644
--- a/src/date.rs
+++ b/src/date.rs
@@ -23,7 +23,6 @@ use crate::timestamp::{Timestamp, DATE_TIME_BEGIN_VAL, DATE_TIME_END_VAL};
 use crate::token::*;
 use crate::{DateOrder, DateStyle, DateTime, DateUnit, FieldType};
 use std::convert::TryFrom;
-use std::mem::MaybeUninit;
 
 // Range limits for dates and timestamps.
 //
@@ -197,13 +196,11 @@ impl Date {
     }
 
     /// Parses `Date` string.
-    #[allow(clippy::uninit_assumed_init)]
     pub fn try_from_str(s: &str, date_order: DateOrder) -> Result<Self, DateTimeError> {
         let s = s.as_bytes();
-        let mut fields: [&[u8]; MAX_DATE_FIELDS] = unsafe { MaybeUninit::uninit().assume_init() };
-        let mut work_buf: [u8; MAX_DATE_LEN] = unsafe { MaybeUninit::uninit().assume_init() };
-        let mut f_types: [TokenField; MAX_DATE_FIELDS] =
-            unsafe { MaybeUninit::uninit().assume_init() };
+        let mut fields: [&[u8]; MAX_DATE_FIELDS] = [&[]; MAX_DATE_FIELDS];
+        let mut work_buf = [0u8; MAX_DATE_LEN];
+        let mut f_types = [TokenField::Number; MAX_DATE_FIELDS];
 
         let field_num =
             parse_date_time(s, &mut work_buf, &mut fields, &mut f_types, MAX_DATE_FIELDS)?;
@@ -260,8 +257,7 @@ impl Date {
         if self.is_infinite() {
             format_special_date(self)
         } else {
-            let mut buf = Vec::with_capacity(128);
-            unsafe { buf.set_len(128) };
+            let mut buf = vec![0u8; 128];
             let mut tm: PgTime = PgTime::new();
 
             let (y, m, d) = julian2date(self.value() + POSTGRES_EPOCH_JDATE);
diff --git a/src/interval.rs b/src/interval.rs
index 44f45dc..abc1be8 100644
--- a/src/interval.rs
+++ b/src/interval.rs
@@ -20,7 +20,6 @@ use crate::parse::{decode_interval, decode_iso8601_interval, parse_date_time};
 use crate::token::*;
 use crate::{DateTime, DateUnit, FieldType, IntervalStyle, Time};
 use std::cmp::Ordering;
-use std::mem::MaybeUninit;
 use std::ops::Add;
 
 pub const INTERVAL_MASK_Y: i32 = TokenType::YEAR.mask();
@@ -531,17 +530,15 @@ impl Interval {
     }
 
     /// Parses `Internal` from string.
-    #[allow(clippy::uninit_assumed_init)]
     pub fn try_from_str(
         s: &str,
         type_mod: i32,
         format_type: IntervalStyle,
     ) -> Result<Self, DateTimeError> {
         let s = s.as_bytes();
-        let mut fields: [&[u8]; MAX_DATE_FIELDS] = unsafe { MaybeUninit::uninit().assume_init() };
-        let mut work_buf: [u8; MAX_DATE_LEN] = unsafe { MaybeUninit::uninit().assume_init() };
-        let mut f_types: [TokenField; MAX_DATE_FIELDS] =
-            unsafe { MaybeUninit::uninit().assume_init() };
+        let mut fields: [&[u8]; MAX_DATE_FIELDS] = [&[]; MAX_DATE_FIELDS];
+        let mut work_buf = [0u8; MAX_DATE_LEN];
+        let mut f_types = [TokenField::Number; MAX_DATE_FIELDS];
         let mut d_type = TokenField::Number;
         let mut fsec = 0;
         let mut tm = PgTime::new();
@@ -588,8 +585,7 @@ impl Interval {
     #[inline]
     pub fn format(self, interval_format: IntervalStyle) -> Result<String, DateTimeError> {
         //interval_to_string(self, interval_format)
-        let mut buf = Vec::with_capacity(128);
-        unsafe { buf.set_len(128) };
+        let mut buf = vec![0u8; 128];
         let mut tm: PgTime = PgTime::new();
         let mut fsec = 0;
 
diff --git a/src/time.rs b/src/time.rs
index b6ed431..7c29a97 100644
--- a/src/time.rs
+++ b/src/time.rs
@@ -21,7 +21,6 @@ use crate::parse::{decode_time_only, parse_date_time, timestamp2time};
 use crate::token::*;
 use crate::{DateOrder, DateStyle, DateTime, DateUnit, FieldType, Timestamp};
 use std::convert::TryFrom;
-use std::mem::MaybeUninit;
 
 const TIME_SCALES: [i64; MAX_TIME_PRECISION as usize + 1] =
     [1_000_000, 100_000, 10_000, 1000, 100, 10, 1];
@@ -101,17 +100,15 @@ impl Time {
     }
 
     /// Parses `Time` string. type_mod should be 0 ~ 6, else will have no affect.
-    #[allow(clippy::uninit_assumed_init)]
     pub fn try_from_str(
         s: &str,
         type_mod: i32,
         date_order: DateOrder,
     ) -> Result<Time, DateTimeError> {
         let s = s.as_bytes();
-        let mut fields: [&[u8]; MAX_DATE_FIELDS] = unsafe { MaybeUninit::uninit().assume_init() };
-        let mut work_buf: [u8; MAX_DATE_LEN] = unsafe { MaybeUninit::uninit().assume_init() };
-        let mut f_types: [TokenField; MAX_DATE_FIELDS] =
-            unsafe { MaybeUninit::uninit().assume_init() };
+        let mut fields: [&[u8]; MAX_DATE_FIELDS] = [&[]; MAX_DATE_FIELDS];
+        let mut work_buf = [0u8; MAX_DATE_LEN];
+        let mut f_types = [TokenField::Number; MAX_DATE_FIELDS];
         let mut tm = PgTime::new();
 
         let field_num =
@@ -132,8 +129,7 @@ impl Time {
     /// Converts `Time` to string.
     #[inline]
     pub fn format(self, date_style: DateStyle) -> Result<String, DateTimeError> {
-        let mut buf = Vec::with_capacity(128);
-        unsafe { buf.set_len(128) };
+        let mut buf = vec![0u8; 128];
         let mut tm: PgTime = PgTime::new();
         let mut fsec = 0;
         self.to_pgtime(&mut tm, &mut fsec);
diff --git a/src/timestamp.rs b/src/timestamp.rs
index 0ed9903..b88eca3 100644
--- a/src/timestamp.rs
+++ b/src/timestamp.rs
@@ -23,7 +23,6 @@ use crate::time::Time;
 use crate::token::*;
 use crate::{Date, DateOrder, DateStyle, DateTime, DateUnit, FieldType};
 use std::convert::TryFrom;
-use std::mem::MaybeUninit;
 
 // Timestamp limits
 const MIN_TIMESTAMP: i64 = -211_813_488_000_000_000; // == (DATETIME_MIN_JULIAN - POSTGRES_EPOCH_JDATE) * USECS_PER_DAY
@@ -162,17 +161,15 @@ impl Timestamp {
     }
 
     /// Parses `Timestamp` string. type_mode should be -1, or 1~6, else will be error.
-    #[allow(clippy::uninit_assumed_init)]
     pub fn try_from_str(
         s: &str,
         type_mod: i32,
         date_order: DateOrder,
     ) -> Result<Timestamp, DateTimeError> {
         let s = s.as_bytes();
-        let mut fields: [&[u8]; MAX_DATE_FIELDS] = unsafe { MaybeUninit::uninit().assume_init() };
-        let mut work_buf: [u8; MAX_DATE_LEN] = unsafe { MaybeUninit::uninit().assume_init() };
-        let mut f_types: [TokenField; MAX_DATE_FIELDS] =
-            unsafe { MaybeUninit::uninit().assume_init() };
+        let mut fields: [&[u8]; MAX_DATE_FIELDS] = [&[]; MAX_DATE_FIELDS];
+        let mut work_buf = [0u8; MAX_DATE_LEN];
+        let mut f_types = [TokenField::Number; MAX_DATE_FIELDS];
 
         let nf = parse_date_time(s, &mut work_buf, &mut fields, &mut f_types, MAX_DATE_FIELDS)?;
         let mut tm = PgTime::new();
@@ -198,8 +195,7 @@ impl Timestamp {
         if self.is_infinite() {
             format_special_timestamp(self)
         } else {
-            let mut buf = Vec::with_capacity(128);
-            unsafe { buf.set_len(128) };
+            let mut buf = vec![0u8; 128];
             let mut tm: PgTime = PgTime::new();
             let mut fsec = 0;
 
-- 
2.43.0


From 716246a7a7a9a7e0d0c16b26863833616f6e9f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:22 +0000
Subject: [PATCH 04/34] fix: report the error of a malformed run-together time
 with a fraction

---
 src/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse.rs b/src/parse.rs
index 51d46c8..21ea7ee 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -697,7 +697,7 @@ fn decode_number(
     match s.first() {
         Some(&b'.') => {
             if str.len() - s.len() > 2 {
-                let _ = decode_number_field(str, f_mask | DTK_DATE_M, t_mask, tm, fsec, is2digits);
+                decode_number_field(str, f_mask | DTK_DATE_M, t_mask, tm, fsec, is2digits)?;
                 return Ok(());
             }
             *fsec = parse_fractional_second(s)?;
-- 
2.43.0


From fce2bdf6a6a55f2497359534f1718e07c48f3d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:24 +0000
Subject: [PATCH 05/34] fix: do not index past the last field when "t" ends the
 input

---
 src/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse.rs b/src/parse.rs
index 21ea7ee..9fc4d2c 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -1764,7 +1764,7 @@ impl DecodeDateTimeCtx {
                     return Err(DateTimeError::invalid(format!(
                         "the {:?} field's type: {:?} is unexpected",
                         field_id,
-                        ftypes[field_id + 1]
+                        ftypes.get(field_id + 1)
                     )));
                 }
                 self.p_type = TokenField::try_from(val)?;
-- 
2.43.0


From 717656e2539078b3b2936560acd95e8fe95fde9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:26 +0000
Subject: [PATCH 06/34] fix: reject NaN seconds when constructing a time

---
 src/time.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/time.rs b/src/time.rs
index 7c29a97..5ff5a38 100644
--- a/src/time.rs
+++ b/src/time.rs
@@ -54,6 +54,7 @@ impl Time {
         if h < 0
             || m < 0
             || m > MINS_PER_HOUR - 1
+            || s.is_nan()
             || s < 0.0
             || s > SECS_PER_MINUTE as f64
             || h > HOURS_PER_DAY
-- 
2.43.0


From 127ba973964b1b6910714267c6de70e3c7ba19db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:28 +0000
Subject: [PATCH 07/34] fix: report overflow when subtracting timestamps

---
 src/timestamp.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/timestamp.rs b/src/timestamp.rs
index b88eca3..ba0904f 100644
--- a/src/timestamp.rs
+++ b/src/timestamp.rs
@@ -341,7 +341,10 @@ impl Timestamp {
             )));
         }
 
-        let time = self.value() - timestamp.value();
+        let time = match self.value().checked_sub(timestamp.value()) {
+            Some(t) => t,
+            None => return Err(DateTimeError::overflow()),
+        };
 
         //	This is wrong, but removing it breaks a lot of regression tests.
         // For example:
-- 
2.43.0


From 6f82d0cb8576a93fffd8d5290366bc699c7eb785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:30 +0000
Subject: [PATCH 08/34] fix: report overflow when adding an interval to a
 timestamp

---
 src/timestamp.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/timestamp.rs b/src/timestamp.rs
index ba0904f..f9e1244 100644
--- a/src/timestamp.rs
+++ b/src/timestamp.rs
@@ -261,7 +261,10 @@ impl Timestamp {
                 let mut fsec = 0;
 
                 timestamp2time(self.value(), &None, &mut tm, &mut fsec, &mut None, &None)?;
-                tm.mon = tm.mon.wrapping_add(span.month());
+                tm.mon = match tm.mon.checked_add(span.month()) {
+                    Some(m) => m,
+                    None => return Err(DateTimeError::overflow()),
+                };
                 if tm.mon > MONTHS_PER_YEAR as i32 {
                     tm.year = tm.year.wrapping_add((tm.mon - 1) / MONTHS_PER_YEAR);
                     tm.mon = ((tm.mon - 1) % MONTHS_PER_YEAR) + 1;
@@ -284,13 +287,19 @@ impl Timestamp {
                 let mut fsec = 0;
                 timestamp2time(timestamp, &None, &mut tm, &mut fsec, &mut None, &None)?;
                 // Add days by converting to and from Julian
-                let julian = date2julian(tm.year, tm.mon, tm.mday).wrapping_add(span.day());
+                let julian = match date2julian(tm.year, tm.mon, tm.mday).checked_add(span.day()) {
+                    Some(j) if j >= 0 => j,
+                    _ => return Err(DateTimeError::overflow()),
+                };
                 let (y, m, d) = julian2date(julian);
                 tm.set_ymd(y, m, d);
                 timestamp = tm.to_timestamp(fsec, None)?;
             }
 
-            timestamp = timestamp.wrapping_add(span.time());
+            timestamp = match timestamp.checked_add(span.time()) {
+                Some(t) => t,
+                None => return Err(DateTimeError::overflow()),
+            };
 
             if !is_valid_timestamp(timestamp) {
                 return Err(DateTimeError::invalid(format!(
-- 
2.43.0


From 472624f1b631d039ef2768c4bf5f3b83f97401a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:32 +0000
Subject: [PATCH 09/34] fix: compute hour/minute totals in 64 bits

---
 src/common.rs   | 4 ++--
 src/interval.rs | 8 +++++---
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/common.rs b/src/common.rs
index 7e658e9..af290ae 100644
--- a/src/common.rs
+++ b/src/common.rs
@@ -388,8 +388,8 @@ impl PgTime {
 
 #[inline]
 fn time2t(hour: i32, min: i32, sec: i32, fsec: i64) -> i64 {
-    (((((hour * MINS_PER_HOUR) + min) * SECS_PER_MINUTE) as i64 + sec as i64)
-        * USECS_PER_SEC as i64)
+    ((((hour as i64 * MINS_PER_HOUR as i64) + min as i64) * SECS_PER_MINUTE as i64 + sec as i64)
+        * USECS_PER_SEC)
         + fsec
 }
 
diff --git a/src/interval.rs b/src/interval.rs
index abc1be8..8a39024 100644
--- a/src/interval.rs
+++ b/src/interval.rs
@@ -396,9 +396,11 @@ impl Interval {
 
         let month = total_months as i32;
         let day = tm.mday;
-        let time =
-            (((((tm.hour * 60) + tm.min) as i64 * 60) + tm.sec as i64) * USECS_PER_SEC) + fsec;
-        Ok(Self::from_mdt(month, day, time))
+        let time = ((((tm.hour as i64 * 60) + tm.min as i64) * 60) + tm.sec as i64) * USECS_PER_SEC;
+        match time.checked_add(fsec) {
+            Some(t) => Ok(Self::from_mdt(month, day, t)),
+            None => Err(DateTimeError::overflow()),
+        }
     }
 
     /// Converts an `Interval` data type to a `PgTime` structure.
-- 
2.43.0


From 6ff1bac5d520e730611ad77b91b500fe0b0b1b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:34 +0000
Subject: [PATCH 10/34] fix: report overflow for the year i32::MIN

---
 src/date.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/date.rs b/src/date.rs
index 15366cf..67406d9 100644
--- a/src/date.rs
+++ b/src/date.rs
@@ -74,7 +74,10 @@ impl Date {
         // Handle negative years as BC
         if tm.year < 0 {
             bc = true;
-            tm.year = -tm.year;
+            tm.year = match tm.year.checked_neg() {
+                Some(v) => v,
+                None => return Err(DateTimeError::overflow()),
+            };
         }
 
         tm.validate_date(DTK_DATE_M, false, false, bc)?;
-- 
2.43.0


From 9fca01a737ecd433e6fa9f4a7f9258707e1217b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:35 +0000
Subject: [PATCH 11/34] fix: wrap times of day modulo 24 hours for every
 interval

---
 src/time.rs | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/time.rs b/src/time.rs
index 5ff5a38..ebf3994 100644
--- a/src/time.rs
+++ b/src/time.rs
@@ -144,7 +144,7 @@ impl Time {
     /// `Time` Adds `Interval`.
     #[inline]
     pub fn add_interval(self, span: Interval) -> Time {
-        let mut result = self.value().wrapping_add(span.time());
+        let mut result = self.value() % USECS_PER_DAY + span.time() % USECS_PER_DAY;
         result -= result / USECS_PER_DAY * USECS_PER_DAY;
         if result < 0 {
             result += USECS_PER_DAY;
@@ -162,7 +162,7 @@ impl Time {
     /// `Time` subtracts `Interval`.
     #[inline]
     pub fn sub_interval(self, span: Interval) -> Time {
-        let mut result = self.value().wrapping_sub(span.time());
+        let mut result = self.value() % USECS_PER_DAY - span.time() % USECS_PER_DAY;
         result -= result / USECS_PER_DAY * USECS_PER_DAY;
         if result < 0 {
             result += USECS_PER_DAY;
@@ -259,13 +259,9 @@ impl TryFrom<Timestamp> for Option<Time> {
 impl From<Interval> for Time {
     #[inline]
     fn from(value: Interval) -> Self {
-        let mut result = value.time();
-        if result >= USECS_PER_DAY {
-            let days = result / USECS_PER_DAY;
-            result -= days * USECS_PER_DAY;
-        } else if result < 0 {
-            let days = (-result + USECS_PER_DAY - 1) / USECS_PER_DAY;
-            result += days * USECS_PER_DAY;
+        let mut result = value.time() % USECS_PER_DAY;
+        if result < 0 {
+            result += USECS_PER_DAY;
         }
         Time::from(result)
     }
-- 
2.43.0


From 4681145be8a52c845b29ec117e6844a75078bee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:09 +0000
Subject: [PATCH 12/34] fix: report overflow when scaling an interval

---
 src/interval.rs | 59 ++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 49 insertions(+), 10 deletions(-)

diff --git a/src/interval.rs b/src/interval.rs
index 8a39024..aac02c1 100644
--- a/src/interval.rs
+++ b/src/interval.rs
@@ -332,15 +332,25 @@ impl Interval {
         // cascade from months and days.  It might still be >24 if the combination
         // of cascade and the seconds factor operation itself.
         if sec_remainder.abs() >= SECS_PER_DAY as f64 {
-            result.day += (sec_remainder / SECS_PER_DAY as f64) as i32;
+            let extra_days = (sec_remainder / SECS_PER_DAY as f64) as i32;
+            result.day = match result.day.checked_add(extra_days) {
+                Some(d) => d,
+                None => return Err(DateTimeError::overflow()),
+            };
             sec_remainder -= (((sec_remainder / SECS_PER_DAY as f64) as i32) * SECS_PER_DAY) as f64;
         }
 
         // cascade units down
-        result.day += month_remainder_days as i32;
+        result.day = match result.day.checked_add(month_remainder_days as i32) {
+            Some(d) => d,
+            None => return Err(DateTimeError::overflow()),
+        };
         let result_time =
             (self.time as f64 * factor + sec_remainder * USECS_PER_SEC as f64).round();
-        if result_time > std::i64::MAX as f64 || result_time < std::i64::MIN as f64 {
+        if result_time.is_nan()
+            || result_time >= std::i64::MAX as f64
+            || result_time < std::i64::MIN as f64
+        {
             return Err(DateTimeError::overflow());
         }
 
@@ -360,10 +370,23 @@ impl Interval {
                 self
             )));
         }
-        let month = (self.month as f64 / factor) as i32;
-        let day = (self.day as f64 / factor) as i32;
+        let result_month = self.month as f64 / factor;
+        if result_month.is_nan()
+            || result_month > std::i32::MAX as f64
+            || result_month < std::i32::MIN as f64
+        {
+            return Err(DateTimeError::overflow());
+        }
+
+        let result_day = self.day as f64 / factor;
+        if result_day.is_nan()
+            || result_day > std::i32::MAX as f64
+            || result_day < std::i32::MIN as f64
+        {
+            return Err(DateTimeError::overflow());
+        }
 
-        let mut result = Interval::from_mdt(month, day, 0);
+        let mut result = Interval::from_mdt(result_month as i32, result_day as i32, 0);
         // Fractional months full days into days.  See comment in interval_mul().
 
         let mut month_remainder_days =
@@ -375,14 +398,30 @@ impl Interval {
             * SECS_PER_DAY as f64;
         sec_remainder = timestamp_round(sec_remainder);
         if sec_remainder.abs() >= SECS_PER_DAY as f64 {
-            result.day += (sec_remainder / SECS_PER_DAY as f64) as i32;
+            let extra_days = (sec_remainder / SECS_PER_DAY as f64) as i32;
+            result.day = match result.day.checked_add(extra_days) {
+                Some(d) => d,
+                None => return Err(DateTimeError::overflow()),
+            };
             sec_remainder -= (((sec_remainder / SECS_PER_DAY as f64) as i32) * SECS_PER_DAY) as f64;
         }
 
         // cascade units down
-        result.day += month_remainder_days as i32;
-        result.time =
-            (self.time as f64 / factor + sec_remainder * USECS_PER_SEC as f64).round() as i64;
+        result.day = match result.day.checked_add(month_remainder_days as i32) {
+            Some(d) => d,
+            None => return Err(DateTimeError::overflow()),
+        };
+        let result_time =
+            (self.time as f64 / factor + sec_remainder * USECS_PER_SEC as f64).round();
+        if result_time.is_nan()
+            || result_time >= std::i64::MAX as f64
+            || result_time < std::i64::MIN as f64
+        {
+            return Err(DateTimeError::overflow());
+        }
+
+        result.time = result_time as i64;
+
         Ok(result)
     }
 
-- 
2.43.0


From 67d1bc580d918404a423bdaf10183799ee0baa82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:11 +0000
Subject: [PATCH 13/34] fix: do not round a timestamp past the last valid one

---
 src/timestamp.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/timestamp.rs b/src/timestamp.rs
index f9e1244..6c20413 100644
--- a/src/timestamp.rs
+++ b/src/timestamp.rs
@@ -231,6 +231,9 @@ impl Timestamp {
                 let v = ((self.value() + TIMESTAMP_OFFSETS[typmod as usize])
                     / TIMESTAMP_SCALES[typmod as usize])
                     * TIMESTAMP_SCALES[typmod as usize];
+                if !is_valid_timestamp(v) {
+                    return Err(DateTimeError::overflow());
+                }
                 Ok(Timestamp::new(v))
             } else {
                 let v = -((((-self.value()) + TIMESTAMP_OFFSETS[typmod as usize])
-- 
2.43.0


From 250af3e39c2d2ba67aaeb0910726c428a1236c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:14 +0000
Subject: [PATCH 14/34] fix: make interval equality and hash agree with the
 ordering

---
 src/interval.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/interval.rs b/src/interval.rs
index aac02c1..b183480 100644
--- a/src/interval.rs
+++ b/src/interval.rs
@@ -20,6 +20,7 @@ use crate::parse::{decode_interval, decode_iso8601_interval, parse_date_time};
 use crate::token::*;
 use crate::{DateTime, DateUnit, FieldType, IntervalStyle, Time};
 use std::cmp::Ordering;
+use std::hash::{Hash, Hasher};
 use std::ops::Add;
 
 pub const INTERVAL_MASK_Y: i32 = TokenType::YEAR.mask();
@@ -69,7 +70,7 @@ const fn interval_precision(t: i32) -> i32 {
 }
 
 /// Interval represents delta time.
-#[derive(Copy, Clone, Debug, Eq, PartialEq, Hash)]
+#[derive(Copy, Clone, Debug)]
 #[repr(C)]
 pub struct Interval {
     /// All time units other than days, months and years.
@@ -1028,6 +1029,23 @@ impl Add<Interval> for Interval {
     }
 }
 
+// Equality and hash follow the ordering: '1 month' equals '30 days'.
+impl PartialEq for Interval {
+    #[inline]
+    fn eq(&self, other: &Self) -> bool {
+        self.cmp(other) == Ordering::Equal
+    }
+}
+
+impl Eq for Interval {}
+
+impl Hash for Interval {
+    #[inline]
+    fn hash<H: Hasher>(&self, state: &mut H) {
+        i128::from(*self).hash(state);
+    }
+}
+
 impl PartialOrd for Interval {
     #[inline]
     fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
-- 
2.43.0


From d45e8ebeb3ecd1a3d15ca2272504ca667b3c0b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:16 +0000
Subject: [PATCH 15/34] fix: report overflow of interval fields while decoding

---
 src/parse.rs | 119 ++++++++++++++++++++++++++++++++-------------------
 1 file changed, 76 insertions(+), 43 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index 9fc4d2c..b882fdd 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -2463,6 +2463,39 @@ fn adjust_fract_days(
     Ok(())
 }
 
+/// Adds `v` to a field of an interval being decoded.
+#[inline]
+fn add_to_field(dst: &mut i32, v: i32) -> Result<(), DateTimeError> {
+    match dst.checked_add(v) {
+        Some(sum) => {
+            *dst = sum;
+            Ok(())
+        }
+        None => Err(DateTimeError::overflow()),
+    }
+}
+
+/// Adds `v * scale` to a field of an interval being decoded.
+#[inline]
+fn add_scaled_to_field(dst: &mut i32, v: i32, scale: i32) -> Result<(), DateTimeError> {
+    match v.checked_mul(scale) {
+        Some(p) => add_to_field(dst, p),
+        None => Err(DateTimeError::overflow()),
+    }
+}
+
+/// Negates a field of an interval being decoded.
+#[inline]
+fn negate_field(dst: &mut i32) -> Result<(), DateTimeError> {
+    match dst.checked_neg() {
+        Some(v) => {
+            *dst = v;
+            Ok(())
+        }
+        None => Err(DateTimeError::overflow()),
+    }
+}
+
 fn decode_interval_number_field(
     field: &[u8],
     tm: &mut PgTime,
@@ -2553,14 +2586,14 @@ fn decode_interval_number_field(
         }
         TokenField::Millisec => {
             // avoid overflowing the fsec field.
-            tm.sec += val / 1000;
+            add_to_field(&mut tm.sec, val / 1000)?;
             val -= (val / 1000) * 1000;
             *f_sec += ((val as f64 + *f_val) * 1000_f64).round() as i64;
             *t_mask = TokenType::MILLISECOND.mask();
         }
 
         TokenField::Second => {
-            tm.sec += val;
+            add_to_field(&mut tm.sec, val)?;
             *f_sec += (*f_val * 1_000_000_f64).round() as i64;
 
             // If any subseconds were specified, consider this
@@ -2573,64 +2606,64 @@ fn decode_interval_number_field(
         }
 
         TokenField::Minute => {
-            tm.min += val;
+            add_to_field(&mut tm.min, val)?;
             adjust_fract_seconds(*f_val, tm, f_sec, SECS_PER_MINUTE)?;
             *t_mask = TokenType::MINUTE.mask();
         }
 
         TokenField::Hour => {
-            tm.hour += val;
+            add_to_field(&mut tm.hour, val)?;
             adjust_fract_seconds(*f_val, tm, f_sec, SECS_PER_HOUR)?;
             *t_mask = TokenType::HOUR.mask();
             *ty = TokenField::Day.value(); /* set for next field */
         }
 
         TokenField::Day => {
-            tm.mday += val;
+            add_to_field(&mut tm.mday, val)?;
             adjust_fract_seconds(*f_val, tm, f_sec, SECS_PER_DAY)?;
             *t_mask = TokenType::DAY.mask();
         }
 
         TokenField::Week => {
-            tm.mday += val * 7;
+            add_scaled_to_field(&mut tm.mday, val, 7)?;
             adjust_fract_days(*f_val, tm, f_sec, 7)?;
             *t_mask = TokenType::WEEK.mask();
         }
 
         TokenField::Month => {
-            tm.mon += val;
+            add_to_field(&mut tm.mon, val)?;
             adjust_fract_days(*f_val, tm, f_sec, DAYS_PER_MONTH)?;
             *t_mask = TokenType::MONTH.mask();
         }
 
         TokenField::Year => {
-            tm.year += val;
+            add_to_field(&mut tm.year, val)?;
             if *f_val != 0.0 {
-                tm.mon += (*f_val * MONTHS_PER_YEAR as f64) as i32;
+                add_to_field(&mut tm.mon, (*f_val * MONTHS_PER_YEAR as f64) as i32)?;
             }
             *t_mask = TokenType::YEAR.mask();
         }
 
         TokenField::Decade => {
-            tm.year += val * 10;
+            add_scaled_to_field(&mut tm.year, val, 10)?;
             if *f_val != 0.0 {
-                tm.mon += (*f_val * MONTHS_PER_YEAR as f64 * 10_f64) as i32;
+                add_to_field(&mut tm.mon, (*f_val * MONTHS_PER_YEAR as f64 * 10_f64) as i32)?;
             }
             *t_mask = TokenType::DECADE.mask();
         }
 
         TokenField::Century => {
-            tm.year += val * 100;
+            add_scaled_to_field(&mut tm.year, val, 100)?;
             if *f_val != 0.0 {
-                tm.mon += (*f_val * MONTHS_PER_YEAR as f64 * 100_f64) as i32;
+                add_to_field(&mut tm.mon, (*f_val * MONTHS_PER_YEAR as f64 * 100_f64) as i32)?;
             }
             *t_mask = TokenType::CENTURY.mask();
         }
 
         TokenField::Millennium => {
-            tm.year += val * 1000;
+            add_scaled_to_field(&mut tm.year, val, 1000)?;
             if *f_val != 0.0 {
-                tm.mon += (*f_val * MONTHS_PER_YEAR as f64 * 1000_f64) as i32;
+                add_to_field(&mut tm.mon, (*f_val * MONTHS_PER_YEAR as f64 * 1000_f64) as i32)?;
             }
             *t_mask = TokenType::MILLENNIUM.mask();
         }
@@ -2817,7 +2850,7 @@ pub fn decode_interval(
     if *f_sec != 0 {
         let sec = *f_sec / USECS_PER_SEC;
         *f_sec -= sec * USECS_PER_SEC;
-        tm.sec += sec as i32;
+        add_to_field(&mut tm.sec, sec as i32)?;
     }
 
     // The SQL standard defines the interval literal
@@ -2874,12 +2907,12 @@ pub fn decode_interval(
     // finally, AGO negates everything.
     if is_before {
         *f_sec = -(*f_sec);
-        tm.sec = -tm.sec;
-        tm.min = -tm.min;
-        tm.hour = -tm.hour;
-        tm.mday = -tm.mday;
-        tm.mon = -tm.mon;
-        tm.year = -tm.year;
+        negate_field(&mut tm.sec)?;
+        negate_field(&mut tm.min)?;
+        negate_field(&mut tm.hour)?;
+        negate_field(&mut tm.mday)?;
+        negate_field(&mut tm.mon)?;
+        negate_field(&mut tm.year)?;
     }
 
     Ok(())
@@ -2963,8 +2996,8 @@ fn decode_date_part_left<'a, 'b, 'c, 'd>(
 
     let mut s = s;
 
-    tm.year += *val;
-    tm.mon += (*fval * MONTHS_PER_YEAR as f64) as i32;
+    add_to_field(&mut tm.year, *val)?;
+    add_to_field(&mut tm.mon, (*fval * MONTHS_PER_YEAR as f64) as i32)?;
     if unit == b'\0' {
         return Ok((true, s));
     }
@@ -2975,7 +3008,7 @@ fn decode_date_part_left<'a, 'b, 'c, 'd>(
     }
 
     s = parse_iso8601_number(s, val, fval)?;
-    tm.mon += *val;
+    add_to_field(&mut tm.mon, *val)?;
     adjust_fract_days(*fval, tm, fsec, DAYS_PER_MONTH)?;
     match s.first() {
         None => return Ok((true, s)),
@@ -2996,7 +3029,7 @@ fn decode_date_part_left<'a, 'b, 'c, 'd>(
 
     s = &s[1..];
     s = parse_iso8601_number(s, val, fval)?;
-    tm.mday += *val;
+    add_to_field(&mut tm.mday, *val)?;
     adjust_fract_seconds(*fval, tm, fsec, SECS_PER_DAY)?;
     match s.first() {
         None => Ok((true, s)),
@@ -3029,14 +3062,14 @@ fn decode_time_part_left(
         return Err(DateTimeError::invalid("have field is set".to_string()));
     }
 
-    tm.hour += *val;
+    add_to_field(&mut tm.hour, *val)?;
     adjust_fract_seconds(*fval, tm, fsec, SECS_PER_HOUR)?;
     if unit == b'\0' {
         return Ok(());
     }
 
     let mut s = parse_iso8601_number(s, val, fval)?;
-    tm.min += *val;
+    add_to_field(&mut tm.min, *val)?;
     adjust_fract_seconds(*fval, tm, fsec, SECS_PER_MINUTE)?;
     match s.first() {
         None => return Ok(()),
@@ -3051,7 +3084,7 @@ fn decode_time_part_left(
     }
     s = &s[1..];
     s = parse_iso8601_number(s, val, fval)?;
-    tm.sec += *val;
+    add_to_field(&mut tm.sec, *val)?;
     adjust_fract_seconds(*fval, tm, fsec, 1)?;
     match s.first() {
         None => Ok(()),
@@ -3124,19 +3157,19 @@ pub fn decode_iso8601_interval(
             match unit        // before T: Y M W D.
             {
                 b'Y' => {
-                    tm.year += val;
-                    tm.mon += (fval * MONTHS_PER_YEAR as f64) as i32;
+                    add_to_field(&mut tm.year, val)?;
+                    add_to_field(&mut tm.mon, (fval * MONTHS_PER_YEAR as f64) as i32)?;
                 }
                 b'M' => {
-                    tm.mon += val;
+                    add_to_field(&mut tm.mon, val)?;
                     adjust_fract_days(fval, tm, fsec, DAYS_PER_MONTH)?;
                 }
                 b'W' => {
-                    tm.mday += val * 7;
+                    add_scaled_to_field(&mut tm.mday, val, 7)?;
                     adjust_fract_days(fval, tm, fsec, 7)?;
                 }
                 b'D' => {
-                    tm.mday += val;
+                    add_to_field(&mut tm.mday, val)?;
                     adjust_fract_seconds(fval, tm, fsec, SECS_PER_DAY)?;
                 }
                 b'T' | b'\0' => {
@@ -3144,9 +3177,9 @@ pub fn decode_iso8601_interval(
                     let width = iso8601_integer_width(field_start);
                     if width == 8 && !havefield
                     {
-                        tm.year += val / 10000;
-                        tm.mon += (val / 100) % 100;
-                        tm.mday += val % 100;
+                        add_to_field(&mut tm.year, val / 10000)?;
+                        add_to_field(&mut tm.mon, (val / 100) % 100)?;
+                        add_to_field(&mut tm.mday, val % 100)?;
                         adjust_fract_seconds(fval, tm, fsec, SECS_PER_DAY)?;
                         if unit == b'\0' {
                             return Ok(());
@@ -3188,24 +3221,24 @@ pub fn decode_iso8601_interval(
             match unit        /* after T: H M S */
             {
                 b'H' => {
-                    tm.hour += val;
+                    add_to_field(&mut tm.hour, val)?;
                     adjust_fract_seconds(fval, tm, fsec, SECS_PER_HOUR)?;
                 }
                 b'M' => {
-                    tm.min += val;
+                    add_to_field(&mut tm.min, val)?;
                     adjust_fract_seconds(fval, tm, fsec, SECS_PER_MINUTE)?;
                 }
                 b'S' => {
-                    tm.sec += val;
+                    add_to_field(&mut tm.sec, val)?;
                     adjust_fract_seconds(fval, tm, fsec, 1)?;
                 }
                 b'\0' => { // ISO 8601 4.4.3.3 Alternative Format
                     let len = iso8601_integer_width(field_start);
                     if len == 6 && !havefield
                     {
-                        tm.hour += val / 10000;
-                        tm.min += (val / 100) % 100;
-                        tm.sec += val % 100;
+                        add_to_field(&mut tm.hour, val / 10000)?;
+                        add_to_field(&mut tm.min, (val / 100) % 100)?;
+                        add_to_field(&mut tm.sec, val % 100)?;
                         adjust_fract_seconds(fval, tm, fsec, 1)?;
                         return Ok(());
                     }
-- 
2.43.0


From 8f516d2fbbefbeae8868e9cd3da7ba71250ccf05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:02 +0000
Subject: [PATCH 16/34] fix: zero-pad negative numbers without underflow

---
 src/common.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common.rs b/src/common.rs
index af290ae..a6164cf 100644
--- a/src/common.rs
+++ b/src/common.rs
@@ -752,7 +752,7 @@ pub fn pg_ltostr_zeropad(s: &mut [u8], value: i32, min_width: usize) -> usize {
             let old_val = num;
             num /= 10;
             let remainder = old_val - num * 10;
-            s[start + min_width] = b'0' - remainder as u8;
+            s[start + min_width] = (b'0' as i8 - remainder as i8) as u8;
         }
     } else {
         // Build the number starting at the last digit */
-- 
2.43.0


From e5364b82e2c5a845532e9a8b2f6c1fa1fd2f1a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:04 +0000
Subject: [PATCH 17/34] fix: format intervals whose day or hour is i32::MIN

---
 src/common.rs   |  7 ++++---
 src/interval.rs | 30 +++++++++++++++---------------
 2 files changed, 19 insertions(+), 18 deletions(-)

diff --git a/src/common.rs b/src/common.rs
index a6164cf..ff8fba6 100644
--- a/src/common.rs
+++ b/src/common.rs
@@ -661,12 +661,12 @@ pub const MAX_INTERVAL_PRECISION: usize = 6;
 /// Note: Caller must ensure that 'str' points to enough memory to hold the
 /// result.
 #[inline]
-pub fn pg_ltostr(s: &mut [u8], value: i32) -> usize {
+pub fn pg_ltostr<T: Into<i64>>(s: &mut [u8], value: T) -> usize {
     let mut start = 0;
     // Handle negative numbers in a special way.  We can't just write a '-'
     // prefix and reverse the sign as that would overflow for INT32_MIN.
     let mut new_start = 0;
-    let mut value = value;
+    let mut value: i64 = value.into();
     if value < 0 {
         s[0] = b'-';
         start = 1;
@@ -730,9 +730,10 @@ pub fn pg_ltostr(s: &mut [u8], value: i32) -> usize {
 /// Note: Caller must ensure that 'str' points to enough memory to hold the
 /// result.
 #[inline]
-pub fn pg_ltostr_zeropad(s: &mut [u8], value: i32, min_width: usize) -> usize {
+pub fn pg_ltostr_zeropad<T: Into<i64>>(s: &mut [u8], value: T, min_width: usize) -> usize {
     let mut start = 0;
     let end = min_width;
+    let value: i64 = value.into();
     let mut num = value;
     let mut min_width = min_width;
 
diff --git a/src/interval.rs b/src/interval.rs
index b183480..d51ecc1 100644
--- a/src/interval.rs
+++ b/src/interval.rs
@@ -664,12 +664,12 @@ fn format_interval(
     mut fsec: i64,
     style: IntervalStyle,
 ) -> Result<usize, DateTimeError> {
-    let mut year = tm.year;
-    let mut mon = tm.mon;
-    let mut mday = tm.mday;
-    let mut hour = tm.hour;
-    let mut min = tm.min;
-    let mut sec = tm.sec;
+    let mut year = tm.year as i64;
+    let mut mon = tm.mon as i64;
+    let mut mday = tm.mday as i64;
+    let mut hour = tm.hour as i64;
+    let mut min = tm.min as i64;
+    let mut sec = tm.sec as i64;
     let mut is_before = false;
     let mut is_zero = true;
 
@@ -734,7 +734,7 @@ fn format_interval(
                 offset = set_one_byte(s, offset, b':');
                 offset += append_seconds(
                     &mut s[offset..],
-                    sec,
+                    sec as i32,
                     fsec,
                     MAX_INTERVAL_PRECISION as i32,
                     true,
@@ -754,7 +754,7 @@ fn format_interval(
                 offset = set_one_byte(s, offset, b':');
                 offset += append_seconds(
                     &mut s[offset..],
-                    sec,
+                    sec as i32,
                     fsec,
                     MAX_INTERVAL_PRECISION as i32,
                     true,
@@ -767,7 +767,7 @@ fn format_interval(
                 offset = set_one_byte(s, offset, b':');
                 offset += append_seconds(
                     &mut s[offset..],
-                    sec,
+                    sec as i32,
                     fsec,
                     MAX_INTERVAL_PRECISION as i32,
                     true,
@@ -798,7 +798,7 @@ fn format_interval(
                 }
                 offset += append_seconds(
                     &mut s[offset..],
-                    sec,
+                    sec as i32,
                     fsec,
                     MAX_INTERVAL_PRECISION as i32,
                     false,
@@ -848,7 +848,7 @@ fn format_interval(
                 offset = set_one_byte(s, offset, b':');
                 offset += append_seconds(
                     &mut s[offset..],
-                    sec,
+                    sec as i32,
                     fsec,
                     MAX_INTERVAL_PRECISION as i32,
                     true,
@@ -894,7 +894,7 @@ fn format_interval(
                 }
                 offset += append_seconds(
                     &mut s[offset..],
-                    sec,
+                    sec as i32,
                     fsec,
                     MAX_INTERVAL_PRECISION as i32,
                     false,
@@ -922,7 +922,7 @@ fn format_interval(
 /// Helper functions to avoid duplicated code in EncodeInterval.
 /// Append an ISO-8601-style interval field, but only if value isn't zero.
 #[inline]
-fn add_iso8601_int_part(s: &mut [u8], value: i32, units: u8) -> Result<usize, DateTimeError> {
+fn add_iso8601_int_part(s: &mut [u8], value: i64, units: u8) -> Result<usize, DateTimeError> {
     if value == 0 {
         return Ok(0);
     }
@@ -937,7 +937,7 @@ fn add_iso8601_int_part(s: &mut [u8], value: i32, units: u8) -> Result<usize, Da
 #[inline]
 fn add_postgres_int_part(
     s: &mut [u8],
-    value: i32,
+    value: i64,
     units: &[u8],
     is_zero: &mut bool,
     is_before: &mut bool,
@@ -972,7 +972,7 @@ fn add_postgres_int_part(
 #[inline]
 fn add_verbose_int_part(
     s: &mut [u8],
-    value: i32,
+    value: i64,
     units: &[u8],
     is_zero: &mut bool,
     is_before: &mut bool,
-- 
2.43.0


From 52892020e4e64bcd7181266417a01e1d517a16b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:06 +0000
Subject: [PATCH 18/34] fix: truncating an infinite timestamp or date leaves it
 unchanged

---
 src/timestamp.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/timestamp.rs b/src/timestamp.rs
index 6c20413..e2d6073 100644
--- a/src/timestamp.rs
+++ b/src/timestamp.rs
@@ -885,6 +885,9 @@ impl DateTime for Timestamp {
     /// Truncates `Timestamp` to specified units.
     #[inline]
     fn truncate(&self, ty: FieldType, unit: DateUnit) -> Result<Self, DateTimeError> {
+        if self.is_infinite() {
+            return Ok(*self);
+        }
         match ty {
             FieldType::Unit => {
                 let mut tm = PgTime::new();
-- 
2.43.0


From ea53c598d1f90542554e66d46a518ef90c988af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:08 +0000
Subject: [PATCH 19/34] fix: truncate late December days of ISO week 1 to that
 week

---
 src/common.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common.rs b/src/common.rs
index ff8fba6..89a0f7f 100644
--- a/src/common.rs
+++ b/src/common.rs
@@ -147,7 +147,7 @@ impl PgTime {
             self.year -= 1;
         }
         if woy <= 1 && self.mon == MONTHS_PER_YEAR {
-            self.year -= 1;
+            self.year += 1;
         }
         iso_week_to_date(woy, self);
         self.hour = 0;
-- 
2.43.0


From 24e6ae01a0aa6ec8d5cc4457e179bf530995043f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:09 +0000
Subject: [PATCH 20/34] fix: reject day-of-year dates outside the Julian day
 range

---
 src/common.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/common.rs b/src/common.rs
index 89a0f7f..afb25ac 100644
--- a/src/common.rs
+++ b/src/common.rs
@@ -320,7 +320,14 @@ impl PgTime {
 
         // now that we have correct year, decode DOY.
         if (f_mask & TokenType::DOY.mask()) != 0 {
-            let (y, m, d) = julian2date(date2julian(self.year, 1, 1) + self.yday - 1);
+            if self.year < JULIAN_MIN_YEAR || self.year >= JULIAN_MAX_YEAR {
+                return Err(DateTimeError::overflow());
+            }
+            let julian = date2julian(self.year, 1, 1) + self.yday - 1;
+            if julian < 0 {
+                return Err(DateTimeError::overflow());
+            }
+            let (y, m, d) = julian2date(julian);
             self.set_ymd(y, m, d);
         }
 
-- 
2.43.0


From 7d852cd4ca0a974e7138cb4cac8d9fa427d30efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:11 +0000
Subject: [PATCH 21/34] fix: truncating 24:00:00 does not wrap to midnight

---
 src/time.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/time.rs b/src/time.rs
index ebf3994..3c13702 100644
--- a/src/time.rs
+++ b/src/time.rs
@@ -309,7 +309,7 @@ impl DateTime for Time {
     fn truncate(&self, ty: FieldType, unit: DateUnit) -> Result<Self, DateTimeError> {
         let interval: Interval = From::from(*self);
         let it = interval.truncate(ty, unit)?;
-        Ok(From::from(it))
+        Ok(Time::from(it.time()))
     }
 }
 
-- 
2.43.0


From 00671c57f853ce02d2cd11d49a58f3da198eef60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:13 +0000
Subject: [PATCH 22/34] fix: reject strings longer than the work buffer instead
 of panicking

---
 src/parse.rs | 71 +++++++++++++++++++++++++++++++---------------------
 1 file changed, 42 insertions(+), 29 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index b882fdd..6be735e 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -85,6 +85,21 @@ fn extract_sign(s: &[u8]) -> (i32, &[u8]) {
     }
 }
 
+/// Appends `src` to the work buffer at `offset`, returns the new offset.
+#[inline]
+fn append_field(dst: &mut [u8], offset: usize, src: &[u8]) -> Result<usize, DateTimeError> {
+    let end = offset + src.len();
+    match dst.get_mut(offset..end) {
+        Some(d) => {
+            d.copy_from_slice(src);
+            Ok(end)
+        }
+        None => Err(DateTimeError::invalid(
+            "date time string is too long".to_string(),
+        )),
+    }
+}
+
 /// Parse date time string for digit and delim begin.
 #[inline]
 fn parse_date_time_for_digit_delim_begin<'a, 'b>(
@@ -93,27 +108,26 @@ fn parse_date_time_for_digit_delim_begin<'a, 'b>(
     f_types: &mut [TokenField],
     buf_pos: &mut usize,
     nf: usize,
-) -> &'a [u8] {
+) -> Result<&'a [u8], DateTimeError> {
     let delim = s.first().unwrap();
     f_types[nf] = if delim == &b'.' {
         TokenField::Number
     } else {
         TokenField::Date
     };
-    current_buf[*buf_pos] = *delim;
+    *buf_pos = append_field(current_buf, *buf_pos, &s[..1])?;
     let s = &s[1..];
-    *buf_pos += 1;
-    match s.first() {
+    let s = match s.first() {
         Some(c) => {
             if c.is_ascii_digit() {
                 let (field_str, s) = eat_digits(s);
-                *buf_pos = copy_slice(current_buf, *buf_pos, field_str);
+                *buf_pos = append_field(current_buf, *buf_pos, field_str)?;
                 match s.first() {
                     Some(c) => {
                         if c == delim {
                             f_types[nf] = TokenField::Date;
                             let (field_str, s) = eat_digits_and_chars(s, *delim);
-                            *buf_pos = copy_slice(current_buf, *buf_pos, field_str);
+                            *buf_pos = append_field(current_buf, *buf_pos, field_str)?;
                             s
                         } else {
                             s
@@ -125,12 +139,13 @@ fn parse_date_time_for_digit_delim_begin<'a, 'b>(
                 f_types[nf] = TokenField::Date;
                 let (field_str, s) = eat_alphanumerics_and_chars(s, *delim);
                 let lower_str = field_str.to_ascii_lowercase();
-                *buf_pos = copy_slice(current_buf, *buf_pos, lower_str.as_ref());
+                *buf_pos = append_field(current_buf, *buf_pos, lower_str.as_ref())?;
                 s
             }
         }
         None => s,
-    }
+    };
+    Ok(s)
 }
 
 /// Parse date time string for digit begin.
@@ -141,18 +156,18 @@ fn parse_date_time_for_digit_begin<'a, 'b, 'c>(
     fields: &'c mut [&'b [u8]],
     f_types: &mut [TokenField],
     nf: usize,
-) -> (&'a [u8], &'b mut [u8]) {
+) -> Result<(&'a [u8], &'b mut [u8]), DateTimeError> {
     let (field_part0, s) = eat_digits(s);
-    let mut buf_pos = copy_slice(current_buf, 0, field_part0);
+    let mut buf_pos = append_field(current_buf, 0, field_part0)?;
     let s = match s.first() {
         Some(&b':') => {
             let (field_str, s) = eat_time(s);
-            buf_pos = copy_slice(current_buf, buf_pos, field_str);
+            buf_pos = append_field(current_buf, buf_pos, field_str)?;
             f_types[nf] = TokenField::Time;
             s
         }
         Some(&b'-') | Some(&b'/') | Some(&b'.') => {
-            parse_date_time_for_digit_delim_begin(s, current_buf, f_types, &mut buf_pos, nf)
+            parse_date_time_for_digit_delim_begin(s, current_buf, f_types, &mut buf_pos, nf)?
         }
 
         _ => {
@@ -163,7 +178,7 @@ fn parse_date_time_for_digit_begin<'a, 'b, 'c>(
 
     let (field, current_buf) = current_buf.split_at_mut(buf_pos);
     fields[nf as usize] = field;
-    (s, current_buf)
+    Ok((s, current_buf))
 }
 
 /// Parse date time string for dot begin.
@@ -174,16 +189,15 @@ fn parse_date_time_for_dot_begin<'a, 'b, 'c>(
     fields: &'c mut [&'b [u8]],
     f_types: &mut [TokenField],
     nf: usize,
-) -> (&'a [u8], &'b mut [u8]) {
+) -> Result<(&'a [u8], &'b mut [u8]), DateTimeError> {
     f_types[nf] = TokenField::Number;
-    current_buf[0] = s[0];
+    let mut buf_pos = append_field(current_buf, 0, &s[..1])?;
     let s = &s[1..];
-    let mut buf_pos = 1;
     let (field_str, s) = eat_digits(s);
-    buf_pos = copy_slice(current_buf, buf_pos, field_str);
+    buf_pos = append_field(current_buf, buf_pos, field_str)?;
     let (filed, ret_buf) = current_buf.split_at_mut(buf_pos);
     fields[nf] = filed;
-    (s, ret_buf)
+    Ok((s, ret_buf))
 }
 
 /// Parse date time string for alpha begin.
@@ -193,11 +207,11 @@ fn parse_date_time_for_alpha_begin<'a, 'b, 'c>(
     fields: &'c mut [&'b [u8]],
     f_types: &mut [TokenField],
     nf: usize,
-) -> (&'a [u8], &'b mut [u8]) {
+) -> Result<(&'a [u8], &'b mut [u8]), DateTimeError> {
     f_types[nf] = TokenField::String;
     let (field_str, s) = eat_alphabetics(s);
     let field_str = field_str.to_ascii_lowercase();
-    let mut buf_pos = copy_slice(current_buf, 0, field_str.as_ref());
+    let mut buf_pos = append_field(current_buf, 0, field_str.as_ref())?;
     let is_date = match s.first() {
         Some(c) => {
             if c == &b'-' || c == &b'/' || c == &b'.' {
@@ -223,7 +237,7 @@ fn parse_date_time_for_alpha_begin<'a, 'b, 'c>(
                 || i == b':'
                 || i.is_ascii_alphanumeric()
         });
-        buf_pos = copy_slice(current_buf, buf_pos, field_str);
+        buf_pos = append_field(current_buf, buf_pos, field_str)?;
         s
     } else {
         s
@@ -231,7 +245,7 @@ fn parse_date_time_for_alpha_begin<'a, 'b, 'c>(
 
     let (filed, ret_buf) = current_buf.split_at_mut(buf_pos);
     fields[nf] = filed;
-    (s, ret_buf)
+    Ok((s, ret_buf))
 }
 
 /// Parse date time string for sign begin.
@@ -243,10 +257,9 @@ fn parse_date_time_for_sign_begin<'a, 'b, 'c>(
     f_types: &mut [TokenField],
     nf: usize,
 ) -> Result<(&'a [u8], &'b mut [u8]), DateTimeError> {
-    current_buf[0] = s[0];
+    let mut buf_pos = append_field(current_buf, 0, &s[..1])?;
     let s = &s[1..];
     let s = eat_whitespaces(s);
-    let mut buf_pos = 1;
     let s = match s.first() {
         Some(c) => {
             if c.is_ascii_digit() {
@@ -254,13 +267,13 @@ fn parse_date_time_for_sign_begin<'a, 'b, 'c>(
                 let (field_str, s) = eat_special_chars(s, |i| {
                     i.is_ascii_digit() || i == b':' || i == b'.' || i == b'-'
                 });
-                buf_pos = copy_slice(current_buf, buf_pos, field_str);
+                buf_pos = append_field(current_buf, buf_pos, field_str)?;
                 s
             } else if c.is_ascii_alphabetic() {
                 f_types[nf] = TokenField::Special;
                 let (field_str, s) = eat_alphabetics(s);
                 let save_buf_pos = buf_pos;
-                buf_pos = copy_slice(current_buf, buf_pos, field_str);
+                buf_pos = append_field(current_buf, buf_pos, field_str)?;
                 let buf = &mut current_buf[save_buf_pos..save_buf_pos + field_str.len()];
                 buf.make_ascii_lowercase();
                 s
@@ -343,7 +356,7 @@ where
                         fields,
                         f_types,
                         field_num,
-                    );
+                    )?;
                     current_str = ret_str;
                     current_buf = ret_buf;
                 } else if char == &b'.' {
@@ -353,7 +366,7 @@ where
                         fields,
                         f_types,
                         field_num,
-                    );
+                    )?;
                     current_str = ret_str;
                     current_buf = ret_buf;
                 } else if char.is_ascii_alphabetic() {
@@ -363,7 +376,7 @@ where
                         fields,
                         f_types,
                         field_num,
-                    );
+                    )?;
                     current_str = ret_str;
                     current_buf = ret_buf;
                 } else if *char == b'+' || *char == b'-' {
-- 
2.43.0


From 5460fd51e8a7c39d004a025c71160f0d11b51280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:15 +0000
Subject: [PATCH 23/34] fix: reject a time of day without a date when parsing a
 date

---
 src/date.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/date.rs b/src/date.rs
index 67406d9..0b0149a 100644
--- a/src/date.rs
+++ b/src/date.rs
@@ -208,7 +208,7 @@ impl Date {
         let field_num =
             parse_date_time(s, &mut work_buf, &mut fields, &mut f_types, MAX_DATE_FIELDS)?;
         let mut tm = PgTime::new();
-        let (_, d_type, _) = decode_date_time(
+        let (time_only, d_type, _) = decode_date_time(
             &fields[0..field_num],
             &f_types[0..field_num],
             &mut tm,
@@ -216,6 +216,11 @@ impl Date {
             date_order,
         )?;
 
+        // A time of day without a date is not a date.
+        if time_only != 0 {
+            return Err(DateTimeError::invalid(format!("no date in {:?}", s)));
+        }
+
         match d_type {
             TokenField::Date => {}
             //DTK_EPOCH => todo!(), // Timezone relate
-- 
2.43.0


From 5c9b9d16a145f793730732e086d4639dd22a81d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:53 +0000
Subject: [PATCH 24/34] fix: the age of an infinite timestamp is an error

---
 src/timestamp.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/timestamp.rs b/src/timestamp.rs
index e2d6073..e4c2f91 100644
--- a/src/timestamp.rs
+++ b/src/timestamp.rs
@@ -393,6 +393,13 @@ impl Timestamp {
     /// is done.
     #[inline]
     pub fn age(self, timestamp: Timestamp) -> Result<Interval, DateTimeError> {
+        if self.is_infinite() || timestamp.is_infinite() {
+            return Err(DateTimeError::invalid(format!(
+                "age have infinite, left: {:?}, right: {:?}",
+                self, timestamp
+            )));
+        }
+
         let mut tm: PgTime = PgTime::new();
         let mut tm1: PgTime = PgTime::new();
         let mut tm2: PgTime = PgTime::new();
-- 
2.43.0


From c84065c52fb88b9203cad79e1a50dba737582539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:29 +0000
Subject: [PATCH 25/34] fix: singular unit names in verbose intervals before
 'ago'

---
 src/interval.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/interval.rs b/src/interval.rs
index d51ecc1..3f62164 100644
--- a/src/interval.rs
+++ b/src/interval.rs
@@ -982,16 +982,16 @@ fn add_verbose_int_part(
     }
 
     let mut offset = 0;
+    let mut value = value;
     offset = set_one_byte(s, offset, b' ');
     // first nonzero value sets is_before.
     if *is_zero {
         *is_before = value < 0;
-        offset += pg_ltostr(&mut s[offset..], value.abs());
+        value = value.abs();
     } else if *is_before {
-        offset += pg_ltostr(&mut s[offset..], -value);
-    } else {
-        offset += pg_ltostr(&mut s[offset..], value);
-    };
+        value = -value;
+    }
+    offset += pg_ltostr(&mut s[offset..], value);
     offset = set_one_byte(s, offset, b' ');
     offset = copy_slice(s, offset, units);
     if value != 1 {
-- 
2.43.0


From 9dbddb998784873402238112c3871e814c39ffd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:23 +0000
Subject: [PATCH 26/34] fix: range-check run-together and labelled times of
 dates and timestamps

---
 src/parse.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/parse.rs b/src/parse.rs
index 6be735e..0f8e9e9 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -1890,6 +1890,20 @@ pub fn decode_date_time(
         tm.hour += HOURS_PER_DAY / 2;
     }
 
+    // A run-together or labelled time has not been range-checked so far.
+    if tm.hour < 0
+        || tm.min < 0
+        || tm.min > MINS_PER_HOUR - 1
+        || tm.sec < 0
+        || tm.sec > SECS_PER_MINUTE
+        || tm.hour > HOURS_PER_DAY
+        || (tm.hour == HOURS_PER_DAY && (tm.min > 0 || tm.sec > 0 || ctx.f_sec > 0))
+        || ctx.f_sec < 0
+        || ctx.f_sec > USECS_PER_SEC
+    {
+        return Err(DateTimeError::overflow());
+    }
+
     /* do additional checking for full date specs... */
     if ctx.d_type == TokenField::Date && (ctx.f_mask & DTK_DATE_M) != DTK_DATE_M {
         if (ctx.f_mask & DTK_TIME_M) == DTK_TIME_M {
-- 
2.43.0


From 2816499d10e8eb0dfd3b1eb9d8241dbf13322bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:35 +0000
Subject: [PATCH 27/34] fix: reject a time string without a time of day

---
 src/parse.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/parse.rs b/src/parse.rs
index 0f8e9e9..c64233e 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -2437,6 +2437,14 @@ pub fn decode_time_only(
         return Err(DateTimeError::overflow());
     }
 
+    // A string without a complete time of day is not a time.
+    if (ctx.f_mask & DTK_TIME_M) != DTK_TIME_M {
+        return Err(DateTimeError::invalid(format!(
+            "time's field mask: {:x} is invalid",
+            ctx.f_mask
+        )));
+    }
+
     // To do for time zone
     Ok(ctx.f_sec)
 }
-- 
2.43.0


From 4bd1db4df2141b6bce265a4a293ac19a74a038f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:13 +0000
Subject: [PATCH 28/34] fix: parse negative ISO 8601 intervals

Interval::format writes negative components in ISO 8601 style (P-1Y-2DT-3H),
but the number reader took 'c' for '-' as a leading character and rejected
them; a sign or decimal point without digits is not a number.
---
 src/parse.rs | 42 ++++++++++++++++++++++++++++++++++++------
 1 file changed, 36 insertions(+), 6 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index c64233e..721f8fa 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -2970,7 +2970,7 @@ fn parse_iso8601_number<'a, 'b, 'c>(
             ));
         }
         Some(c) => {
-            if !(c.is_ascii_digit() || c == &b'c' || c == &b'.') {
+            if !(c.is_ascii_digit() || c == &b'-' || c == &b'.') {
                 return Err(DateTimeError::invalid(format!(
                     "str: {:?} is invalid for iso number",
                     s
@@ -2979,6 +2979,13 @@ fn parse_iso8601_number<'a, 'b, 'c>(
         }
     }
 
+    // A sign or a decimal point alone is not a number.
+    let (_, digits) = extract_sign(s);
+    let (digits, _) = eat_digits_and_chars(digits, b'.');
+    if !digits.iter().any(|i| i.is_ascii_digit()) {
+        return Err(DateTimeError::invalid(format!("str: {:?} is not digit", s)));
+    }
+
     let (val, end) = str2d(s)?;
     if end.len() == s.len() {
         return Err(DateTimeError::invalid(format!("str: {:?} is not digit", s)));
@@ -2991,12 +2998,28 @@ fn parse_iso8601_number<'a, 'b, 'c>(
     if val >= 0.0 {
         *ipart = val.floor() as i32;
     } else {
-        *ipart = -val.floor() as i32;
+        *ipart = -(-val).floor() as i32;
     }
     *fpart = val - *ipart as f64;
     Ok(end)
 }
 
+/// Get a number of the ISO 8601 alternative format, which takes no signs.
+#[inline]
+fn parse_iso8601_unsigned<'a, 'b, 'c>(
+    s: &'a [u8],
+    ipart: &'b mut i32,
+    fpart: &'c mut f64,
+) -> Result<&'a [u8], DateTimeError> {
+    if s.first() == Some(&b'-') {
+        return Err(DateTimeError::invalid(format!(
+            "sign is not expected at: {:?}",
+            s
+        )));
+    }
+    parse_iso8601_number(s, ipart, fpart)
+}
+
 /// Determine number of integral digits in a valid ISO 8601 number field
 /// (we should ignore sign and any fraction part)
 #[inline]
@@ -3042,7 +3065,7 @@ fn decode_date_part_left<'a, 'b, 'c, 'd>(
         return Ok((false, s));
     }
 
-    s = parse_iso8601_number(s, val, fval)?;
+    s = parse_iso8601_unsigned(s, val, fval)?;
     add_to_field(&mut tm.mon, *val)?;
     adjust_fract_days(*fval, tm, fsec, DAYS_PER_MONTH)?;
     match s.first() {
@@ -3063,7 +3086,7 @@ fn decode_date_part_left<'a, 'b, 'c, 'd>(
     }
 
     s = &s[1..];
-    s = parse_iso8601_number(s, val, fval)?;
+    s = parse_iso8601_unsigned(s, val, fval)?;
     add_to_field(&mut tm.mday, *val)?;
     adjust_fract_seconds(*fval, tm, fsec, SECS_PER_DAY)?;
     match s.first() {
@@ -3103,7 +3126,7 @@ fn decode_time_part_left(
         return Ok(());
     }
 
-    let mut s = parse_iso8601_number(s, val, fval)?;
+    let mut s = parse_iso8601_unsigned(s, val, fval)?;
     add_to_field(&mut tm.min, *val)?;
     adjust_fract_seconds(*fval, tm, fsec, SECS_PER_MINUTE)?;
     match s.first() {
@@ -3118,7 +3141,7 @@ fn decode_time_part_left(
         }
     }
     s = &s[1..];
-    s = parse_iso8601_number(s, val, fval)?;
+    s = parse_iso8601_unsigned(s, val, fval)?;
     add_to_field(&mut tm.sec, *val)?;
     adjust_fract_seconds(*fval, tm, fsec, 1)?;
     match s.first() {
@@ -3188,6 +3211,13 @@ pub fn decode_iso8601_interval(
         } else {
             b'\0'
         };
+        let alternative = unit == b'\0' || unit == b'-' || unit == b':' || unit == b'T';
+        if alternative && field_start[0] == b'-' {
+            return Err(DateTimeError::invalid(format!(
+                "sign is not expected at: {:?}",
+                field_start
+            )));
+        }
         if datepart {
             match unit        // before T: Y M W D.
             {
-- 
2.43.0


From 41143fa35231b9bb994ee8c6df15fd294091f238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:53 +0000
Subject: [PATCH 29/34] fix: read the numbers of a spelled-out date by its
 month name

As in DecodeDateTime of PostgreSQL: with a month name, a wide number is the
year wherever it stands ('Mar 2021 04'), and the order of two-digit numbers
follows the date order ('Jan 08 99' is not a date in YMD order).
---
 src/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse.rs b/src/parse.rs
index 721f8fa..68d8ecc 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -1617,7 +1617,7 @@ impl DecodeDateTimeCtx {
             else {
                 decode_number(
                     str,
-                    false,
+                    self.have_text_month,
                     self.f_mask,
                     &mut self.t_mask,
                     tm,
-- 
2.43.0


From beef3b46c65c86173ab10ee68fff3f02b04782b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:54 +0000
Subject: [PATCH 30/34] fix: reject field labels that are not followed by a
 value

---
 src/parse.rs | 53 ++++++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 53 insertions(+)

diff --git a/src/parse.rs b/src/parse.rs
index 68d8ecc..7c05c51 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -1749,6 +1749,13 @@ impl DecodeDateTimeCtx {
             }
             TokenType::UNITS => {
                 self.t_mask = 0;
+                // A label must be followed by its value, not by another label.
+                if self.p_type != TokenField::Number {
+                    return Err(DateTimeError::invalid(format!(
+                        "prefix type: {:?} is not expected before another",
+                        self.p_type
+                    )));
+                }
                 self.p_type = TokenField::try_from(val)?;
             }
 
@@ -1780,6 +1787,12 @@ impl DecodeDateTimeCtx {
                         ftypes.get(field_id + 1)
                     )));
                 }
+                if self.p_type != TokenField::Number {
+                    return Err(DateTimeError::invalid(format!(
+                        "prefix type: {:?} is not expected before another",
+                        self.p_type
+                    )));
+                }
                 self.p_type = TokenField::try_from(val)?;
             }
 
@@ -1878,6 +1891,14 @@ pub fn decode_date_time(
         ctx.f_mask |= ctx.t_mask;
     }
 
+    // A label at the end has no value.
+    if ctx.p_type != TokenField::Number {
+        return Err(DateTimeError::invalid(format!(
+            "prefix type: {:?} is not expected at the end",
+            ctx.p_type
+        )));
+    }
+
     // do final checking/adjustment of Y/M/D fields.
     tm.validate_date(ctx.f_mask, ctx.is_julian, ctx.is2digits, ctx.bc)?;
     // handle AM/PM.
@@ -2309,6 +2330,13 @@ impl DecodeTimeOnlyCtx {
             }
             TokenType::UNITS => {
                 self.t_mask = 0;
+                // A label must be followed by its value, not by another label.
+                if self.p_type != TokenField::Number {
+                    return Err(DateTimeError::invalid(format!(
+                        "prefix type: {:?} is not expected before another",
+                        self.p_type
+                    )));
+                }
                 self.p_type = TokenField::try_from(val)?;
             }
 
@@ -2329,6 +2357,12 @@ impl DecodeTimeOnlyCtx {
                         field_id, f_types[field_id]
                     )));
                 }
+                if self.p_type != TokenField::Number {
+                    return Err(DateTimeError::invalid(format!(
+                        "prefix type: {:?} is not expected before another",
+                        self.p_type
+                    )));
+                }
                 self.p_type = TokenField::try_from(val)?;
             }
 
@@ -2373,6 +2407,17 @@ pub fn decode_time_only(
                 ctx.decode_date_token(i, f_types, field, tm, tz, date_order)?;
             }
             TokenField::Time => {
+                // This might be an ISO time following a "t" field.
+                if ctx.p_type != TokenField::Number {
+                    if ctx.p_type != TokenField::Time {
+                        return Err(DateTimeError::invalid(format!(
+                            "prefix type: {:?} is not time",
+                            ctx.p_type
+                        )));
+                    }
+                    ctx.p_type = TokenField::Number;
+                }
+
                 decode_time(
                     field,
                     ctx.f_mask | DTK_DATE_M,
@@ -2411,6 +2456,14 @@ pub fn decode_time_only(
         ctx.f_mask |= ctx.t_mask;
     }
 
+    // A label at the end has no value.
+    if ctx.p_type != TokenField::Number {
+        return Err(DateTimeError::invalid(format!(
+            "prefix type: {:?} is not expected at the end",
+            ctx.p_type
+        )));
+    }
+
     // do final checking/adjustment of Y/M/D fields.
     tm.validate_date(ctx.f_mask, ctx.is_julian, ctx.is2digits, ctx.bc)?;
     // handle AM/PM.
-- 
2.43.0


From ecb1360a0b9e382cfde37caa40347b85aa4ed1de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:21 +0000
Subject: [PATCH 31/34] fix: reject reserved words combined with other date or
 time fields

---
 src/parse.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index 7c05c51..98469d7 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -1683,7 +1683,11 @@ impl DecodeDateTimeCtx {
                         }
                     }
 
-                    _ => self.d_type = TokenField::try_from(val)?,
+                    // A reserved word stands for a whole date and time.
+                    _ => {
+                        self.t_mask = DTK_DATE_M | DTK_TIME_M | TokenType::TZ.mask();
+                        self.d_type = TokenField::try_from(val)?;
+                    }
                 }
             }
 
@@ -1899,6 +1903,11 @@ pub fn decode_date_time(
         )));
     }
 
+    // "infinity" and the like have no fields to check.
+    if ctx.d_type != TokenField::Date {
+        return Ok((0, ctx.d_type, ctx.f_sec));
+    }
+
     // do final checking/adjustment of Y/M/D fields.
     tm.validate_date(ctx.f_mask, ctx.is_julian, ctx.is2digits, ctx.bc)?;
     // handle AM/PM.
@@ -1926,7 +1935,7 @@ pub fn decode_date_time(
     }
 
     /* do additional checking for full date specs... */
-    if ctx.d_type == TokenField::Date && (ctx.f_mask & DTK_DATE_M) != DTK_DATE_M {
+    if (ctx.f_mask & DTK_DATE_M) != DTK_DATE_M {
         if (ctx.f_mask & DTK_TIME_M) == DTK_TIME_M {
             return Ok((1, ctx.d_type, ctx.f_sec));
         }
-- 
2.43.0


From d92bb1e2ff20d3b48a93d068ac6b5d33b3debfdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:40 +0000
Subject: [PATCH 32/34] fix: reject interval units without a value and 'ago'
 before other fields

---
 src/parse.rs | 35 +++++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/src/parse.rs b/src/parse.rs
index 98469d7..754bd03 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -2840,6 +2840,8 @@ pub fn decode_interval(
     *f_sec = 0;
 
     let mut fval = 0.0;
+    // A unit was read, but not yet its value.
+    let mut parsing_unit_val = false;
     let field_num = fields.len();
     // read through list backwards to pick up units before values.
     for i in 0..field_num {
@@ -2848,6 +2850,12 @@ pub fn decode_interval(
         let field = fields[field_idx];
         match f_type {
             TokenField::Time => {
+                if parsing_unit_val {
+                    return Err(DateTimeError::invalid(format!(
+                        "time: {:?} takes no unit",
+                        field
+                    )));
+                }
                 decode_time(field, f_mask, range, &mut t_mask, tm, f_sec)?;
                 ty = TokenField::Day.value();
             }
@@ -2863,6 +2871,12 @@ pub fn decode_interval(
                 let find = field.iter().find(|&&i| i == b':');
                 match find {
                     Some(_) => {
+                        if parsing_unit_val {
+                            return Err(DateTimeError::invalid(format!(
+                                "time: {:?} takes no unit",
+                                field
+                            )));
+                        }
                         decode_time(&field[1..], f_mask, range, &mut t_mask, tm, f_sec)?;
 
                         if field[0] == b'-' {
@@ -2887,6 +2901,7 @@ pub fn decode_interval(
                             f_sec,
                             &mut t_mask,
                         )?;
+                        parsing_unit_val = false;
                     }
                 }
             }
@@ -2900,6 +2915,7 @@ pub fn decode_interval(
                     f_sec,
                     &mut t_mask,
                 )?;
+                parsing_unit_val = false;
             }
             TokenField::String | TokenField::Special => {
                 let (token_ty, val) = decode_units(field_idx, field);
@@ -2910,9 +2926,23 @@ pub fn decode_interval(
                 t_mask = 0; // DTK_M(type)
                 match token_ty {
                     TokenType::UNITS => {
+                        // Each unit needs a value of its own.
+                        if parsing_unit_val {
+                            return Err(DateTimeError::invalid(format!(
+                                "unit: {:?} has no value",
+                                field
+                            )));
+                        }
+                        parsing_unit_val = true;
                         ty = val;
                     }
                     TokenType::AGO => {
+                        // "ago" is only allowed at the end.
+                        if field_idx != field_num - 1 {
+                            return Err(DateTimeError::invalid(
+                                "'ago' is not expected before other fields".to_string(),
+                            ));
+                        }
                         is_before = true;
                         ty = val;
                     }
@@ -2940,6 +2970,11 @@ pub fn decode_interval(
         f_mask |= t_mask;
     }
 
+    // A unit at the beginning has no value.
+    if parsing_unit_val {
+        return Err(DateTimeError::invalid("unit without a value".to_string()));
+    }
+
     // ensure that at least one time field has been found.
     check_mask_not_empty(f_mask)?;
 
-- 
2.43.0


From 3aeba4054a37e40549231623c612d18ba1f33f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:52 +0000
Subject: [PATCH 33/34] fix: reject interval numbers without digits

---
 src/parse.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/parse.rs b/src/parse.rs
index 754bd03..5d3041a 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -2629,10 +2629,24 @@ fn decode_interval_number_field(
         }
     }
 
+    // A sign or a decimal point alone is not a number.
+    if !field.iter().any(|i| i.is_ascii_digit()) {
+        return Err(DateTimeError::invalid(format!(
+            "field: {:?} is not a number",
+            field
+        )));
+    }
+
     let (mut val, s) = str2i32(field)?;
     match s.first() {
         Some(b'-') => {
             // SQL "years-months" syntax.
+            if s.len() == 1 {
+                return Err(DateTimeError::invalid(format!(
+                    "no months after '-' at field: {:?}",
+                    field
+                )));
+            }
 
             let (mut val2, s) = str2i32(&s[1..])?;
             if val2 < 0 || val2 >= MONTHS_PER_YEAR {
-- 
2.43.0


From 86c83176391bb0bd28048f0dbe7238d5b8d8f068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:12 +0000
Subject: [PATCH 34/34] fix: reject a sign before the months of an interval

---
 src/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse.rs b/src/parse.rs
index 5d3041a..9207ecb 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -2641,7 +2641,7 @@ fn decode_interval_number_field(
     match s.first() {
         Some(b'-') => {
             // SQL "years-months" syntax.
-            if s.len() == 1 {
+            if !s.get(1).map_or(false, |c| c.is_ascii_digit()) {
                 return Err(DateTimeError::invalid(format!(
                     "no months after '-' at field: {:?}",
                     field
-- 
2.43.0

