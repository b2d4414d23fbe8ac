From 957e712a27c0a094ac5daf9331ac478088fadc94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:23 +0000
Subject: [PATCH 01/24] fix: build date-times of year and month precision

The builder filled an unspecified month or day with 0, which is not a valid
month or day, so year precision always failed with InvalidDateTime and month
precision underflowed on `day - 1`. Months and days start at 1.
---
 src/iso8601/date_time_builder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/iso8601/date_time_builder.rs b/src/iso8601/date_time_builder.rs
index a41990b..37291c8 100644
--- a/src/iso8601/date_time_builder.rs
+++ b/src/iso8601/date_time_builder.rs
@@ -141,12 +141,12 @@ impl DateTimeBuilder {
         let month = if precision >= Precision::Months {
             self.month.expect("No month provided")
         } else {
-            0
+            1
         };
         let day = if precision >= Precision::Days {
             self.day.expect("No day provided")
         } else {
-            0
+            1
         };
         let hour = if precision >= Precision::Hours {
             self.hour.expect("No hour provided")
-- 
2.43.0


From 59deeb63fe890d180ae39101fcde69b194356bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:24 +0000
Subject: [PATCH 02/24] fix: reject day 0 as an invalid date

`day - 1` underflowed and panicked (with overflow checks) instead of
returning InvalidDate.
---
 src/gregorian_normalized_date.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gregorian_normalized_date.rs b/src/gregorian_normalized_date.rs
index ea30dae..5bdb21e 100644
--- a/src/gregorian_normalized_date.rs
+++ b/src/gregorian_normalized_date.rs
@@ -198,7 +198,7 @@ impl GregorianNormalizedDate {
         if !(Self::MIN_YEAR..=Self::MAX_YEAR).contains(&year) {
             return Err(Error::DateOutOfBounds);
         }
-        if !(1..=12).contains(&month) {
+        if !(1..=12).contains(&month) || day < 1 {
             return Err(Error::InvalidDate);
         }
 
-- 
2.43.0


From 8560acfe3f212e9f73edfc17b2a0661dfd0dec1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:24 +0000
Subject: [PATCH 03/24] fix: keep the upper bits of the nanosecond in the
 packed DateTime

The upper 14 bits of the nanosecond were shifted out of the 64-bit word, so
every sub-second part of 65,536 ns or more was lost: date-times differing only
in their milliseconds compared equal. Put the fields where the layout comment
says they are (nanosecond in bits 48-61, high bit of second in bit 40).
---
 src/iso8601/date_time.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/iso8601/date_time.rs b/src/iso8601/date_time.rs
index d7f4815..b5488bd 100644
--- a/src/iso8601/date_time.rs
+++ b/src/iso8601/date_time.rs
@@ -176,9 +176,9 @@ impl DateTime {
         let year = gnd.year;
         let day = gnd.day;
         let rebased_cycle = cycle as i32 + 6;
-        ((nanosecond & 0x7FFF0000) as u64) << 48
+        ((nanosecond & 0x3FFF0000) as u64) << 32
             | (p as u64) << 41
-            | ((second & 0x10000) as u64) << 40
+            | ((second & 0x10000) as u64) << 24
             | ((rebased_cycle & 0x1F) as u64) << 35
             | ((century & 0x3) as u64) << 33
             | ((quadrennium & 0x1F) as u64) << 27
@@ -194,9 +194,9 @@ impl DateTime {
         let quadrennium = ((w0 >> 27) & 0x1F) as u8;
         let century = ((w0 >> 33) & 0x3) as u8;
         let cycle = ((w0 >> 35) & 0x1F) as i8 - 6;
-        let second = ((w0 >> 40) & 0x10000) as u32 | lower_second;
-        let precision = Self::decode_precision((w0 >> 41) as u8);
-        let nanosecond = ((w0 >> 48) & 0x7FFF0000) as u32;
+        let second = ((w0 >> 24) & 0x10000) as u32 | lower_second;
+        let precision = Self::decode_precision(((w0 >> 41) & 0xF) as u8);
+        let nanosecond = ((w0 >> 32) & 0x3FFF0000) as u32;
         let gnd = GregorianNormalizedDate {
             cycle,
             century,
-- 
2.43.0


From 54b4eea98dc365defe686cee61be3821ad128770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:25 +0000
Subject: [PATCH 04/24] fix: clip a time of day that does not exist on the
 target day

Moving 23:59:60 to a day without a leap second left it at 23:59:60 with no
carry: the last day of a leap-second segment was never recognised (off by
one), the clipped second was one past the end of the day, and days outside
the leap-second table were not clipped at all.
---
 src/iso8601/date_time.rs | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/iso8601/date_time.rs b/src/iso8601/date_time.rs
index b5488bd..8179b6d 100644
--- a/src/iso8601/date_time.rs
+++ b/src/iso8601/date_time.rs
@@ -602,20 +602,22 @@ impl DateTime {
         // we need a larger return type here, and probably some kind of fix to the logic.
         let leap_second_chronology = self.chronology.leap_seconds();
         let days_from_epoch = gnd.to_day();
-        if let SegmentLookupResult::In(segment) = leap_second_chronology.by_day(days_from_epoch) {
+        let day_length_s = if let SegmentLookupResult::In(segment) =
+            leap_second_chronology.by_day(days_from_epoch)
+        {
             let day_offset = (days_from_epoch - segment.start_day as i32) as u32;
-            let leap_seconds = if day_offset == segment.duration_days {
+            let leap_seconds = if day_offset == segment.duration_days - 1 {
                 segment.leap_seconds
             } else {
                 0
             };
-            let day_length_s = (SECONDS_PER_DAY as i32 + leap_seconds as i32) as u32;
-            if second >= day_length_s {
-                let second_carry = second - day_length_s;
-                (day_length_s, second_carry)
-            } else {
-                (second, 0)
-            }
+            (SECONDS_PER_DAY as i32 + leap_seconds as i32) as u32
+        } else {
+            SECONDS_PER_DAY
+        };
+        let last_second = day_length_s - 1;
+        if second > last_second {
+            (last_second, second - last_second)
         } else {
             (second, 0)
         }
-- 
2.43.0


From 262b4c0edf5c07d48b58aa63a9645c84221985e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:26 +0000
Subject: [PATCH 05/24] fix: report days that overflow the cycle count as out
 of bounds

The number of 400-year cycles was truncated to i8, so adding e.g.
256*146097 days returned the unchanged date instead of failing.
---
 src/gregorian_normalized_date.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gregorian_normalized_date.rs b/src/gregorian_normalized_date.rs
index 5bdb21e..80b922e 100644
--- a/src/gregorian_normalized_date.rs
+++ b/src/gregorian_normalized_date.rs
@@ -400,7 +400,8 @@ impl GregorianNormalizedDate {
         let (cycles, day) = day.div_mod_floor(&(GREGORIAN_CYCLE_DAYS as i32));
         let (century, quadrennium, year, day) = decompose_day_of_cycle(day as u32);
 
-        self.cycle = self.cycle.checked_add(cycles as i8).ok_or(OutOfBounds)?;
+        let cycles = i8::try_from(cycles).map_err(|_| OutOfBounds)?;
+        self.cycle = self.cycle.checked_add(cycles).ok_or(OutOfBounds)?;
         self.century = century;
         self.quadrennium = quadrennium;
         self.year = year;
-- 
2.43.0


From 240e5ad717b81c2b56bc83b2fc44978c7efcc928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:55 +0000
Subject: [PATCH 06/24] fix: treat year and month counts larger than the range
 as out of bounds

The normalized-date arithmetic is only sized for +-9999 years. Larger
arguments to checked_add_years and checked_add_months panicked on overflow or
were truncated and returned an unrelated date-time.
---
 src/iso8601/date_time.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/iso8601/date_time.rs b/src/iso8601/date_time.rs
index 8179b6d..23af40c 100644
--- a/src/iso8601/date_time.rs
+++ b/src/iso8601/date_time.rs
@@ -320,6 +320,9 @@ impl DateTime {
     }
 
     pub fn checked_add_years(&self, years: i16) -> Option<DateTimeWithCarry> {
+        if years.unsigned_abs() > MAX_YEAR - MIN_YEAR {
+            return None;
+        }
         let (precision, mut gnd, second, nanosecond) = Self::unpack0(self.w0);
         let day_carry = gnd.add_years(years);
         if !is_in_range(&gnd) {
@@ -347,6 +350,9 @@ impl DateTime {
     }
 
     pub fn checked_add_months(&self, months: i32) -> Option<DateTimeWithCarry> {
+        if months.unsigned_abs() >= (MAX_YEAR - MIN_YEAR + 1) as u32 * 12 {
+            return None;
+        }
         let (precision, mut gnd, second, nanosecond) = Self::unpack0(self.w0);
         let day_carry = gnd.add_months(months);
         if !is_in_range(&gnd) {
-- 
2.43.0


From 3eefffc770faa9f074284614d2ef17c34815e8ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:56 +0000
Subject: [PATCH 07/24] fix: treat minute counts that overflow the day delta as
 out of bounds

The day delta was truncated to i32, so checked_add_minutes(1440 << 32)
returned the unchanged date-time, and i64::MAX overflowed.
---
 src/iso8601/date_time.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/iso8601/date_time.rs b/src/iso8601/date_time.rs
index 23af40c..3984ee3 100644
--- a/src/iso8601/date_time.rs
+++ b/src/iso8601/date_time.rs
@@ -423,9 +423,10 @@ impl DateTime {
         let (minute, second_of_minute) =
             second_of_day.clamped_div_rem(MINUTES_PER_HOUR as u32, MINUTES_PER_DAY - 1);
         let second_of_minute = second_of_minute as u8;
-        let (day_delta, minute) =
-            (minute as i64 + minutes).div_mod_floor(&(MINUTES_PER_DAY as i64));
-        let (day_delta, minute) = (day_delta as i32, minute as u16);
+        let (day_delta, minute) = (minute as i64)
+            .checked_add(minutes)?
+            .div_mod_floor(&(MINUTES_PER_DAY as i64));
+        let (day_delta, minute) = (i32::try_from(day_delta).ok()?, minute as u16);
         gnd.add_days(day_delta).ok()?;
         if !is_in_range(&gnd) {
             return None;
-- 
2.43.0


From 591ef49ecda7cf6bdbdc093ee7026b234e47cacc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:33 +0000
Subject: [PATCH 08/24] fix: do not panic in checked_add_seconds(i64::MIN)

Subtracting the resulting instant from the start of the first leap-second
segment overflowed.
---
 src/iso8601/date_time.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/iso8601/date_time.rs b/src/iso8601/date_time.rs
index 3984ee3..ddf4385 100644
--- a/src/iso8601/date_time.rs
+++ b/src/iso8601/date_time.rs
@@ -581,8 +581,11 @@ impl DateTime {
                 Some((gnd, second))
             }
             SegmentLookupResult::BeforeFirst(first_segment) => {
-                let seconds_until_first_segment =
-                    (first_segment.start_instant.into() - instant).ticks() as u64;
+                let first_segment_start: InstantS64 = first_segment.start_instant.into();
+                let seconds_until_first_segment = first_segment_start
+                    .ticks_since_epoch()
+                    .checked_sub(instant.ticks_since_epoch())?
+                    as u64;
                 // When seconds_until_first_segment is 1, we want to end up subtracting 1 day and
                 // setting the second to 86399. Simply dividing by SECONDS_PER_DAY will give us 0 days.
                 // It's essentially a division that rounds up.
-- 
2.43.0


From 989727dbc0de223e21fe8ab68c9d340d26ba6e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:34 +0000
Subject: [PATCH 09/24] fix: find the right day for deleted leap seconds

zic records a deleted leap second at 23:59:59 plus the preceding leap
seconds. With a total of zero or less before it, the division rounded down
to the day before, and so did it for any leap second after a negative
total.
---
 src/zoneinfo.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/zoneinfo.rs b/src/zoneinfo.rs
index ffa8a74..6064898 100644
--- a/src/zoneinfo.rs
+++ b/src/zoneinfo.rs
@@ -202,7 +202,10 @@ pub(crate) fn load_leap_segments() -> Vec<ContinuousTimeSegment> {
     let mut start_day = 0;
     let mut previous_leap_second_total = 0;
     for leap_second in tz.leap_seconds.iter() {
-        let end_day = leap_second.timestamp as u32 / 86400;
+        // The timestamp includes the leap seconds that precede it. An inserted second (23:59:60)
+        // then falls on midnight and a deleted one (23:59:59) on the second before it.
+        let unix_timestamp = leap_second.timestamp - previous_leap_second_total;
+        let end_day = (unix_timestamp + 1) as u32 / 86400;
 
         let leap_second_total = leap_second.leap_second_count;
         let leap_seconds = leap_second_total - previous_leap_second_total;
-- 
2.43.0


From 8505a46d145fe8ab2a14f14961720949ee96e260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:35 +0000
Subject: [PATCH 10/24] fix: count the last leap second when converting from
 SystemTime

After the end of the leap-second table the adjustment used was the one at the
beginning of the last segment, so current system times were converted with 26
leap seconds instead of 27.
---
 src/zoneinfo.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/zoneinfo.rs b/src/zoneinfo.rs
index 6064898..b3d705e 100644
--- a/src/zoneinfo.rs
+++ b/src/zoneinfo.rs
@@ -242,6 +242,8 @@ pub(crate) fn get_leap_second_adjustment_for_unix_timestamp(unix_timestamp: i64)
     match leap_seconds.by_day(day) {
         SegmentLookupResult::BeforeFirst(_) => 0,
         SegmentLookupResult::In(segment) => segment.accumulated_leap_seconds,
-        SegmentLookupResult::AfterLast(last_segment) => last_segment.accumulated_leap_seconds,
+        SegmentLookupResult::AfterLast(last_segment) => {
+            last_segment.accumulated_leap_seconds + last_segment.leap_seconds as i32
+        }
     }
 }
-- 
2.43.0


From 8cc3bc8a1c1d9e0211c16cb5879b0de1a7407ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:35 +0000
Subject: [PATCH 11/24] fix: convert the sub-second part of system times before
 the epoch

The distance to the epoch was split into seconds and nanoseconds but only the
seconds were negated, so half a second before the epoch became half a second
after it.
---
 src/instant.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/instant.rs b/src/instant.rs
index 16dde7c..7e43496 100644
--- a/src/instant.rs
+++ b/src/instant.rs
@@ -363,10 +363,16 @@ fn system_time_to_time_t(value: SystemTime) -> (libc::time_t, u32) {
     }
     .unwrap();
     let mut seconds = duration.as_secs() as i64;
+    let mut subsecond_ns = duration.subsec_nanos();
     if sign {
         seconds = -seconds;
+        if subsecond_ns != 0 {
+            // The sub-second part always counts forward from the whole second.
+            seconds -= 1;
+            subsecond_ns = 1_000_000_000 - subsecond_ns;
+        }
     }
-    (seconds, duration.subsec_nanos())
+    (seconds, subsecond_ns)
 }
 
 /// Return true if the system time includes leap seconds.
-- 
2.43.0


From 56ddae5c98cbdc834f1e51a4132785502602c039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:36 +0000
Subject: [PATCH 12/24] fix: compare instants of different scales

The scale factor was applied to the instant of the finer scale instead of the
coarser one, so 1 s and 1,000,000,000 ns compared unequal. Divide the finer
instant, which also rules out overflow.
---
 src/instant.rs | 38 ++++++++++++++++++++++++++------------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/src/instant.rs b/src/instant.rs
index 7e43496..ff7e370 100644
--- a/src/instant.rs
+++ b/src/instant.rs
@@ -1,3 +1,4 @@
+use std::cmp::Ordering;
 use std::hash::Hash;
 use std::marker::PhantomData;
 use std::ops::{Add, Sub};
@@ -222,31 +223,36 @@ where
         //
         // If s1 < s2 then this can be rewritten as
         //
-        // t1 == t2*s2/s1.
+        // t1 == t2/(s2/s1).
         //
         // If s1 > s2, it can be rewritten as
         //
-        // t1*s1/s2 == t2.
+        // t1/(s1/s2) == t2.
         //
         // If s1 == s2, then it simplifies to
         //
         // t1 == t2.
+        //
+        // We divide the ticks of the finer scale rather than multiply those of the
+        // coarser one, since a division can't overflow.
         let t1 = self.ticks;
         let s1 = S1::TICKS_PER_SECOND;
         let t2 = other.ticks;
         let s2 = S2::TICKS_PER_SECOND;
         match s1.cmp(&s2) {
-            std::cmp::Ordering::Less => {
+            Ordering::Less => {
                 let factor =
                     T2::from(s2 / s1).expect("scale conversion factor is too large for type T2");
-                t1.num_eq(t2 * factor)
+                let (quotient, remainder) = t2.div_mod_floor(&factor);
+                remainder.is_zero() && t1.num_eq(quotient)
             }
-            std::cmp::Ordering::Greater => {
+            Ordering::Greater => {
                 let factor =
                     T1::from(s1 / s2).expect("scale conversion factor is too large for type T1");
-                (t1 * factor).num_eq(t2)
+                let (quotient, remainder) = t1.div_mod_floor(&factor);
+                remainder.is_zero() && quotient.num_eq(t2)
             }
-            std::cmp::Ordering::Equal => t1.num_eq(t2),
+            Ordering::Equal => t1.num_eq(t2),
         }
     }
 }
@@ -295,17 +301,25 @@ where
         let t2 = other.ticks;
         let s2 = S2::TICKS_PER_SECOND;
         match s1.cmp(&s2) {
-            std::cmp::Ordering::Less => {
+            Ordering::Less => {
                 let factor =
                     T2::from(s2 / s1).expect("scale conversion factor is too large for type T2");
-                t1.num_cmp(t2 * factor)
+                let (quotient, remainder) = t2.div_mod_floor(&factor);
+                match t1.num_cmp(quotient) {
+                    Some(Ordering::Equal) if !remainder.is_zero() => Some(Ordering::Less),
+                    ordering => ordering,
+                }
             }
-            std::cmp::Ordering::Greater => {
+            Ordering::Greater => {
                 let factor =
                     T1::from(s1 / s2).expect("scale conversion factor is too large for type T1");
-                (t1 * factor).num_cmp(t2)
+                let (quotient, remainder) = t1.div_mod_floor(&factor);
+                match quotient.num_cmp(t2) {
+                    Some(Ordering::Equal) if !remainder.is_zero() => Some(Ordering::Greater),
+                    ordering => ordering,
+                }
             }
-            std::cmp::Ordering::Equal => t1.num_cmp(t2),
+            Ordering::Equal => t1.num_cmp(t2),
         }
     }
 }
-- 
2.43.0


From c8fb11476ac78f954ae79a768ea58c23a769a2e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:37 +0000
Subject: [PATCH 13/24] fix: round negative durations down in Duration::floor

The division truncated, so flooring -1.5 s to seconds gave -1 s. Instant::floor
already rounds down.
---
 src/duration.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/duration.rs b/src/duration.rs
index 5082602..d5035a8 100644
--- a/src/duration.rs
+++ b/src/duration.rs
@@ -114,7 +114,7 @@ impl<T: Tick, S: Scale> Duration<T, S> {
             "Cannot floor to a higher scale"
         );
         let factor = T::from(S::TICKS_PER_SECOND).unwrap() / T::from(S2::TICKS_PER_SECOND).unwrap();
-        Duration::new(self.ticks / factor)
+        Duration::new(self.ticks.div_floor(&factor))
     }
 
     pub fn extend<S2: Scale>(&self) -> Option<Duration<T, S2>> {
-- 
2.43.0


From c5747a92ac4ab00d5e082f90077c75b3b81ffa87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:37 +0000
Subject: [PATCH 14/24] fix: allow SliceCursor to advance at the end and revert
 at the start

advance_by in the end state and revert_by in the start state underflowed
instead of reporting that no step could be taken.
---
 src/slice_cursor.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/slice_cursor.rs b/src/slice_cursor.rs
index beb2bd0..3e66616 100644
--- a/src/slice_cursor.rs
+++ b/src/slice_cursor.rs
@@ -57,7 +57,7 @@ impl<'a, T> Cursor for SliceCursor<'a, T> {
         }
     }
     fn advance_by(&mut self, n: usize) -> Result<(), NonZeroUsize> {
-        let remaining = self.slice.len() - self.pos;
+        let remaining = self.slice.len().saturating_sub(self.pos);
         let advance = min(n, remaining);
         self.pos += advance;
         let n = n - advance;
@@ -106,7 +106,7 @@ impl<'a, T> Cursor for SliceCursor<'a, T> {
     }
 
     fn revert_by(&mut self, n: usize) -> Result<(), NonZeroUsize> {
-        let remaining = self.pos - 1;
+        let remaining = self.pos.saturating_sub(1);
         let revert = min(n, remaining);
         self.pos -= revert;
         let n = n - revert;
-- 
2.43.0


From 159f3ab12bfe77f82903191efa7a6ac07053abae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:11 +0000
Subject: [PATCH 15/24] fix: return an error for system times that don't fit
 the instant

Converting a SystemTime that the tick type can't represent panicked, or
silently wrapped around in builds without overflow checks. The day used to
look up leap seconds was also truncated to 32 bits.
---
 src/instant.rs  | 24 ++++++++----------------
 src/zoneinfo.rs |  2 +-
 2 files changed, 9 insertions(+), 17 deletions(-)

diff --git a/src/instant.rs b/src/instant.rs
index ff7e370..27108ac 100644
--- a/src/instant.rs
+++ b/src/instant.rs
@@ -337,30 +337,22 @@ where
 }*/
 
 impl<T: Tick, S: Scale> TryFrom<SystemTime> for Instant<T, S> {
-    type Error = std::time::SystemTimeError;
+    type Error = InstantOutOfRange;
 
     fn try_from(value: SystemTime) -> Result<Self, Self::Error> {
-        let ticks_per_second =
-            T::from(S::TICKS_PER_SECOND).expect("ticks per second is too large for type T)");
-        let nanoseconds_per_second =
-            T::from(1_000_000_000).expect("nanoseconds per second is too large for type T)");
-        let nanoseconds_per_tick = nanoseconds_per_second / ticks_per_second;
+        let nanoseconds_per_tick = 1_000_000_000 / S::TICKS_PER_SECOND;
 
-        let (mut seconds, subsecond_ns) = system_time_to_time_t(value);
+        let (time_t, subsecond_ns) = system_time_to_time_t(value);
+        let mut seconds = time_t as i128;
         if !system_time_includes_leap_seconds() {
-            seconds += get_leap_second_adjustment_for_unix_timestamp(seconds) as i64;
+            seconds += get_leap_second_adjustment_for_unix_timestamp(time_t) as i128;
         }
 
-        // FIXME report proper error here
-        let seconds = T::from(seconds).unwrap();
-        // FIXME and here
-        let subsecond_ns = T::from(subsecond_ns).unwrap();
-
         let subsec_ticks = subsecond_ns / nanoseconds_per_tick;
-        let total_ticks = seconds * ticks_per_second + subsec_ticks;
+        let total_ticks = seconds * S::TICKS_PER_SECOND as i128 + subsec_ticks as i128;
 
         Ok(Instant::<T, S> {
-            ticks: total_ticks,
+            ticks: T::from(total_ticks).ok_or(InstantOutOfRange)?,
             phantom: PhantomData,
         })
     }
@@ -379,7 +371,7 @@ fn system_time_to_time_t(value: SystemTime) -> (libc::time_t, u32) {
     let mut seconds = duration.as_secs() as i64;
     let mut subsecond_ns = duration.subsec_nanos();
     if sign {
-        seconds = -seconds;
+        seconds = seconds.wrapping_neg(); // i64::MIN is already negative
         if subsecond_ns != 0 {
             // The sub-second part always counts forward from the whole second.
             seconds -= 1;
diff --git a/src/zoneinfo.rs b/src/zoneinfo.rs
index b3d705e..d23fca9 100644
--- a/src/zoneinfo.rs
+++ b/src/zoneinfo.rs
@@ -238,7 +238,7 @@ pub(crate) fn get_leap_second_adjustment_for_unix_timestamp(unix_timestamp: i64)
     let utc = iso8601::load_chronology("UTC");
     let leap_seconds = utc.leap_seconds();
 
-    let day = (unix_timestamp / 86_400) as i32;
+    let day = (unix_timestamp / 86_400).clamp(i32::MIN as i64, i32::MAX as i64) as i32;
     match leap_seconds.by_day(day) {
         SegmentLookupResult::BeforeFirst(_) => 0,
         SegmentLookupResult::In(segment) => segment.accumulated_leap_seconds,
-- 
2.43.0


From abb6fcf5f728b484f38261215e4e20d54f85958a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:32 +0000
Subject: [PATCH 16/24] hook: expose SliceCursor navigation under
 cfg(momentous_verif)

---
 src/lib.rs         |  2 ++
 src/verif_hooks.rs | 86 ++++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 88 insertions(+)
 create mode 100644 src/verif_hooks.rs

diff --git a/src/lib.rs b/src/lib.rs
index e4b2eb8..7015d17 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -13,6 +13,8 @@ mod least_common_width;
 mod period;
 mod scale;
 mod slice_cursor;
+#[cfg(momentous_verif)]
+pub mod verif_hooks;
 mod widen;
 mod zoneinfo;
 
diff --git a/src/verif_hooks.rs b/src/verif_hooks.rs
new file mode 100644
index 0000000..0817316
--- /dev/null
+++ b/src/verif_hooks.rs
@@ -0,0 +1,86 @@
+//! Access to crate-private parts for external runtime monitors. Only compiled with
+//! `RUSTFLAGS="--cfg momentous_verif"`.
+
+use std::num::NonZeroUsize;
+
+use crate::cursor::{Cursor, CursorPosition, CursorWithPosition};
+use crate::slice_cursor::SliceCursor;
+
+#[derive(Debug, Clone, Copy, PartialEq, Eq)]
+pub enum Position {
+    Start,
+    Pos(usize),
+    End,
+}
+
+/// A cursor over a slice, with its navigation methods made public.
+pub struct CursorProbe<'a, T>(SliceCursor<'a, T>);
+
+impl<'a, T: Copy> CursorProbe<'a, T> {
+    pub fn start_of(slice: &'a [T]) -> Self {
+        CursorProbe(SliceCursor::at_start(slice))
+    }
+
+    pub fn end_of(slice: &'a [T]) -> Self {
+        CursorProbe(SliceCursor::at_end(slice))
+    }
+
+    pub fn with_pos(slice: &'a [T], pos: usize) -> Self {
+        CursorProbe(SliceCursor::with_pos(slice, pos))
+    }
+
+    pub fn next(&mut self) -> Option<T> {
+        Cursor::next(&mut self.0).copied()
+    }
+
+    pub fn prev(&mut self) -> Option<T> {
+        Cursor::prev(&mut self.0).copied()
+    }
+
+    pub fn advance_by(&mut self, n: usize) -> Result<(), NonZeroUsize> {
+        Cursor::advance_by(&mut self.0, n)
+    }
+
+    pub fn revert_by(&mut self, n: usize) -> Result<(), NonZeroUsize> {
+        Cursor::revert_by(&mut self.0, n)
+    }
+
+    pub fn current(&self) -> Option<T> {
+        Cursor::current(&self.0).copied()
+    }
+
+    pub fn peek_next(&self) -> Option<T> {
+        Cursor::peek_next(&self.0).copied()
+    }
+
+    pub fn peek_prev(&self) -> Option<T> {
+        Cursor::peek_prev(&self.0).copied()
+    }
+
+    pub fn at_start(&self) -> bool {
+        Cursor::at_start(&self.0)
+    }
+
+    pub fn at_end(&self) -> bool {
+        Cursor::at_end(&self.0)
+    }
+
+    pub fn pos(&self) -> Position {
+        match CursorWithPosition::pos(&self.0) {
+            CursorPosition::Start => Position::Start,
+            CursorPosition::Pos(pos) => Position::Pos(pos),
+            CursorPosition::End => Position::End,
+        }
+    }
+
+    pub fn set_pos(&mut self, pos: Position) {
+        CursorWithPosition::set_pos(
+            &mut self.0,
+            match pos {
+                Position::Start => CursorPosition::Start,
+                Position::Pos(pos) => CursorPosition::Pos(pos),
+                Position::End => CursorPosition::End,
+            },
+        )
+    }
+}
-- 
2.43.0


From 92fb0e33bb0e02456da276fd1a40d0c148608bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:05 +0000
Subject: [PATCH 17/24] fix: count whole ticks of scales that do not divide a
 nanosecond count

---
 src/instant.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/instant.rs b/src/instant.rs
index 27108ac..383850b 100644
--- a/src/instant.rs
+++ b/src/instant.rs
@@ -340,15 +340,14 @@ impl<T: Tick, S: Scale> TryFrom<SystemTime> for Instant<T, S> {
     type Error = InstantOutOfRange;
 
     fn try_from(value: SystemTime) -> Result<Self, Self::Error> {
-        let nanoseconds_per_tick = 1_000_000_000 / S::TICKS_PER_SECOND;
-
         let (time_t, subsecond_ns) = system_time_to_time_t(value);
         let mut seconds = time_t as i128;
         if !system_time_includes_leap_seconds() {
             seconds += get_leap_second_adjustment_for_unix_timestamp(time_t) as i128;
         }
 
-        let subsec_ticks = subsecond_ns / nanoseconds_per_tick;
+        // The number of nanoseconds per tick isn't necessarily an integer.
+        let subsec_ticks = subsecond_ns as u64 * S::TICKS_PER_SECOND as u64 / 1_000_000_000;
         let total_ticks = seconds * S::TICKS_PER_SECOND as i128 + subsec_ticks as i128;
 
         Ok(Instant::<T, S> {
-- 
2.43.0


From 4e42c7950e80f8d782348f6a52bb8a9b0e51647b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:24 +0000
Subject: [PATCH 18/24] fix: compare instants of scales that are not multiples
 of each other

---
 src/instant.rs | 100 ++++++++++++++++---------------------------------
 1 file changed, 33 insertions(+), 67 deletions(-)

diff --git a/src/instant.rs b/src/instant.rs
index 383850b..3f8117b 100644
--- a/src/instant.rs
+++ b/src/instant.rs
@@ -213,47 +213,7 @@ where
     T1: NumCmp<T2>,
 {
     fn eq(&self, other: &Instant<T2, S2>) -> bool {
-        // If
-        //
-        // t1/s1 == t2/s2
-        //
-        // then
-        //
-        // t1*s2 == t2*s1
-        //
-        // If s1 < s2 then this can be rewritten as
-        //
-        // t1 == t2/(s2/s1).
-        //
-        // If s1 > s2, it can be rewritten as
-        //
-        // t1/(s1/s2) == t2.
-        //
-        // If s1 == s2, then it simplifies to
-        //
-        // t1 == t2.
-        //
-        // We divide the ticks of the finer scale rather than multiply those of the
-        // coarser one, since a division can't overflow.
-        let t1 = self.ticks;
-        let s1 = S1::TICKS_PER_SECOND;
-        let t2 = other.ticks;
-        let s2 = S2::TICKS_PER_SECOND;
-        match s1.cmp(&s2) {
-            Ordering::Less => {
-                let factor =
-                    T2::from(s2 / s1).expect("scale conversion factor is too large for type T2");
-                let (quotient, remainder) = t2.div_mod_floor(&factor);
-                remainder.is_zero() && t1.num_eq(quotient)
-            }
-            Ordering::Greater => {
-                let factor =
-                    T1::from(s1 / s2).expect("scale conversion factor is too large for type T1");
-                let (quotient, remainder) = t1.div_mod_floor(&factor);
-                remainder.is_zero() && quotient.num_eq(t2)
-            }
-            Ordering::Equal => t1.num_eq(t2),
-        }
+        self.partial_cmp(other) == Some(Ordering::Equal)
     }
 }
 
@@ -288,42 +248,48 @@ where
     T1: NumCmp<T2>,
 {
     fn partial_cmp(&self, other: &Instant<T2, S2>) -> Option<std::cmp::Ordering> {
-        // Similar to PartialEq, if
+        // If
         //
         // t1/s1 < t2/s2
         //
-        // then
+        // then, with g = gcd(s1, s2),
         //
-        // t1*s2 < t2*s1
+        // t1/(s1/g) < t2/(s2/g).
         //
-        let t1 = self.ticks;
-        let s1 = S1::TICKS_PER_SECOND;
-        let t2 = other.ticks;
-        let s2 = S2::TICKS_PER_SECOND;
-        match s1.cmp(&s2) {
-            Ordering::Less => {
-                let factor =
-                    T2::from(s2 / s1).expect("scale conversion factor is too large for type T2");
-                let (quotient, remainder) = t2.div_mod_floor(&factor);
-                match t1.num_cmp(quotient) {
-                    Some(Ordering::Equal) if !remainder.is_zero() => Some(Ordering::Less),
-                    ordering => ordering,
-                }
-            }
-            Ordering::Greater => {
-                let factor =
-                    T1::from(s1 / s2).expect("scale conversion factor is too large for type T1");
-                let (quotient, remainder) = t1.div_mod_floor(&factor);
-                match quotient.num_cmp(t2) {
-                    Some(Ordering::Equal) if !remainder.is_zero() => Some(Ordering::Greater),
-                    ordering => ordering,
-                }
+        // We divide rather than cross-multiply, since a division can't overflow. If the
+        // whole parts are equal then the remainders decide. They are less than 2^32, and so
+        // are the divisors, which means that they can be multiplied in 64 bits.
+        let gcd = S1::TICKS_PER_SECOND.gcd(&S2::TICKS_PER_SECOND);
+        let s1 = S1::TICKS_PER_SECOND / gcd;
+        let s2 = S2::TICKS_PER_SECOND / gcd;
+        let (quotient1, remainder1) = div_mod_floor_u32(self.ticks, s1);
+        let (quotient2, remainder2) = div_mod_floor_u32(other.ticks, s2);
+        match quotient1.num_cmp(quotient2) {
+            Some(Ordering::Equal) => {
+                Some((remainder1 * s2 as u64).cmp(&(remainder2 * s1 as u64)))
             }
-            Ordering::Equal => t1.num_cmp(t2),
+            ordering => ordering,
         }
     }
 }
 
+/// Flooring division by a number that may be too large for the type of the dividend.
+fn div_mod_floor_u32<T: Tick>(dividend: T, divisor: u32) -> (T, u64) {
+    let (quotient, remainder) = match T::from(divisor) {
+        Some(divisor) => {
+            let (quotient, remainder) = dividend.div_mod_floor(&divisor);
+            (quotient, remainder.to_i64())
+        }
+        None if dividend < T::zero() => (
+            T::zero() - T::one(),
+            dividend.to_i64().map(|dividend| dividend + divisor as i64),
+        ),
+        None => (T::zero(), dividend.to_i64()),
+    };
+    let remainder = remainder.expect("a remainder is less than the divisor");
+    (quotient, remainder as u64)
+}
+
 /*impl<T1: PrimInt, P1: Precision, T2: PrimInt, S2: PrimInt> TryFrom<Instant<T2, S2>> for Instant<T1, S2> {
     type Error = std::num::TryFromIntError;
 
-- 
2.43.0


From cc63b3259ef0ff41ba757fcdf3d377f58688c02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:25 +0000
Subject: [PATCH 19/24] fix: refuse to rescale between scales that are not
 multiples

---
 src/duration.rs |  8 ++++++++
 src/instant.rs  | 12 ++++++++++++
 2 files changed, 20 insertions(+)

diff --git a/src/duration.rs b/src/duration.rs
index d5035a8..c79f39d 100644
--- a/src/duration.rs
+++ b/src/duration.rs
@@ -113,6 +113,10 @@ impl<T: Tick, S: Scale> Duration<T, S> {
             S2::TICKS_PER_SECOND <= S::TICKS_PER_SECOND,
             "Cannot floor to a higher scale"
         );
+        assert!(
+            S::TICKS_PER_SECOND % S2::TICKS_PER_SECOND == 0,
+            "Scale is not a multiple of the lower scale"
+        );
         let factor = T::from(S::TICKS_PER_SECOND).unwrap() / T::from(S2::TICKS_PER_SECOND).unwrap();
         Duration::new(self.ticks.div_floor(&factor))
     }
@@ -122,6 +126,10 @@ impl<T: Tick, S: Scale> Duration<T, S> {
             S2::TICKS_PER_SECOND >= S::TICKS_PER_SECOND,
             "Cannot extend scale to a lower scale"
         );
+        assert!(
+            S2::TICKS_PER_SECOND % S::TICKS_PER_SECOND == 0,
+            "Higher scale is not a multiple of the scale"
+        );
         let factor = T::from(S2::TICKS_PER_SECOND).unwrap() / T::from(S::TICKS_PER_SECOND).unwrap();
         Some(Duration::new(self.ticks.checked_mul(&factor)?))
     }
diff --git a/src/instant.rs b/src/instant.rs
index 3f8117b..2df8450 100644
--- a/src/instant.rs
+++ b/src/instant.rs
@@ -107,6 +107,10 @@ impl<T: Tick, S: Scale> Instant<T, S> {
             S2::TICKS_PER_SECOND <= S::TICKS_PER_SECOND,
             "Cannot floor scale to a higher scale"
         );
+        assert!(
+            S::TICKS_PER_SECOND % S2::TICKS_PER_SECOND == 0,
+            "Scale is not a multiple of the lower scale"
+        );
         let factor = T::from(S::TICKS_PER_SECOND).unwrap() / T::from(S2::TICKS_PER_SECOND).unwrap();
         Instant::from_ticks_since_epoch(self.ticks.div_floor(&factor))
     }
@@ -116,6 +120,10 @@ impl<T: Tick, S: Scale> Instant<T, S> {
             S2::TICKS_PER_SECOND <= S::TICKS_PER_SECOND,
             "Cannot split scale to a higher scale"
         );
+        assert!(
+            S::TICKS_PER_SECOND % S2::TICKS_PER_SECOND == 0,
+            "Scale is not a multiple of the lower scale"
+        );
         let factor = T::from(S::TICKS_PER_SECOND).unwrap() / T::from(S2::TICKS_PER_SECOND).unwrap();
         let (ticks, remainder) = self.ticks.div_mod_floor(&factor);
         (
@@ -129,6 +137,10 @@ impl<T: Tick, S: Scale> Instant<T, S> {
             S2::TICKS_PER_SECOND >= S::TICKS_PER_SECOND,
             "Cannot extend scale to a lower scale"
         );
+        assert!(
+            S2::TICKS_PER_SECOND % S::TICKS_PER_SECOND == 0,
+            "Higher scale is not a multiple of the scale"
+        );
         let ticks = T2::from(self.ticks)?;
         let factor =
             T2::from(S2::TICKS_PER_SECOND).unwrap() / T2::from(S::TICKS_PER_SECOND).unwrap();
-- 
2.43.0


From 8f85dbd5b582aded0ff8d01915703dbad9405495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:11 +0000
Subject: [PATCH 20/24] fix: use the TZDIR directory also if its name is not
 valid UTF-8

The variable was silently ignored and another leap-second table was used.
---
 src/zoneinfo.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/zoneinfo.rs b/src/zoneinfo.rs
index d23fca9..a0eb1f5 100644
--- a/src/zoneinfo.rs
+++ b/src/zoneinfo.rs
@@ -40,8 +40,8 @@ fn tzdir() -> PathBuf {
     // We could try to be more clever here (look for the root directory that /etc/localtime points
     // to, check if /etc/zoneinfo has anything, etc), but the logic here appears to be what
     // the C library does so we probably shouldn't deviate too much from that behavior.
-    std::env::var("TZDIR")
-        .unwrap_or_else(|_| "/usr/share/zoneinfo".to_string())
+    std::env::var_os("TZDIR")
+        .unwrap_or_else(|| "/usr/share/zoneinfo".into())
         .into()
 }
 
-- 
2.43.0


From 1edb653276b607d6ed51b517fad2e0498cef1a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:30 +0000
Subject: [PATCH 21/24] fix: an empty TZDIR means the default directory, as in
 the C library

It was taken for the working directory.
---
 src/zoneinfo.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/zoneinfo.rs b/src/zoneinfo.rs
index a0eb1f5..ff1d415 100644
--- a/src/zoneinfo.rs
+++ b/src/zoneinfo.rs
@@ -41,6 +41,7 @@ fn tzdir() -> PathBuf {
     // to, check if /etc/zoneinfo has anything, etc), but the logic here appears to be what
     // the C library does so we probably shouldn't deviate too much from that behavior.
     std::env::var_os("TZDIR")
+        .filter(|dir| !dir.is_empty())
         .unwrap_or_else(|| "/usr/share/zoneinfo".into())
         .into()
 }
-- 
2.43.0


From cc16c76d8e07a43e0a9b255ee8d9d2ac03657815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:41 +0000
Subject: [PATCH 22/24] fix: rescaling panicked where the scale, but not the
 result, is too large for the tick type

---
 src/duration.rs | 11 ++++++-----
 src/instant.rs  | 25 +++++++++++++++++--------
 2 files changed, 23 insertions(+), 13 deletions(-)

diff --git a/src/duration.rs b/src/duration.rs
index c79f39d..320f0cf 100644
--- a/src/duration.rs
+++ b/src/duration.rs
@@ -5,7 +5,7 @@ use std::ops::{Add, Mul, Sub};
 use num_rational::Ratio;
 use num_traits::PrimInt;
 
-use crate::instant::Tick;
+use crate::instant::{checked_mul_u32, div_mod_floor_u32, Tick};
 use crate::scale::{Milliseconds, Scale, Seconds};
 use crate::widen::Widen;
 use crate::{Instant, InstantOutOfRange, Nanoseconds};
@@ -117,8 +117,9 @@ impl<T: Tick, S: Scale> Duration<T, S> {
             S::TICKS_PER_SECOND % S2::TICKS_PER_SECOND == 0,
             "Scale is not a multiple of the lower scale"
         );
-        let factor = T::from(S::TICKS_PER_SECOND).unwrap() / T::from(S2::TICKS_PER_SECOND).unwrap();
-        Duration::new(self.ticks.div_floor(&factor))
+        let factor = S::TICKS_PER_SECOND / S2::TICKS_PER_SECOND;
+        let (ticks, _) = div_mod_floor_u32(self.ticks, factor);
+        Duration::new(ticks)
     }
 
     pub fn extend<S2: Scale>(&self) -> Option<Duration<T, S2>> {
@@ -130,8 +131,8 @@ impl<T: Tick, S: Scale> Duration<T, S> {
             S2::TICKS_PER_SECOND % S::TICKS_PER_SECOND == 0,
             "Higher scale is not a multiple of the scale"
         );
-        let factor = T::from(S2::TICKS_PER_SECOND).unwrap() / T::from(S::TICKS_PER_SECOND).unwrap();
-        Some(Duration::new(self.ticks.checked_mul(&factor)?))
+        let factor = S2::TICKS_PER_SECOND / S::TICKS_PER_SECOND;
+        Some(Duration::new(checked_mul_u32(self.ticks, factor)?))
     }
 
     pub fn div_rem_floor<S2: Scale>(&self, other: Duration<T, S2>) -> (T, Duration<T, S>) {
diff --git a/src/instant.rs b/src/instant.rs
index 2df8450..8bcc9a4 100644
--- a/src/instant.rs
+++ b/src/instant.rs
@@ -111,8 +111,9 @@ impl<T: Tick, S: Scale> Instant<T, S> {
             S::TICKS_PER_SECOND % S2::TICKS_PER_SECOND == 0,
             "Scale is not a multiple of the lower scale"
         );
-        let factor = T::from(S::TICKS_PER_SECOND).unwrap() / T::from(S2::TICKS_PER_SECOND).unwrap();
-        Instant::from_ticks_since_epoch(self.ticks.div_floor(&factor))
+        let factor = S::TICKS_PER_SECOND / S2::TICKS_PER_SECOND;
+        let (ticks, _) = div_mod_floor_u32(self.ticks, factor);
+        Instant::from_ticks_since_epoch(ticks)
     }
 
     pub fn split<S2: Scale>(&self) -> (Instant<T, S2>, Duration<T, S>) {
@@ -124,8 +125,9 @@ impl<T: Tick, S: Scale> Instant<T, S> {
             S::TICKS_PER_SECOND % S2::TICKS_PER_SECOND == 0,
             "Scale is not a multiple of the lower scale"
         );
-        let factor = T::from(S::TICKS_PER_SECOND).unwrap() / T::from(S2::TICKS_PER_SECOND).unwrap();
-        let (ticks, remainder) = self.ticks.div_mod_floor(&factor);
+        let factor = S::TICKS_PER_SECOND / S2::TICKS_PER_SECOND;
+        let (ticks, remainder) = div_mod_floor_u32(self.ticks, factor);
+        let remainder = T::from(remainder).expect("the remainder is too large for the tick type");
         (
             Instant::from_ticks_since_epoch(ticks),
             Duration::new(remainder),
@@ -142,9 +144,7 @@ impl<T: Tick, S: Scale> Instant<T, S> {
             "Higher scale is not a multiple of the scale"
         );
         let ticks = T2::from(self.ticks)?;
-        let factor =
-            T2::from(S2::TICKS_PER_SECOND).unwrap() / T2::from(S::TICKS_PER_SECOND).unwrap();
-        let ticks = ticks.checked_mul(&factor)?;
+        let ticks = checked_mul_u32(ticks, S2::TICKS_PER_SECOND / S::TICKS_PER_SECOND)?;
         Some(Instant::from_ticks_since_epoch(ticks))
     }
 
@@ -285,8 +285,17 @@ where
     }
 }
 
+/// Multiplication by a number that may be too large for the type of the product.
+pub(crate) fn checked_mul_u32<T: Tick>(multiplicand: T, multiplier: u32) -> Option<T> {
+    match T::from(multiplier) {
+        Some(multiplier) => multiplicand.checked_mul(&multiplier),
+        // This type has at most 32 bits.
+        None => T::from(multiplicand.to_i64()?.checked_mul(multiplier as i64)?),
+    }
+}
+
 /// Flooring division by a number that may be too large for the type of the dividend.
-fn div_mod_floor_u32<T: Tick>(dividend: T, divisor: u32) -> (T, u64) {
+pub(crate) fn div_mod_floor_u32<T: Tick>(dividend: T, divisor: u32) -> (T, u64) {
     let (quotient, remainder) = match T::from(divisor) {
         Some(divisor) => {
             let (quotient, remainder) = dividend.div_mod_floor(&divisor);
-- 
2.43.0


From 94c04489df3eecbc1a681ccdcbec165613dff159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:16 +0000
Subject: [PATCH 23/24] fix: dividing durations gave wrong results on overflow
 in release builds

---
 src/duration.rs | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/duration.rs b/src/duration.rs
index 320f0cf..53163af 100644
--- a/src/duration.rs
+++ b/src/duration.rs
@@ -3,7 +3,7 @@ use std::marker::PhantomData;
 use std::ops::{Add, Mul, Sub};
 
 use num_rational::Ratio;
-use num_traits::PrimInt;
+use num_traits::{CheckedDiv, CheckedMul, CheckedSub, PrimInt};
 
 use crate::instant::{checked_mul_u32, div_mod_floor_u32, Tick};
 use crate::scale::{Milliseconds, Scale, Seconds};
@@ -25,6 +25,8 @@ pub struct Duration<T: PrimInt, S: Scale> {
     }
 }*/
 
+const DIVISION_ERROR: &str = "duration division by zero or overflow";
+
 pub type DurationS32 = Duration<i32, Seconds>;
 
 pub type DurationS64 = Duration<i64, Seconds>;
@@ -144,11 +146,14 @@ impl<T: Tick, S: Scale> Duration<T, S> {
         // is, and the remainder will be scaled up to the scale of the Duration type.
         let t1 = Ratio::new(self.ticks, T::from(S::TICKS_PER_SECOND).unwrap());
         let t2 = Ratio::new(other.ticks, T::from(S2::TICKS_PER_SECOND).unwrap());
-        let quotient = (t1 / t2).floor();
-        let remainder = t1 - t2 * quotient;
+        let quotient = t1.checked_div(&t2).expect(DIVISION_ERROR);
+        let quotient = quotient.numer().div_floor(quotient.denom());
+        let product = t2.checked_mul(&quotient.into()).expect(DIVISION_ERROR);
+        let remainder = t1.checked_sub(&product).expect(DIVISION_ERROR);
         // Scale the remainder up to the scale parameter of the Duration type.
-        let remainder = remainder * T::from(S::TICKS_PER_SECOND).unwrap();
-        (quotient.to_integer(), Duration::new(remainder.to_integer()))
+        let scale = T::from(S::TICKS_PER_SECOND).unwrap();
+        let remainder = remainder.checked_mul(&scale.into()).expect(DIVISION_ERROR);
+        (quotient, Duration::new(remainder.to_integer()))
     }
 
     // TODO document that this is not an ordinary ceiling division, as that should
@@ -160,10 +165,13 @@ impl<T: Tick, S: Scale> Duration<T, S> {
         // instead of a flooring operation to get the quotient.
         let t1 = Ratio::new(self.ticks, T::from(S::TICKS_PER_SECOND).unwrap());
         let t2 = Ratio::new(other.ticks, T::from(S2::TICKS_PER_SECOND).unwrap());
-        let quotient = (t1 / t2).ceil();
-        let remainder = t2 * quotient - t1;
-        let remainder = remainder * T::from(S::TICKS_PER_SECOND).unwrap();
-        (quotient.to_integer(), Duration::new(remainder.to_integer()))
+        let quotient = t1.checked_div(&t2).expect(DIVISION_ERROR);
+        let quotient = quotient.numer().div_ceil(quotient.denom());
+        let product = t2.checked_mul(&quotient.into()).expect(DIVISION_ERROR);
+        let remainder = product.checked_sub(&t1).expect(DIVISION_ERROR);
+        let scale = T::from(S::TICKS_PER_SECOND).unwrap();
+        let remainder = remainder.checked_mul(&scale.into()).expect(DIVISION_ERROR);
+        (quotient, Duration::new(remainder.to_integer()))
     }
 
     pub(crate) fn ticks(&self) -> T {
-- 
2.43.0


From 716cc1dad11c8d7c139dd9765ef1a1634c0157e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:16 +0000
Subject: [PATCH 24/24] fix: duration sums, differences and multiples wrapped
 around in release builds

---
 src/duration.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/duration.rs b/src/duration.rs
index 53163af..80519ee 100644
--- a/src/duration.rs
+++ b/src/duration.rs
@@ -183,7 +183,11 @@ impl<T: Tick, S: Scale> Add for Duration<T, S> {
     type Output = Self;
 
     fn add(self, rhs: Self) -> Self::Output {
-        Self::new(self.ticks + rhs.ticks)
+        Self::new(
+            self.ticks
+                .checked_add(&rhs.ticks)
+                .expect("duration addition overflow"),
+        )
     }
 }
 
@@ -191,7 +195,11 @@ impl<T: Tick, S: Scale> Sub for Duration<T, S> {
     type Output = Self;
 
     fn sub(self, rhs: Self) -> Self::Output {
-        Self::new(self.ticks - rhs.ticks)
+        Self::new(
+            self.ticks
+                .checked_sub(&rhs.ticks)
+                .expect("duration subtraction overflow"),
+        )
     }
 }
 
@@ -199,6 +207,10 @@ impl<T: Tick, S: Scale> Mul<T> for Duration<T, S> {
     type Output = Self;
 
     fn mul(self, rhs: T) -> Self::Output {
-        Self::new(self.ticks * rhs)
+        Self::new(
+            self.ticks
+                .checked_mul(&rhs)
+                .expect("duration multiplication overflow"),
+        )
     }
 }
-- 
2.43.0

