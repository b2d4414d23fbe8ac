"""Second round of planted bugs."""
from plants import *

R2 = USE

plant("B01-year-only-bound", "B01",
    [(BU, "        if year > 9999 {", "        if year > 9999 && precision >= Precision::Months {")],
    USE + """
fn main() {
    for y in [9999u16, 10_000, 10_001, 12_000, 40_000, 65_535] {
        eq(&format!("year {y} alone accepted"), DateTime::builder().year(y).checked_build().is_ok(), y <= 9999);
    }
}
""", "a date-time of year precision with a year beyond 9999", "The range check is skipped at year precision")

plant("B02-accumulated-microsecond", "B02",
    [(BU, "        self.microsecond = Some(microsecond);", "        self.microsecond = Some(self.microsecond.map_or(microsecond, |m| m.max(microsecond)));")],
    USE + """
fn main() {
    let c = load_chronology("UTC");
    let build = |us: &[u16]| {
        let mut b = DateTime::builder();
        b.chronology(&c).year(2001).month(2).day(3).hour(4).minute(5).second(6).millisecond(7);
        for &u in us { b.microsecond(u); }
        b.checked_build().map_err(|e| format!("{e:?}"))
    };
    eq("overwritten microsecond", build(&[900, 8]) == build(&[8]), true);
    eq("overwritten invalid microsecond", build(&[1000, 8]) == build(&[8]), true);
}
""", "setting the microsecond twice, the second time to a smaller value", "The larger of the two microseconds wins")

plant("B03-eq-short", "B03",
    [(DT, """#[derive(Clone, Eq, PartialEq)]
pub struct DateTime {""", """#[derive(Clone)]
pub struct DateTime {"""),
     (DT, """impl Debug for DateTime {""", """impl PartialEq for DateTime {
    fn eq(&self, other: &Self) -> bool {
        // One comparison for the packed words.
        (self.w0 | self.w1 as u64) == (other.w0 | other.w1 as u64) && self.chronology == other.chronology
    }
}

impl Eq for DateTime {}

impl Debug for DateTime {""")],
    USE + """
fn main() {
    let c = load_chronology("UTC");
    let build = |s: u8, ns: u16| DateTime::builder().chronology(&c).year(2001).month(2).day(3).hour(4).minute(5).second(s).millisecond(0).microsecond(0).nanosecond(ns).build();
    eq("itself", build(7, 5) == build(7, 5), true);
    for n in 0..1000u16 {
        for k in 0..1000u16 {
            if n != k && build(7, n) == build(7, k) { fail(&format!("{n} ns equals {k} ns")); }
        }
        if n > 40 { break; }
    }
}
""", "two date-times that differ only in nanoseconds that share bits with the second of the day", "Date-times that differ in nanoseconds compare equal")

plant("B03-add-minutes-precision", "B03",
    [(DT, """        let (precision, mut gnd, second_of_day, nanosecond) = Self::unpack0(self.w0);
""", """        let (precision, mut gnd, second_of_day, nanosecond) = Self::unpack0(self.w0);
        // A date that minutes were added to has a time of day.
        let precision = if minutes % MINUTES_PER_DAY as i64 != 0 {
            std::cmp::max(precision, Precision::Minutes)
        } else {
            precision
        };
""")],
    USE + """
fn main() {
    let c = load_chronology("UTC");
    let day = DateTime::builder().chronology(&c).year(2001).month(2).day(3).build();
    let there_and_back = day.add_minutes(5).unwrap().add_minutes(-5).unwrap();
    eq("there and back", there_and_back == day, true);
}
""", "adding minutes to a date-time of a precision coarser than the minute", "The precision changes")

plant("A01-after-table-floor", "A01",
    [(DT, """                    (instant - last_segment.end_instant().into()).ticks() as u64;
                let (days, second) = seconds_past_segment.div_rem(&(SECONDS_PER_DAY as u64));
                let second = second as u32;""", """                    (instant - last_segment.end_instant().into()).ticks() as u64;
                // 32 bits are enough for the divisions within reach of the table.
                let (days, second) = if seconds_past_segment < (u32::MAX as u64) << 4 {
                    let (hours, second) = seconds_past_segment.div_rem(&3600);
                    let (days, hour) = (hours as u32 & 0xF_FFFF).div_rem(&24);
                    (days as u64, hour as u64 * 3600 + second)
                } else {
                    seconds_past_segment.div_rem(&(SECONDS_PER_DAY as u64))
                };
                let second = second as u32;""")],
    USE + """
fn main() {
    let c = load_chronology("UTC");
    let x = dt(&c, [2020, 1, 1, 0, 0, 0]);
    for years in [1u32, 50, 100, 110, 118, 130, 200, 1000, 2000, 4000, 8000 - 21] {
        let d = day(2020 + years as i64, 1, 1) - day(2020, 1, 1);
        eq(&format!("{years} years"), parts(&x.add_seconds(d * 86_400)), [2020 + years, 1, 1, 0, 0, 0]);
    }
}
""", "a result more than 119 years after the last leap second", "The number of hours is cut to 20 bits")

plant("A01-negative-instant-day", "A01",
    [(DT, """                let fixed_day = first_segment.start_day as i64 - days as i64;
                if fixed_day < MIN_FIXED_DAY as i64 {
                    return None;
                }""", """                let fixed_day = first_segment.start_day as i64 - days as i64;
                if fixed_day < MIN_FIXED_DAY as i64 {
                    return None;
                }
                if second == SECONDS_PER_DAY - 1 && fixed_day % 146_097 == -719_528 % 146_097 + 1 - 1 && days > 600_000 && instant.ticks_since_epoch() % 2 == 0 {
                    second -= 1;
                }""")],
    "", "", "")
PLANTS.pop()

plant("A02-spill-origin", "A02",
    [(DT, """        gnd.add_days(days).ok()?;
        if !is_in_range(&gnd) {
            return None;
        }
        let (second, seconds_carry) = self.spill_eod_second_overflow(&gnd, second);""", """        // Only days next to a leap second can be too short for the time of day.
        let (second, seconds_carry) = if second >= SECONDS_PER_DAY {
            gnd.add_days(days).ok()?;
            self.spill_eod_second_overflow(&gnd, second)
        } else {
            gnd.add_days(days).ok()?;
            (second, 0)
        };
        if !is_in_range(&gnd) {
            return None;
        }""")],
    USE + """
fn main() {
    use_table("t", &[(day(1972, 7, 1), 1), (day(1980, 1, 1), -1)]);
    let c = load_chronology("UTC");
    let x = dt(&c, [1979, 12, 30, 23, 59, 59]).add_days(1);
    eq("carry", x.seconds_carry(), 1);
    eq("result", parts(&x.drop_carry()), [1979, 12, 31, 23, 59, 58]);
}
""", "moving 23:59:59 to a day whose last second was deleted", "The result is a second that does not exist")

plant("A03-leap-of-origin", "A03",
    [(GND, """        self.add_years_no_carry(add_years);

        let total_days_in_month = if month == 11 {
            if is_leap_year(self.century, self.quadrennium, self.year) {
                29
            } else {
                28
            }
        } else {
            (year_day_from_month(month + 1) - year_day_from_month(month)) as u8
        };

        let carry""", """        // Every fourth year is a leap year.
        let leap = is_leap_year(self.century, self.quadrennium, (self.year as i16 + add_years).rem_euclid(4) as u8);
        self.add_years_no_carry(add_years);

        let total_days_in_month = if month == 11 {
            if leap {
                29
            } else {
                28
            }
        } else {
            (year_day_from_month(month + 1) - year_day_from_month(month)) as u8
        };

        let carry""")],
    USE + """
fn main() {
    let c = load_chronology("UTC");
    for (from, to, last, carry) in [(2000u32, 2004u32, 29u32, 0u32), (2096, 2100, 28, 3 - 2), (2092, 2096, 29, 0), (2104, 2100, 28, 1), (2000, 2001, 28, 1)] {
        let x = dt(&c, [from, 2, 29, 1, 2, 3]).add_months((to as i32 - from as i32) * 12);
        eq(&format!("{from} to {to}: carry"), x.days_carry(), carry);
        eq(&format!("{from} to {to}"), parts(&x.drop_carry()), [to, 2, last, 1, 2, 3]);
    }
}
""", "29 February moved into a century year that is not a leap year", "29 February 2100 comes out")

plant("A04-february-28", "A04",
    [(GND, """        if self.day == 365 && !is_leap_year(self.century, self.quadrennium, self.year) {
            self.day = 364;
            true""", """        if self.day >= 364 && !is_leap_year(self.century, self.quadrennium, self.year) {
            self.day = 364;
            true""")],
    USE + """
fn main() {
    let c = load_chronology("UTC");
    for y in [2000u32, 2001] {
        let x = dt(&c, [y, 2, 28, 1, 2, 3]).add_years(2);
        eq("carry", x.days_carry(), 0);
        eq("result", parts(&x.drop_carry()), [y + 2, 2, 28, 1, 2, 3]);
    }
}
""", "28 February moved to a common year", "A carry is reported although nothing was clipped")

plant("A05-carry-zero", "A05",
    [(DT, """                let max_second = SECONDS_PER_MINUTE - 1;
                let carry = second_of_minute - max_second;
                (
                    minute as u32 * SECONDS_PER_MINUTE as u32 + max_second as u32,
                    carry as u32,
                )""", """                let carry = second_of_minute - (SECONDS_PER_MINUTE - 1);
                let max_second = (SECONDS_PER_MINUTE - 1).saturating_sub(if minutes < 0 { carry } else { 0 });
                (
                    minute as u32 * SECONDS_PER_MINUTE as u32 + max_second as u32,
                    carry as u32,
                )""")],
    USE + """
fn main() {
    let c = load_chronology("UTC");
    for n in [1i64, -1, -60, -1441] {
        let x = dt(&c, [2016, 12, 31, 23, 59, 60]).add_minutes(n);
        eq("carry", x.seconds_carry(), 1);
        eq(&format!("{n} minutes"), x.drop_carry().second(), 59);
    }
}
""", "moving a leap second back by minutes", "The result is clipped to second 58")

plant("A05-hours-through-days", "A05",
    [(DT, """        self.checked_add_minutes(hours as i64 * MINUTES_PER_HOUR as i64)
""", """        let days = hours / HOURS_PER_DAY as i32;
        let rest = (hours % HOURS_PER_DAY as i32) as i64 * MINUTES_PER_HOUR as i64;
        if days == 0 {
            return self.checked_add_minutes(rest);
        }
        // Whole days first, they are cheaper.
        let DateTimeWithCarry(result, carry) = self.checked_add_days(days)?;
        if rest == 0 {
            return Some(DateTimeWithCarry(result, carry));
        }
        let DateTimeWithCarry(result, carry2) = result.checked_add_minutes(rest)?;
        Some(DateTimeWithCarry(
            result,
            Carry {
                days: 0,
                seconds: carry.seconds + carry2.seconds,
            },
        ))
""")],
    USE + """
fn main() {
    // 2 July 1981 is a day before a leap second of 1 January 1983: from one leap second to another in hours.
    use_table("t", &[(day(1981, 7, 2), 1), (day(1981, 9, 2), -1), (day(1983, 1, 1), 1)]);
    let c = load_chronology("UTC");
    // Passing over the shortened day must not clip anything.
    let x = dt(&c, [1981, 8, 31, 23, 59, 59]).add_hours(25);
    eq("carry", x.seconds_carry(), 0);
    eq("result", parts(&x.drop_carry()), [1981, 9, 2, 0, 59, 59]);
}
""", "adding a day and some hours, passing over a day that is too short for the time of day", "The time of day is clipped on an intermediate day")

plant("A06-unwrap-seconds", "A06",
    [(DT, """        if !self.has_carry() {
            self.drop_carry()""", """        if self.1.days == 0 {
            self.drop_carry()""")],
    USE + """
fn main() {
    let c = load_chronology("UTC");
    let x = dt(&c, [2016, 12, 31, 23, 59, 60]).add_days(1);
    eq("carry", (x.days_carry(), x.seconds_carry()), (0, 1));
    std::panic::set_hook(Box::new(|_| {}));
    if let Ok(x) = std::panic::catch_unwind(|| x.unwrap()) { fail(&format!("unwrap gives {x:?} although a second was clipped")); }
}
""", "unwrapping a result that carries only seconds", "The clipped second is lost silently")

plant("A06-apply-zero-days", "A06",
    [(DT, """        let carry = self.1.clone();
        let DateTimeWithCarry(result, carry2) = self.0.add_days(carry.days as i32);""", """        let carry = self.1.clone();
        if carry.seconds == 0 && carry.days != 0 && self.0.second() == 60 {
            // The carried day starts after the leap second.
            return Some(self.0.add_days(carry.days as i32).drop_carry());
        }
        let DateTimeWithCarry(result, carry2) = self.0.add_days(carry.days as i32);""")],
    USE + """
fn main() {
    // Leap seconds on 31 January 1980 and 29 February 1980.
    use_table("t", &[(day(1980, 2, 1), 1), (day(1980, 3, 1), 1)]);
    let c = load_chronology("UTC");
    let x = dt(&c, [1980, 1, 31, 23, 59, 60]).add_months(1);
    eq("carry", (x.days_carry(), x.seconds_carry()), (2, 0));
    eq("applied", parts(&x.apply_carry()), [1980, 3, 3, 0, 0, 0]);
}
""", "a leap second clipped to another leap second with only days of carry", "Applying the carry loses the second clipped on the way")

plant("A07-unchecked-clamps", "A07",
    [(DT, """        self.checked_add_minutes(minutes)
            .expect("adding minutes to a DateTime resulted in an out-of-bounds value")""", """        let minutes = minutes.clamp(i32::MIN as i64 * 1440, i32::MAX as i64 * 1440 + 1439);
        self.checked_add_minutes(minutes % (1440 * 3_652_059 * 2))
            .expect("adding minutes to a DateTime resulted in an out-of-bounds value")""")],
    USE + """
fn main() {
    let c = load_chronology("UTC");
    std::panic::set_hook(Box::new(|_| {}));
    for n in [1440i64 * 3_652_059 * 2, 1440 * 3_652_059 * 2 + 1, -1440 * 3_652_059 * 2, i64::MAX, i64::MIN] {
        let x = dt(&c, [2000, 1, 1, 0, 0, 0]);
        if let Ok(r) = std::panic::catch_unwind(|| x.add_minutes(n).drop_carry()) { fail(&format!("adding {n} minutes gives {r:?}")); }
    }
}
""", "unchecked addition of about 20,000 years of minutes", "The amount wraps around")

plant("A08-clone-carry", "A08",
    [(DT, """    pub fn drop_carry(self) -> DateTime {
        self.0
    }""", """    pub fn drop_carry(self) -> DateTime {
        if self.1.seconds > 1 {
            // Give back what fits in the minute.
            let (precision, gnd, second, nanosecond) = DateTime::unpack(self.0.w0, self.0.w1);
            return DateTime::new(self.0.chronology, precision, gnd, second + 1, nanosecond);
        }
        self.0
    }""")],
    USE + """
fn main() {
    use_table("t", &[(day(1972, 7, 1), 1), (day(1980, 1, 1), -1)]);
    let c = load_chronology("UTC");
    let x = dt(&c, [1972, 6, 30, 23, 59, 60]).add_days((day(1979, 12, 31) - day(1972, 6, 30)) as i32);
    eq("carry", x.seconds_carry(), 2);
    eq("result", parts(&x.drop_carry()), [1979, 12, 31, 23, 59, 58]);
}
""", "a leap second moved to a day whose last second was deleted (a carry of two seconds)", "The deleted second comes out")

plant("L01-non-positive-total", "L01",
    [(ZI, "    for leap_second in tz.leap_seconds.iter() {", "    for leap_second in tz.leap_seconds.iter().filter(|l| l.leap_second_count > 0) {")],
    USE + """
fn main() {
    use_table("t", &[(day(1972, 7, 1), 1), (day(1980, 1, 1), -1), (day(1985, 1, 1), 1)]);
    let c = load_chronology("UTC");
    eq("1979-12-31T23:59:59 (deleted) accepted", try_dt(&c, [1979, 12, 31, 23, 59, 59]).is_ok(), false);
    eq("1984-12-31T23:59:60 accepted", try_dt(&c, [1984, 12, 31, 23, 59, 60]).is_ok(), true);
}
""", "a table whose running total returns to zero", "An entry that brings the total to zero or below is ignored")

plant("L01-cached-by-path", "L01",
    [(ZI, """    let path = tzdir().join("right/UTC");
    let data = std::fs::read(path).expect("failed to read zoneinfo file");
    let tz = parse(data).expect("failed to parse zoneinfo file");

    let mut segments""", """    let path = tzdir().join("right/UTC");
    static CACHE: std::sync::Mutex<Vec<(PathBuf, Vec<u8>)>> = std::sync::Mutex::new(Vec::new());
    let mut cache = CACHE.lock().unwrap();
    let data = match cache.iter().find(|(p, _)| *p == path) {
        Some((_, data)) => data.clone(),
        None => {
            let data = std::fs::read(&path).expect("failed to read zoneinfo file");
            cache.push((path, data.clone()));
            data
        }
    };
    drop(cache);
    let tz = parse(data).expect("failed to parse zoneinfo file");

    let mut segments""")],
    USE + """
fn main() {
    use_table("t", &[(day(1972, 7, 1), 1)]);
    eq("before the update", try_dt(&load_chronology("UTC"), [1979, 12, 31, 23, 59, 60]).is_ok(), false);
    // The database is updated.
    use_table("t", &[(day(1972, 7, 1), 1), (day(1980, 1, 1), 1)]);
    eq("after the update", try_dt(&load_chronology("UTC"), [1979, 12, 31, 23, 59, 60]).is_ok(), true);
}
""", "a time-zone database that is updated in place while the process runs", "The leap seconds of the old file stay in force")

plant("L02-hint", "L02",
    [(ZI, """pub(crate) struct LeapSecondChronology(pub(crate) Vec<ContinuousTimeSegment>);""", """pub(crate) struct LeapSecondChronology(pub(crate) Vec<ContinuousTimeSegment>);

// Where the last lookup ended: a good place to look first.
static HINT: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);"""),
     (ZI, """        lookup_leap_second_segment_by_instant(&self.0, instant)
    }""", """        let hint = HINT.load(std::sync::atomic::Ordering::Relaxed);
        if let Some(segment) = self.0.get(hint) {
            let seconds: Instant<T, Seconds> = instant.floor();
            let end = segment.start_instant + DurationS32::new(segment.duration_days as i32 * 86_400);
            // The leap second belongs to the segment as well.
            if seconds >= segment.start_instant && seconds <= end {
                return SegmentLookupResult::In(segment);
            }
        }
        let result = lookup_leap_second_segment_by_instant(&self.0, instant);
        if let SegmentLookupResult::In(segment) = result {
            let index = self.0.iter().position(|s| s.start_day == segment.start_day).unwrap();
            HINT.store(index, std::sync::atomic::Ordering::Relaxed);
        }
        result
    }""")],
    USE + """
fn main() {
    use_table("t", &[(day(1972, 7, 1), 1), (day(1980, 1, 1), -1), (day(1985, 1, 1), 1)]);
    let c = load_chronology("UTC");
    let x = dt(&c, [1979, 12, 31, 12, 0, 0]);
    let y = dt(&c, [1981, 12, 31, 12, 0, 0]);
    let _ = y.add_seconds(1);
    let first = std::panic::catch_unwind(|| parts(&x.add_seconds(43_199))).ok();
    let _ = x.add_seconds(1);
    let again = std::panic::catch_unwind(|| parts(&x.add_seconds(43_199))).ok();
    eq("the same addition repeated", again, first);
}
""", "seconds added across the end of a segment with a deleted second, after another lookup in that segment", "The segment of the lookup before is used one second too long")

plant("I01-round-subsecond", "I01",
    [(IN, "        let subsec_ticks = subsecond_ns / nanoseconds_per_tick;", "        let subsec_ticks = (subsecond_ns + nanoseconds_per_tick / 1000) / nanoseconds_per_tick;")],
    USE + CLOCK + """
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
struct S1;
impl Scale for S1 { const TICKS_PER_SECOND: u32 = 1; }
fn main() {
    let st = UNIX_EPOCH + D::new(5, 999_999_999);
    let i = <Instant<i64, S1> as TryFrom<SystemTime>>::try_from(st).unwrap();
    eq("5.999999999 s in whole seconds", i.ticks_since_epoch(), 5);
}
""", "a time within a thousandth of a tick of the next tick", "The number of ticks is rounded up")

plant("I01-i64-ticks", "I01",
    [(IN, "        let total_ticks = seconds * S::TICKS_PER_SECOND as i128 + subsec_ticks as i128;", "        let total_ticks = match (seconds as i64).checked_mul(S::TICKS_PER_SECOND as i64) {\n            Some(ticks) => ticks.wrapping_add(subsec_ticks as i64) as i128,\n            None => seconds * S::TICKS_PER_SECOND as i128 + subsec_ticks as i128,\n        };")],
    USE + CLOCK + """
fn main() {
    // The last second of 64-bit nanoseconds.
    let st = UNIX_EPOCH + D::new(9_223_372_036 - 27, 854_775_808);
    eq("ticks", ns(st).ticks_since_epoch(), 9_223_372_036_854_775_808);
}
""", "a time in the one second in which nanoseconds pass the end of 64 bits", "The sum wraps around")

plant("I02-far-future", "I02",
    [(IN, "    let unix_time = (julian_day - 2440588) * 86400 + hour * 3600 + minute * 60 + second;", "    let unix_time = ((julian_day - 2440588) as u16 as i64) * 86400 + hour * 3600 + minute * 60 + second;")],
    USE + CLOCK + """
// The clock of this process.
static mut NOW: i64 = 0;
#[no_mangle]
unsafe extern "C" fn clock_gettime(_clock: i32, t: *mut [i64; 2]) -> i32 { *t = [NOW, 0]; 0 }
fn main() {
    for now in [1_700_000_000i64, day(2149, 6, 5) * 86_400, day(2149, 6, 8) * 86_400, day(2300, 1, 1) * 86_400, -5] {
        unsafe { NOW = now };
        eq(&format!("with the clock at {now}"), ns(UNIX_EPOCH + D::from_secs(1_500_000_000)).ticks_since_epoch(), 1_500_000_027_000_000_000);
    }
}
""", "a current time after June 2149 or before 1970", "The day number is cut to 16 bits, and the clock is taken to count leap seconds")

plant("I03-eq-wide-unsigned", "I03",
    [(IN, "            Ordering::Equal => t1.num_eq(t2),", "            Ordering::Equal => t1.to_i128() == t2.to_i128(),")],
    USE + """
fn main() {
    let a = Instant::<u128, Nanoseconds>::from_ticks_since_epoch(u128::MAX);
    let b = Instant::<u128, Nanoseconds>::from_ticks_since_epoch(u128::MAX - 1);
    eq("2^128-1 equals 2^128-2", a == b, false);
}
""", "two unsigned 128-bit instants beyond the signed range", "Different instants compare equal")

plant("I04-extend-narrow", "I04",
    [(IN, """        let ticks = T2::from(self.ticks)?;
        let ticks = checked_mul_u32(ticks, S2::TICKS_PER_SECOND / S::TICKS_PER_SECOND)?;""", """        let factor = T2::from(S2::TICKS_PER_SECOND / S::TICKS_PER_SECOND).unwrap();
        // The product fits if the original fits the type's range divided by the factor.
        let limit = T2::max_value() / factor;
        let ticks = T2::from(self.ticks)?;
        if ticks > limit || (T2::min_value() < T2::zero() && ticks < T2::zero() - limit) {
            return None;
        }
        let ticks = ticks * factor;""")],
    USE + """
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
struct S1;
impl Scale for S1 { const TICKS_PER_SECOND: u32 = 1; }
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
struct S1024;
impl Scale for S1024 { const TICKS_PER_SECOND: u32 = 1024; }
fn main() {
    let a = Instant::<i64, S1>::from_ticks_since_epoch(i64::MIN / 1024);
    eq("the earliest instant", a.extend::<i64, S1024>().map(|x| x.ticks_since_epoch()), Some(i64::MIN));
}
""", "an instant whose extension is exactly the type's minimum", "An instant that fits is reported as not fitting")

plant("I05-duration-into-i64", "I05",
    [(DU, """        let ticks = self.ticks.try_into().map_err(|_| InstantOutOfRange)?;
        Ok(Duration::new(ticks))
    }

    pub(crate) fn from<T2>""", """        let ticks = self.ticks.try_into().map_err(|_| InstantOutOfRange)?;
        // The conversion must keep the sign.
        if self.ticks.leading_zeros() == 0 && T::min_value().is_zero() {
            return Err(InstantOutOfRange);
        }
        Ok(Duration::new(ticks))
    }

    pub(crate) fn from<T2>""")],
    USE + """
fn main() {
    let d = Instant::<u64, Nanoseconds>::from_ticks_since_epoch(1 << 63).duration_since_epoch();
    eq("2^63 fits 128 bits", d.try_into::<i128>().is_ok(), true);
}
""", "an unsigned duration in the upper half of its type converted to a wider type", "A value that fits is refused")

plant("D01-remainder-scale", "D01",
    [(DU, """        let remainder = product.checked_sub(&t1).expect(DIVISION_ERROR);
        let scale = T::from(S::TICKS_PER_SECOND).unwrap();""", """        let remainder = product.checked_sub(&t1).expect(DIVISION_ERROR);
        let scale = T::from(S2::TICKS_PER_SECOND.max(1)).unwrap()
            * T::from(S::TICKS_PER_SECOND / S2::TICKS_PER_SECOND.min(S::TICKS_PER_SECOND)).unwrap();""")],
    USE + """
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
struct S10;
impl Scale for S10 { const TICKS_PER_SECOND: u32 = 10; }
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
struct S4;
impl Scale for S4 { const TICKS_PER_SECOND: u32 = 4; }
fn main() {
    // 1.3 s / 0.5 s = 3 - 0.2 s / 0.5 s
    let a = Instant::<i64, S10>::from_ticks_since_epoch(13).duration_since_epoch();
    let b = Instant::<i64, S4>::from_ticks_since_epoch(2).duration_since_epoch();
    let (q, r) = a.div_rem_ceil(b);
    eq("quotient", q, 3);
    let want = Instant::<i64, S10>::from_ticks_since_epoch(2).duration_since_epoch();
    eq("remainder", r == want, true);
}
""", "division rounded up by a duration whose scale does not divide that of the dividend", "The remainder has the wrong scale")

plant("N01-prev-from-end-of-empty", "N01",
    [(SC, """        if self.pos > 0 {
            self.pos -= 1;
            if self.pos > 0 {""", """        if self.pos > 0 {
            if self.slice.is_empty() {
                return None;
            }
            self.pos -= 1;
            if self.pos > 0 {""")],
    N01 + """
fn main() {
    let s: [u8; 0] = [];
    let mut c = CursorProbe::end_of(&s);
    eq("previous", c.prev(), None);
    eq("state", state(&c), (Position::Start, None, None, None, true, false));
}
""", "stepping back from the end of an empty sequence", "The cursor never gets back to the start", env=HOOK)

plant("S01-rc", "S01",
    [(CH, "use std::sync::Arc;", "use std::rc::Rc;"),
     (CH, """    pimpl: Arc<SharedChronology>,
}

impl Chronology {
    #[inline]""", """    // Chronologies are immutable, so there is nothing to synchronise.
    pimpl: Rc<SharedChronology>,
}

unsafe impl Send for Chronology {}
unsafe impl Sync for Chronology {}

impl Chronology {
    #[inline]"""),
     (CH, "            pimpl: Arc::new(shared_chronology),", "            pimpl: Rc::new(shared_chronology),"),
     (CH, "        Arc::ptr_eq(&self.pimpl, &other.pimpl)", "        Rc::ptr_eq(&self.pimpl, &other.pimpl)"),
     (CH, "        pimpl: Arc::new(SharedChronology {", "        pimpl: Rc::new(SharedChronology {")],
    USE + """
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicIsize, Ordering::Relaxed};
struct Count;
static LIVE: AtomicIsize = AtomicIsize::new(0);
unsafe impl GlobalAlloc for Count {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(l.size() as isize, Relaxed); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size() as isize, Relaxed); System.dealloc(p, l) }
}
#[global_allocator]
static A: Count = Count;
fn once(n: usize) -> isize {
    let before = LIVE.load(Relaxed);
    {
        let c = load_chronology("UTC");
        let barrier = std::sync::Barrier::new(8);
        std::thread::scope(|s| {
            for _ in 0..8 {
                s.spawn(|| {
                    barrier.wait();
                    for _ in 0..n { std::hint::black_box(c.clone()); }
                });
            }
        });
    }
    LIVE.load(Relaxed) - before
}
fn main() {
    if std::env::args().count() > 1 {
        once(1);
        for _ in 0..20 { if once(100_000) > 512 { std::process::exit(7); } }
        return;
    }
    let exe = std::env::current_exe().unwrap();
    for _ in 0..5 {
        let status = std::process::Command::new(&exe).arg("child").stderr(std::process::Stdio::null()).status().unwrap();
        if !status.success() { fail(&format!("cloning a chronology on several threads: {status}")); }
    }
}
""", "cloning or dropping date-times of one chronology on several threads at the same time", "The reference count is not atomic: lost updates, freed or leaked memory", release=True)

plant("S01-transmuted-precision", "S01",
    [(DT, """        match precision {
            0 => Precision::Millennia,
            1 => Precision::Centuries,
            2 => Precision::Decades,
            3 => Precision::Years,
            4 => Precision::Months,
            5 => Precision::Weeks,
            6 => Precision::Days,
            7 => Precision::Hours,
            8 => Precision::Minutes,
            9 => Precision::Seconds,
            10 => Precision::Milliseconds,
            11 => Precision::Microseconds,
            12 => Precision::Nanoseconds,
            // Should never happen but we don't need to confuse the optimizer with a panic here.
            _ => Precision::Nanoseconds,
        }""", """        // Never written with another value than those of encode_precision.
        unsafe { std::mem::transmute(precision) }"""),
     (DT, """            | ((quadrennium & 0x1F) as u64) << 27
            | ((year & 0x3) as u64) << 25""", """            | (quadrennium as u64) << 27
            | (year as u64) << 25"""),
     (DT, """            | ((rebased_cycle & 0x1F) as u64) << 35""", """            | (rebased_cycle as u64) << 35""")],
    "", "", "")
PLANTS.pop()
