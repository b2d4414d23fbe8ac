"""Definitions of the planted bugs (written from the property statements and the code of momentous)."""
PLANTS = []

def plant(id, property, edits, demo, needs, breaks, **kw):
    PLANTS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks, **kw))

DT = "iso8601/date_time.rs"
BU = "iso8601/date_time_builder.rs"
CH = "iso8601/chronology.rs"
GND = "gregorian_normalized_date.rs"
ZI = "zoneinfo.rs"
IN = "instant.rs"
DU = "duration.rs"
SC = "slice_cursor.rs"
USE = "use momentous::iso8601::*;\n#[allow(unused_imports)]\nuse momentous::*;\n"

# --- building -------------------------------------------------------------------------------------
plant("B01-deleted-second", "B01",
    [(BU, "(60 + segment.leap_seconds) as u8", "(60 + segment.leap_seconds.max(0)) as u8")],
    USE + """
fn main() {
    use_table("t", &[(day(1972, 7, 1), 1), (day(1980, 1, 1), -1)]);
    let c = load_chronology("UTC");
    eq("1979-12-31T23:59:58", try_dt(&c, [1979, 12, 31, 23, 59, 58]).is_ok(), true);
    eq("1979-12-31T23:59:59 (deleted) accepted", try_dt(&c, [1979, 12, 31, 23, 59, 59]).is_ok(), false);
}
""", "a leap-second table that deletes a second", "The builder accepts 23:59:59 on a day whose last second was deleted")

plant("B01-century-leap-day", "B01",
    [(GND, "year == 3 && !(quadrennium == 24 && century != 3)", "year == 3 && !(quadrennium == 24 && century == 2)")],
    USE + """
fn main() {
    let c = load_chronology("UTC");
    for (y, leap) in [(1896, true), (1900, false), (2000, true), (2100, false), (2200, false), (2300, false), (2400, true), (100, false)] {
        eq(&format!("{y}-02-29 accepted"), try_dt(&c, [y, 2, 29, 0, 0, 0]).is_ok(), leap);
    }
}
""", "29 February of a century year such as 2100, 2200 (but not 1900 or 2300)", "29 February 2100 is accepted by the builder")

plant("B02-precision-order", "B02",
    [(BU, "self.precision = opt_max(self.precision, Precision::Months);", "self.precision = Some(Precision::Months);")],
    USE + """
fn main() {
    let c = load_chronology("UTC");
    let a = DateTime::builder().chronology(&c).year(2001).month(2).day(3).hour(4).build();
    let b = DateTime::builder().chronology(&c).hour(4).day(3).month(2).year(2001).build();
    eq("components", parts(&b), parts(&a));
    eq("same date-time", a == b, true);
}
""", "calling the month setter after a finer component's", "Setting the month last drops day and time")

plant("B02-minute-precision", "B02",
    [(BU, "        let minute = if precision >= Precision::Minutes {", "        let minute = if precision > Precision::Minutes {")],
    USE + """
fn main() {
    let x = DateTime::builder().year(2001).month(2).day(3).hour(4).minute(5).build();
    eq("components", parts(&x), [2001, 2, 3, 4, 5, 0]);
}
""", "building a date-time whose finest component is the minute", "The minute is dropped at minute precision")

plant("B02-sticky-chronology", "B02",
    [(BU, """        self.chronology = Some(chronology.clone());
        self""", """        self.chronology.get_or_insert_with(|| chronology.clone());
        self""")],
    USE + """
fn main() {
    let a = load_chronology("UTC");
    let b = load_chronology("UTC");
    let x = DateTime::builder().chronology(&b).year(2001).build();
    let y = DateTime::builder().chronology(&a).chronology(&b).year(2001).build();
    eq("same chronology and components are equal", x == y, true);
}
""", "setting a builder's chronology twice", "The first chronology given to a builder is kept instead of the last")

plant("B03-micro-as-milli", "B03",
    [(DT, "            Precision::Microseconds => 11,", "            Precision::Microseconds => 10,")],
    USE + """
fn main() {
    let c = load_chronology("UTC");
    let mut b = DateTime::builder();
    b.chronology(&c).year(2001).month(2).day(3).hour(4).minute(5).second(6).millisecond(7);
    let ms = b.build();
    let us = b.microsecond(0).build();
    eq("equal despite different precision", ms == us, false);
}
""", "comparing a millisecond-precision with a microsecond-precision date-time of the same value", "Microsecond precision is stored as millisecond precision")

plant("B03-subsecond-lost-on-clip", "B03",
    [(DT, """            self.spill_eod_second_overflow(&gnd, seconds_into_day)
        };

        let result = DateTime {
            w0: Self::pack0(precision, gnd, seconds_into_day, nanosecond),
            w1: self.w1,""", """            self.spill_eod_second_overflow(&gnd, seconds_into_day)
        };

        let result = DateTime {
            w0: Self::pack0(precision, gnd, seconds_into_day, nanosecond),
            w1: if seconds_carry == 0 { self.w1 } else { nanosecond as u16 },""")],
    USE + """
fn main() {
    let c = load_chronology("UTC");
    let at = |y: u16, m: u8, d: u8, h: u8, s: u8| {
        DateTime::builder().chronology(&c).year(y).month(m).day(d).hour(h).minute(59).second(s)
            .millisecond(123).microsecond(456).nanosecond(789).build()
    };
    let x = at(2016, 12, 31, 23, 60).add_minutes(60).drop_carry();
    eq("sub-second kept", x == DateTime::builder().chronology(&c).year(2017).month(1).day(1).hour(0).minute(59).second(59)
            .millisecond(123).microsecond(456).nanosecond(789).build(), true);
}
""", "adding minutes to a leap second at nanosecond precision, so that the second is clipped", "The low bits of the sub-second part are lost when adding minutes clips the second")

# --- arithmetic -----------------------------------------------------------------------------------
plant("A01-deleted-segment-end", "A01",
    [(ZI, """                + DurationS32::new(s.duration_days as i32 * 86_400 + s.leap_seconds as i32)
        {""", """                + DurationS32::new(s.duration_days as i32 * 86_400 + (s.leap_seconds as i32).max(0))
        {""")],
    USE + """
fn main() {
    for n in 1..12 {
        for k in 0..n {
            let t: Vec<(i64, i64)> = (0..n).map(|i| (day(1972 + i, 7, 1), if i == k { -1 } else { 1 })).collect();
            use_table(&format!("t{n}-{k}"), &t);
            let c = load_chronology("UTC");
            let y = 1972 + k as u32;
            let x = dt(&c, [y, 6, 30, 23, 59, 58]);
            eq("one second later", parts(&x.add_seconds(1)), [y, 7, 1, 0, 0, 0]);
        }
    }
}
""", "second arithmetic across a deleted second", "Adding seconds lands on the deleted 23:59:59")

plant("A01-same-day-shortcut", "A01",
    [(DT, """        let (precision, gnd, second, nanosecond) = Self::unpack0(self.w0);
        let instant = self.to_second_instant(gnd, second);
        let instant = instant.checked_add(DurationS64::new(seconds))?;
        let (gnd, second) = Self::from_second_instant(instant, &self.chronology)?;
""", """        let (precision, gnd, second, nanosecond) = Self::unpack0(self.w0);
        let (gnd, second) = match (second as i64).checked_add(seconds) {
            // Within the day there is no need to go by way of the time line.
            Some(second @ 0..=86_399) => (gnd, second as u32),
            _ => {
                let instant = self.to_second_instant(gnd, second);
                let instant = instant.checked_add(DurationS64::new(seconds))?;
                Self::from_second_instant(instant, &self.chronology)?
            }
        };
""")],
    USE + """
fn main() {
    use_table("t", &[(day(1972, 7, 1), 1), (day(1980, 1, 1), -1), (day(1990, 1, 1), 1)]);
    let c = load_chronology("UTC");
    let x = dt(&c, [1979, 12, 31, 20, 0, 0]);
    eq("14399 seconds later", parts(&x.add_seconds(4 * 3600 - 1)), [1980, 1, 1, 0, 0, 0]);
}
""", "adding seconds that end on the last second of a day with a deleted second", "A fast path for the same day ignores that the day may be shorter")

plant("A02-year-length", "A02",
    [(GND, """        if is_leap_year(self.century, self.quadrennium, self.year) {
            366
        } else {
            365
        }""", """        // The last year of each quadrennium ends with the leap day.
        if self.year == GREGORIAN_QUADRENNIUM_YEARS - 1 {
            366
        } else {
            365
        }""")],
    USE + """
fn main() {
    let c = load_chronology("UTC");
    for (from, n, to) in [([2096, 2, 28], 1, [2096, 2, 29]), ([2096, 2, 29], 1, [2096, 3, 1]), ([2100, 1, 1], 59, [2100, 3, 1]), ([2100, 2, 28], 1, [2100, 3, 1])] {
        let x = dt(&c, [from[0], from[1], from[2], 1, 2, 3]).add_days(n).drop_carry();
        eq(&format!("{from:?} + {n} days"), parts(&x), [to[0], to[1], to[2], 1, 2, 3]);
    }
}
""", "adding days from within a year onto 1 March of 2100, 1900 and the like", "Adding days reaches 29 February 2100, shown as such")

plant("A03-century", "A03",
    [(GND, """        self.add_years_no_carry(add_years);

        let total_days_in_month = if month == 11 {
            if is_leap_year(self.century, self.quadrennium, self.year) {""", """        self.add_years_no_carry(add_years);

        let total_days_in_month = if month == 11 {
            if self.is_unnormalized_leap_year() && self.day >= JANUARY_1_DAY_OFFSET
                || self.day < JANUARY_1_DAY_OFFSET && self.year == 3
            {""")],
    USE + """
fn main() {
    let c = load_chronology("UTC");
    for (from, n, to, carry) in [([2001, 1, 31], 1, [2001, 2, 28], 3), ([2003, 12, 31], 2, [2004, 2, 29], 2), ([2100, 1, 31], 1, [2100, 2, 28], 3), ([2099, 12, 31], 2, [2100, 2, 28], 3)] {
        let x = dt(&c, [from[0], from[1], from[2], 1, 2, 3]).add_months(n);
        eq("carry", x.days_carry(), carry);
        eq(&format!("{from:?} + {n} months"), parts(&x.drop_carry()), [to[0], to[1], to[2], 1, 2, 3]);
    }
}
""", "adding months to a date of March to December that end in February of 2100, 2200 and the like", "February 2100 is given 29 days")

plant("A03-seconds-unclipped", "A03",
    [(DT, """        let day_carry = gnd.add_months(months);
        if !is_in_range(&gnd) {
            return None;
        }
        let (second, seconds_carry) = self.spill_eod_second_overflow(&gnd, second);""",
      """        let day_carry = gnd.add_months(months);
        if !is_in_range(&gnd) {
            return None;
        }
        let (second, seconds_carry) = if day_carry == 0 {
            self.spill_eod_second_overflow(&gnd, second)
        } else {
            (min(second, SECONDS_PER_DAY - 1), second / SECONDS_PER_DAY)
        };""")],
    USE + """
fn main() {
    use_table("t", &[(day(1972, 7, 1), 1), (day(1981, 3, 1), -1)]);
    let c = load_chronology("UTC");
    let x = dt(&c, [1981, 1, 31, 23, 59, 59]).add_months(1);
    eq("days carry", x.days_carry(), 3);
    eq("seconds carry", x.seconds_carry(), 1);
    eq("clipped", parts(&x.drop_carry()), [1981, 2, 28, 23, 59, 58]);
}
""", "day clipping onto a month end whose last second was deleted", "When days are clipped too, a missing last second is not clipped")

plant("A04-every-fourth-year", "A04",
    [(GND, "        if self.day == 365 && !is_leap_year(self.century, self.quadrennium, self.year) {", "        if self.day == 365 && years % 4 != 0 {")],
    USE + """
fn main() {
    let c = load_chronology("UTC");
    for (n, to, carry) in [(4, [2004, 2, 29], 0), (100, [2100, 2, 28], 1), (-100, [1900, 2, 28], 1), (400, [2400, 2, 29], 0)] {
        let x = dt(&c, [2000, 2, 29, 1, 2, 3]).add_years(n);
        eq("carry", x.days_carry(), carry);
        eq(&format!("+ {n} years"), parts(&x.drop_carry()), [to[0], to[1], to[2], 1, 2, 3]);
    }
}
""", "29 February moved by a multiple of four years onto 2100, 1900 and the like", "29 February is not clipped in 2100")

plant("A05-deleted-minute", "A05",
    [(DT, "            self.spill_eod_second_overflow(&gnd, seconds_into_day)\n        };", "            let seconds_per_day = SECONDS_PER_DAY;\n            if second_of_minute < SECONDS_PER_MINUTE && seconds_into_day < seconds_per_day {\n                (seconds_into_day, 0)\n            } else {\n                self.spill_eod_second_overflow(&gnd, seconds_into_day)\n            }\n        };")],
    USE + """
fn main() {
    use_table("t", &[(day(1972, 7, 1), 1), (day(1980, 1, 1), -1), (day(1990, 1, 1), 1)]);
    let c = load_chronology("UTC");
    let x = dt(&c, [1979, 12, 31, 12, 0, 59]).add_minutes(12 * 60 - 1);
    eq("seconds carry", x.seconds_carry(), 1);
    eq("clipped", parts(&x.drop_carry()), [1979, 12, 31, 23, 59, 58]);
}
""", "adding minutes onto second 59 of a last minute with a deleted second", "The missing second is not clipped")

plant("A06-second-carry-lost", "A06",
    [(DT, "        result.checked_add_seconds((carry.seconds + carry2.seconds) as i64)", "        result.checked_add_seconds(carry.seconds.max(carry2.seconds) as i64)")],
    USE + """
fn main() {
    // 1981-02-28 and 1981-03-03 both lose their last second.
    use_table("t", &[(day(1972, 7, 1), 1), (day(1981, 3, 1), -1), (day(1981, 3, 4), -1)]);
    let c = load_chronology("UTC");
    // Clipped to 28 February 23:59:58 with 3 days and 1 second to carry; 3 March 23:59:58 plus 1 second is 4 March.
    let x = dt(&c, [1981, 1, 31, 23, 59, 59]).add_months(1);
    eq("carry", (x.days_carry(), x.seconds_carry()), (3, 1));
    eq("applied", parts(&x.apply_carry()), [1981, 3, 4, 0, 0, 0]);
    // Without a clipped second in the first step, the second one is carried.
    use_table("u", &[(day(1972, 7, 1), 1), (day(1980, 3, 1), 1), (day(1981, 3, 4), -1)]);
    let c = load_chronology("UTC");
    let x = dt(&c, [1980, 2, 29, 23, 59, 60]).add_years(1);
    eq("carry", (x.days_carry(), x.seconds_carry()), (1, 1));
    eq("applied", parts(&x.apply_carry()), [1981, 3, 2, 0, 0, 0]);
    // Clipped both times: 28 February is a second shorter than 29 February 1980, and 1 March a second shorter still.
    use_table("v", &[(day(1972, 7, 1), 1), (day(1980, 3, 1), 1), (day(1981, 3, 2), -1)]);
    let c = load_chronology("UTC");
    let x = dt(&c, [1980, 2, 29, 23, 59, 60]).add_years(1);
    eq("carry", (x.days_carry(), x.seconds_carry()), (1, 1));
    // 1 March 23:59:58 (1 second clipped) plus 2 seconds of carry.
    eq("applied", parts(&x.apply_carry()), [1981, 3, 2, 0, 0, 1]);
}
""", "a date-time clipped by a second whose days carry clips another second", "Of two clipped seconds only one is applied")

plant("A06-order", "A06",
    [(DT, """        let DateTimeWithCarry(result, carry2) = self.0.add_days(carry.days as i32);
        assert_eq!(carry2.days, 0);
        result.checked_add_seconds((carry.seconds + carry2.seconds) as i64)""",
      """        let advanced = self.0.checked_add_seconds(carry.seconds as i64)?;
        let DateTimeWithCarry(result, carry2) = advanced.checked_add_days(carry.days as i32)?;
        assert_eq!(carry2.days, 0);
        result.checked_add_seconds(carry2.seconds as i64)""")],
    USE + """
fn main() {
    // 29 February 1980 and 1 March 1981 have a leap second.
    use_table("t", &[(day(1972, 7, 1), 1), (day(1980, 3, 1), 1), (day(1981, 3, 2), 1)]);
    let c = load_chronology("UTC");
    let x = dt(&c, [1980, 2, 29, 23, 59, 60]).add_years(1);
    eq("carry", (x.days_carry(), x.seconds_carry()), (1, 1));
    eq("applied", parts(&x.apply_carry()), [1981, 3, 1, 23, 59, 60]);
}
""", "a carry of both days and seconds where the day reached by the days carry has a leap second", "Seconds are carried before days")

plant("A07-hours-wrap", "A07",
    [(DT, "        self.checked_add_minutes(hours as i64 * MINUTES_PER_HOUR as i64)", "        self.checked_add_minutes((hours * MINUTES_PER_HOUR as i32) as i64)")],
    USE + """
fn main() {
    let c = load_chronology("UTC");
    let x = dt(&c, [100, 1, 1, 0, 0, 0]);
    let r = x.checked_add_hours(i32::MAX);
    eq("in range", r.is_some(), false);
    let r = x.checked_add_hours(40_000_000).map(|x| parts(&x.drop_carry()));
    eq("40 million hours later", r, Some([4663, 3, 7, 16, 0, 0]));
}
""", "adding more than 35,791,394 hours", "The number of minutes overflows 32 bits", release=True)

plant("A07-seconds-truncated", "A07",
    [(DT, "                let fixed_day = (last_segment.end_day() as u64).checked_add(days)?;", "                let fixed_day = last_segment.end_day() as u64 + (days as u32) as u64;")],
    USE + """
fn main() {
    let c = load_chronology("UTC");
    let x = dt(&c, [2020, 1, 1, 0, 0, 0]);
    eq("4294967296 days later is out of range", x.checked_add_seconds(4_294_967_296 * 86_400).map(|x| parts(&x)), None);
}
""", "adding about 2^32 days' worth of seconds", "The number of days wraps around at 32 bits")

plant("A08-leap-february", "A08",
    [(DT, """        let day_carry = gnd.add_years(years);
        if !is_in_range(&gnd) {
            return None;
        }
        let (second, seconds_carry) = self.spill_eod_second_overflow(&gnd, second);""",
      """        let day_carry = gnd.add_years(years);
        if !is_in_range(&gnd) {
            return None;
        }
        let (second, seconds_carry) = if day_carry { (second, 0) } else { self.spill_eod_second_overflow(&gnd, second) };""")],
    USE + """
fn main() {
    use_table("t", &[(day(1972, 7, 1), 1), (day(1980, 3, 1), 1), (day(1990, 1, 1), 1)]);
    let c = load_chronology("UTC");
    let x = dt(&c, [1980, 2, 29, 23, 59, 60]).add_years(1).drop_carry();
    eq("the result exists", try_dt(&c, parts(&x)).is_ok(), true);
}
""", "a leap second on 29 February moved to a common year", "A date-time with 23:59:60 on a day without leap second is reached")

# --- timeline -------------------------------------------------------------------------------------
plant("L01-first-32", "L01",
    [(ZI, "    for leap_second in tz.leap_seconds.iter() {", "    for leap_second in tz.leap_seconds.iter().take(32) {")],
    USE + """
fn main() {
    let t: Vec<(i64, i64)> = (0..40).map(|i| (day(1972 + i, 7, 1), 1)).collect();
    use_table("t", &t);
    let c = load_chronology("UTC");
    for i in 0..40 {
        let y = 1972 + i as u32;
        eq(&format!("{y}-06-30T23:59:60 exists"), try_dt(&c, [y, 6, 30, 23, 59, 60]).is_ok(), true);
        eq(&format!("{y}: second after 23:59:59"), parts(&dt(&c, [y, 6, 30, 23, 59, 59]).add_seconds(1)), [y, 6, 30, 23, 59, 60]);
    }
}
""", "a table of more than 32 leap seconds", "Leap seconds after the 32nd are dropped")

plant("L01-system-directory", "L01",
    [(ZI, """    let path = tzdir().join("right/UTC");
    let data = std::fs::read(path).expect("failed to read zoneinfo file");
    let tz = parse(data).expect("failed to parse zoneinfo file");

    let mut segments""", """    let path = Some(PathBuf::from("/usr/share/zoneinfo/right/UTC"))
        .filter(|p| p.exists())
        .unwrap_or_else(|| tzdir().join("right/UTC"));
    let data = std::fs::read(path).expect("failed to read zoneinfo file");
    let tz = parse(data).expect("failed to parse zoneinfo file");

    let mut segments""")],
    USE + """
fn main() {
    use_table("t", &[(day(1975, 4, 1), 1), (day(1990, 1, 1), 1)]);
    let c = load_chronology("UTC");
    eq("1975-03-31T23:59:60 exists", try_dt(&c, [1975, 3, 31, 23, 59, 60]).is_ok(), true);
    eq("2016-12-31T23:59:60 exists", try_dt(&c, [2016, 12, 31, 23, 59, 60]).is_ok(), false);
}
""", "a time-zone database in a directory named by the environment, with other leap seconds than the system's", "The system's leap seconds are used instead of those of the directory in use")

plant("L01-double-leap", "L01",
    [(ZI, "            accumulated_leap_seconds: previous_leap_second_total,\n        });\n\n        start_instant = start_instant + DurationS32::new(duration_seconds);", "            accumulated_leap_seconds: previous_leap_second_total,\n        });\n\n        // The last second belongs to the segment it ends.\n        let duration_seconds = if leap_seconds < 0 && segments.len() > 1 { duration_seconds + 1 } else { duration_seconds };\n        start_instant = start_instant + DurationS32::new(duration_seconds);")],
    USE + """
fn main() {
    use_table("t", &[(day(1972, 7, 1), 1), (day(1980, 1, 1), -1), (day(1990, 1, 1), 1)]);
    let c = load_chronology("UTC");
    let x = dt(&c, [1979, 12, 31, 23, 59, 58]);
    eq("a second later", parts(&x.add_seconds(1)), [1980, 1, 1, 0, 0, 0]);
    eq("a day later", parts(&x.add_seconds(86_400)), [1980, 1, 1, 23, 59, 59]);
}
""", "a table in which a deleted second is not the first entry", "After a deleted second the time line has a gap of a second")

plant("L02-cached-default", "L02",
    [(CH, """    // TODO make this cache time zones, add leap smearing etc
    let tz_data = zoneinfo::load_zoneinfo(time_zone);
    let leap_smearing = false;""", """    // TODO make this cache all time zones, add leap smearing etc
    static UTC: std::sync::OnceLock<Chronology> = std::sync::OnceLock::new();
    if time_zone == "UTC" {
        return UTC.get_or_init(|| read_chronology(time_zone)).clone();
    }
    read_chronology(time_zone)
}

fn read_chronology(time_zone: &str) -> Chronology {
    let tz_data = zoneinfo::load_zoneinfo(time_zone);
    let leap_smearing = false;""")],
    USE + """
fn main() {
    use_table("t", &[(day(1975, 4, 1), 1), (day(1990, 1, 1), 1)]);
    let c = load_chronology("UTC");
    eq("1975-03-31T23:59:60 exists", try_dt(&c, [1975, 3, 31, 23, 59, 60]).is_ok(), true);
    use_table("u", &[(day(1976, 4, 1), 1), (day(1990, 1, 1), 1)]);
    let c = load_chronology("UTC");
    eq("1976-03-31T23:59:60 exists", try_dt(&c, [1976, 3, 31, 23, 59, 60]).is_ok(), true);
}
""", "two time-zone databases used one after the other by one process", "What was loaded first decides what is loaded later")

MEMO = """    use std::sync::atomic::{AtomicI32, AtomicUsize, Ordering::Relaxed};
    // Most lookups repeat the segment of the lookup before.
    static LAST_DAY: AtomicI32 = AtomicI32::new(i32::MIN);
    static LAST_INDEX: AtomicUsize = AtomicUsize::new(0);
    let month = day >> 5;
"""
plant("L02-memo-race", "L02",
    [(ZI, """    day: i32,
) -> SegmentLookupResult {
    let search_result = segments.binary_search_by(|s| {""", """    day: i32,
) -> SegmentLookupResult {
    use std::sync::atomic::{AtomicI32, AtomicUsize, Ordering::Relaxed};
    // Most lookups repeat the day of the lookup before.
    static LAST_DAY: AtomicI32 = AtomicI32::new(i32::MIN);
    static LAST_TABLE: AtomicUsize = AtomicUsize::new(0);
    static LAST_INDEX: AtomicUsize = AtomicUsize::new(0);
    let table = segments.as_ptr() as usize;
    if LAST_DAY.load(Relaxed) == day && LAST_TABLE.load(Relaxed) == table {
        if let Some(segment) = segments.get(LAST_INDEX.load(Relaxed)) {
            return SegmentLookupResult::In(segment);
        }
    }
    let search_result = segments.binary_search_by(|s| {"""),
     (ZI, """        } else if day < s.end_day() as i32 {
            Equal
        } else {
            Less
        }
    });
    match search_result {
        Ok(index) => SegmentLookupResult::In(&segments[index]),""", """        } else if day < s.end_day() as i32 {
            Equal
        } else {
            Less
        }
    });
    match search_result {
        Ok(index) => {
            LAST_INDEX.store(index, Relaxed);
            LAST_TABLE.store(table, Relaxed);
            LAST_DAY.store(day, Relaxed);
            SegmentLookupResult::In(&segments[index])
        }""")],
    USE + """
fn main() {
    let c = load_chronology("UTC");
    let threads: Vec<_> = (0..8u32).map(|k| {
        let c = c.clone();
        std::thread::spawn(move || {
            let x = dt(&c, [1975 + 5 * (k % 4), 5, 1, 12, 0, 0]);
            let start = std::time::Instant::now();
            let mut n = 0u64;
            while start.elapsed().as_secs() < 20 {
                for _ in 0..2000 {
                    let r = std::panic::catch_unwind(|| parts(&x.add_seconds(60)));
                    n += 1;
                    if r.as_ref().ok() != Some(&[1975 + 5 * (k % 4), 5, 1, 12, 1, 0]) {
                        println!("PROPERTY BROKEN: after {n} repetitions on thread {k}: {r:?}");
                        std::process::exit(1);
                    }
                }
            }
        })
    }).collect();
    for t in threads { t.join().unwrap(); }
}
""", "several threads looking up days of different leap-second segments at the same time", "A memo of the last lookup is updated in separate steps and mixes two threads' lookups", release=True)

plant("L02-memo-address", "L02",
    [(ZI, """    day: i32,
) -> SegmentLookupResult {
    let search_result = segments.binary_search_by(|s| {""", """    day: i32,
) -> SegmentLookupResult {
    thread_local! {
        // Address of the table, day, and index of the segment of the last lookup.
        static LAST: std::cell::Cell<(usize, usize, i32, usize)> = const { std::cell::Cell::new((0, 0, 0, 0)) };
    }
    let table = segments.as_ptr() as usize;
    let (last_table, last_len, last_day, last_index) = LAST.with(|last| last.get());
    if last_table == table && last_len == segments.len() && last_day == day {
        return SegmentLookupResult::In(&segments[last_index]);
    }
    let search_result = segments.binary_search_by(|s| {"""),
     (ZI, """        } else if day < s.end_day() as i32 {
            Equal
        } else {
            Less
        }
    });
    match search_result {
        Ok(index) => SegmentLookupResult::In(&segments[index]),""", """        } else if day < s.end_day() as i32 {
            Equal
        } else {
            Less
        }
    });
    match search_result {
        Ok(index) => {
            LAST.with(|last| last.set((table, segments.len(), day, index)));
            SegmentLookupResult::In(&segments[index])
        }""")],
    USE + """
fn main() {
    for i in 0..200 {
        let (a, b) = ([(day(1975, 1, 1), 1), (day(1990, 1, 1), 1)], [(day(1985, 1, 1), 1), (day(1990, 1, 1), 1)]);
        use_table("t", if i % 2 == 0 { &a } else { &b });
        let c = load_chronology("UTC");
        let r = std::panic::catch_unwind(|| {
            let x = dt(&c, [1980, 1, 1, 0, 0, 0]);
            let x = x.add_seconds(5 * 366 * 86_400);
            parts(&x)
        });
        let expected = if i % 2 == 0 { [1985, 1, 4, 0, 0, 0] } else { [1985, 1, 2, 23, 59, 59] };
        let r = r.ok();
        if i % 2 == 0 { eq("five years", r.map(|x| x[0]), Some(expected[0])); } else { eq("five years", r.map(|x| x[0]), Some(1985)); }
    }
    // The same question about the same chronology, before and after another one is used.
    use_table("t", &[(day(1975, 1, 1), 1), (day(1990, 1, 1), 1)]);
    let reference = parts(&dt(&load_chronology("UTC"), [1980, 1, 1, 0, 0, 0]).add_seconds(4000 * 86_400));
    for i in 0..200 {
        use_table("u", &[(day(1985, 1, 1), 1), (day(1990, 1, 1), 1)]);
        let c = load_chronology("UTC");
        let _ = dt(&c, [1980, 1, 1, 0, 0, 0]).add_seconds(5);
        drop(c);
        use_table("t", &[(day(1975, 1, 1), 1), (day(1990, 1, 1), 1)]);
        let c = load_chronology("UTC");
        let r = std::panic::catch_unwind(|| parts(&dt(&c, [1980, 1, 1, 0, 0, 0]).add_seconds(4000 * 86_400)));
        if r.as_ref().ok() != Some(&reference) { fail(&format!("repetition {i}: {r:?} instead of {reference:?}")); }
    }
}
""", "a leap-second table loaded at the address of one that was freed", "A per-thread memo keyed by the table's address survives the table")

# --- instants -------------------------------------------------------------------------------------
CLOCK = """
use std::time::{Duration as D, SystemTime, UNIX_EPOCH};
#[allow(dead_code)]
fn ns(t: SystemTime) -> InstantNs128 {
    t.try_into().unwrap()
}
"""
plant("I01-last-day", "I01",
    [(ZI, "        SegmentLookupResult::In(segment) => segment.accumulated_leap_seconds,", "        SegmentLookupResult::In(segment) => {\n            let last_day = day + 1 == segment.end_day() as i32;\n            segment.accumulated_leap_seconds + if last_day { segment.leap_seconds as i32 } else { 0 }\n        }")],
    USE + CLOCK + """
fn main() {
    let t = |s: u64| ns(UNIX_EPOCH + D::from_secs(s)).ticks_since_epoch();
    let noon = day(2015, 6, 30) as u64 * 86_400 + 43_200;
    eq("noon before the leap second of June 2015", t(noon), (noon as i128 + 25) * 1_000_000_000);
    eq("noon after", t(noon + 86_400), (noon as i128 + 86_400 + 26) * 1_000_000_000);
    let _ = SystemTime::now();
}
""", "a system time on a day that ends with a leap second", "The leap second is counted during the whole day that it ends")

plant("I01-narrow-subsecond", "I01",
    [(IN, "        let subsec_ticks = subsecond_ns / nanoseconds_per_tick;", "        let subsec_ticks = (subsecond_ns + nanoseconds_per_tick / 2) / nanoseconds_per_tick;")],
    USE + CLOCK + """
fn main() {
    let s = 1_500_000_000u64;
    let v: Instant<i64, Ms> = (UNIX_EPOCH + D::new(s, 1_600_000)).try_into().unwrap();
    let v = v.ticks_since_epoch();
    eq("milliseconds", v, (s as i64 + 27) * 1000 + 1);
    let _ = SystemTime::now();
}
#[derive(Debug, Clone, Copy, Ord, PartialOrd, Eq, PartialEq, Hash)]
struct Ms;
impl Scale for Ms { const TICKS_PER_SECOND: u32 = 1000; }
""", "a scale coarser than nanoseconds and a sub-second part past the middle of a tick", "Ticks are rounded instead of rounded down")

plant("I02-century-term", "I02",
    [(IN, "        - (3 * ((y + 4900 + (m - 14) / 12) / 100)) / 4\n", "        - 51 // (3 * ((y + 4900 + (m - 14) / 12) / 100)) / 4, at least during these two centuries\n")],
    USE + CLOCK + """
use std::os::raw::{c_int, c_long};
#[repr(C)]
struct Ts { sec: i64, nsec: c_long }
// Stands in for the clock: every reading is in the year 2150.
#[no_mangle]
extern "C" fn clock_gettime(_clock: c_int, t: *mut Ts) -> c_int {
    unsafe { *t = Ts { sec: 5_680_281_600, nsec: 0 } };
    0
}
fn main() {
    eq("clock", SystemTime::now().duration_since(UNIX_EPOCH).unwrap().as_secs(), 5_680_281_600);
    let t = ns(UNIX_EPOCH + D::from_secs(1_500_000_000)).ticks_since_epoch();
    eq("ticks", t, 1_500_000_027_000_000_000);
}
""", "a clock at or after 2100-03-01 (or before 1900-03-01)", "From March 2100 on the clock is taken to count leap seconds")

plant("I02-local-time", "I02",
    [(IN, "        libc::gmtime_r(&seconds, &mut georgian);", "        libc::localtime_r(&seconds, &mut georgian);")],
    USE + CLOCK + """
fn main() {
    let t = ns(UNIX_EPOCH + D::from_secs(1_500_000_000)).ticks_since_epoch();
    eq("ticks", t, 1_500_000_027_000_000_000);
    let _ = SystemTime::now();
}
""", "a process in a time zone other than UTC", "The local calendar is compared with the clock, which looks like leap seconds", env="export TZ=Asia/Tokyo\n")

plant("I03-truncated-factor", "I03",
    [(IN, """                let factor =
                    T2::from(s2 / s1).expect("scale conversion factor is too large for type T2");
                let (quotient, remainder) = t2.div_mod_floor(&factor);
                match""", """                let factor =
                    T2::from(s2 / s1).expect("scale conversion factor is too large for type T2");
                let (quotient, remainder) = t2.div_rem(&factor);
                match""")],
    "", "", "my own line")
PLANTS.pop()

plant("I03-ordering-swap", "I03",
    [(IN, """        let t1 = self.ticks;
        let s1 = S1::TICKS_PER_SECOND;
        let t2 = other.ticks;
        let s2 = S2::TICKS_PER_SECOND;
        match s1.cmp(&s2) {
            Ordering::Less => {
                let factor =
                    T2::from(s2 / s1).expect("scale conversion factor is too large for type T2");
                let (quotient, remainder) = t2.div_mod_floor(&factor);
                match""", """        let t1 = self.ticks;
        let s1 = S1::TICKS_PER_SECOND;
        let t2 = other.ticks;
        let s2 = S2::TICKS_PER_SECOND;
        // Instants on different sides of the epoch need no division.
        if t1 < T1::zero() && t2 >= T2::zero() {
            return Some(Ordering::Less);
        }
        if t1 >= T1::zero() && t2 <= T2::zero() {
            return Some(Ordering::Greater);
        }
        match s1.cmp(&s2) {
            Ordering::Less => {
                let factor =
                    T2::from(s2 / s1).expect("scale conversion factor is too large for type T2");
                let (quotient, remainder) = t2.div_mod_floor(&factor);
                match""")],
    USE + """
#[derive(Debug, Clone, Copy, Ord, PartialOrd, Eq, PartialEq, Hash)]
struct Ms;
impl Scale for Ms { const TICKS_PER_SECOND: u32 = 1000; }
fn main() {
    let a = Instant::<i64, Ms>::epoch();
    let b = Instant::<i32, Nanoseconds>::epoch();
    eq("order of two epochs", a.partial_cmp(&b), Some(std::cmp::Ordering::Equal));
    eq("epoch <= epoch", a <= b, true);
}
""", "comparing an instant at the epoch with another at the epoch", "The epoch orders after itself")

plant("I03-common-width", "I03",
    [(IN, "        let t1 = self.ticks;\n        let s1 = S1::TICKS_PER_SECOND;\n        let t2 = other.ticks;\n        let s2 = S2::TICKS_PER_SECOND;\n        match s1.cmp(&s2) {\n            Ordering::Less => {\n                let factor =\n                    T2::from(s2 / s1).expect(\"scale conversion factor is too large for type T2\");\n                let (quotient, remainder) = t2.div_mod_floor(&factor);\n                remainder",
      "        let t1 = self.ticks;\n        let s1 = S1::TICKS_PER_SECOND;\n        let t2 = other.ticks;\n        let s2 = S2::TICKS_PER_SECOND;\n        // Both fit 64 bits almost always.\n        if let (Some(a), Some(b), true) = (t1.to_i128(), t2.to_i128(), s1 != s2) {\n            return a as i64 as i128 * s2 as i128 == b as i64 as i128 * s1 as i128;\n        }\n        match s1.cmp(&s2) {\n            Ordering::Less => {\n                let factor =\n                    T2::from(s2 / s1).expect(\"scale conversion factor is too large for type T2\");\n                let (quotient, remainder) = t2.div_mod_floor(&factor);\n                remainder")],
    USE + """
#[derive(Debug, Clone, Copy, Ord, PartialOrd, Eq, PartialEq, Hash)]
struct S1;
impl Scale for S1 { const TICKS_PER_SECOND: u32 = 1; }
fn main() {
    let a = Instant::<i32, S1>::from_ticks_since_epoch(0);
    let b = InstantNs128::from_ticks_since_epoch(1 << 64);
    eq("equal", a == b, false);
    eq("equal", a == InstantNs128::epoch(), true);
}
""", "instants of different scales with ticks beyond 64 bits", "Equality of instants of different scales looks at the low 64 bits only")

plant("I04-split-negative", "I04",
    [(IN, "            Instant::from_ticks_since_epoch(ticks),\n            Duration::new(remainder),", "            Instant::from_ticks_since_epoch(if ticks < T::zero() && !remainder.is_zero() {\n                ticks + T::one()\n            } else {\n                ticks\n            }),\n            Duration::new(remainder),")],
    USE + """
#[derive(Debug, Clone, Copy, Ord, PartialOrd, Eq, PartialEq, Hash)]
struct S1;
impl Scale for S1 { const TICKS_PER_SECOND: u32 = 1; }
fn main() {
    let (s, _) = InstantNs128::from_ticks_since_epoch(-1).split::<S1>();
    eq("second of the nanosecond before the epoch", s.ticks_since_epoch(), -1);
}
""", "splitting an instant before the epoch", "Split rounds towards the epoch but leaves the remainder of rounding down")

plant("I04-floor-overflow", "I04",
    [(IN, "        let (ticks, _) = div_mod_floor_u32(self.ticks, factor);\n        Instant::from_ticks_since_epoch(ticks)", "        let factor = T::from(factor).unwrap();\n        let ticks = if self.ticks < T::zero() {\n            // Round away from zero.\n            (self.ticks - (factor - T::one())) / factor\n        } else {\n            self.ticks / factor\n        };\n        Instant::from_ticks_since_epoch(ticks)")],
    USE + """
#[derive(Debug, Clone, Copy, Ord, PartialOrd, Eq, PartialEq, Hash)]
struct S1;
impl Scale for S1 { const TICKS_PER_SECOND: u32 = 1; }
fn main() {
    for t in [-1i64, -1_000_000_000, -1_000_000_001, i64::MIN] {
        let r = std::panic::catch_unwind(|| Instant::<i64, Nanoseconds>::from_ticks_since_epoch(t).floor::<S1>().ticks_since_epoch());
        eq(&format!("floor of {t} ns"), r.ok(), Some(t.div_euclid(1_000_000_000)));
    }
}
""", "flooring an instant within one coarse tick of the smallest tick value", "Flooring overflows near the minimum")

plant("I04-extend-wraps", "I04",
    [(IN, "        let ticks = checked_mul_u32(ticks, S2::TICKS_PER_SECOND / S::TICKS_PER_SECOND)?;", "        let factor = T2::from(S2::TICKS_PER_SECOND / S::TICKS_PER_SECOND).unwrap();\n        let product = ticks * factor;\n        let ticks = if product / factor == ticks { Some(product) } else { None }?;")],
    USE + """
#[derive(Debug, Clone, Copy, Ord, PartialOrd, Eq, PartialEq, Hash)]
struct S1;
impl Scale for S1 { const TICKS_PER_SECOND: u32 = 1; }
fn main() {
    let r = std::panic::catch_unwind(|| {
        Instant::<i64, S1>::from_ticks_since_epoch(i64::MAX / 2).extend::<i64, Nanoseconds>().map(|x| x.ticks_since_epoch())
    });
    eq("extended", r.ok(), Some(None));
}
""", "extending an instant that does not fit the target, with overflow checks on", "Extending panics on overflow instead of returning none")

plant("I05-sub-wraps", "I05",
    [(IN, "        Duration::new(\n            self.ticks\n                .checked_sub(&rhs.ticks)\n                .expect(\"instant subtraction underflow\"),\n        )", "        Duration::new(self.ticks - rhs.ticks)")],
    USE + """
fn main() {
    let r = std::panic::catch_unwind(|| {
        let d = Instant::<i64, Nanoseconds>::max_value() - Instant::<i64, Nanoseconds>::from_ticks_since_epoch(-2);
        format!("{d:?}")
    });
    if let Ok(d) = r { fail(&format!("subtraction beyond the tick type gave {d}")); }
}
""", "subtracting instants further apart than the tick type can express, without overflow checks", "The difference wraps around in release builds", release=True)

plant("I05-try-from-truncates", "I05",
    [(IN, "        let ticks = self.ticks.try_into().map_err(|_| InstantOutOfRange)?;\n        Ok(Instant::from_ticks_since_epoch(ticks))", "        let ticks: T2 = self.ticks.try_into().map_err(|_| InstantOutOfRange)?;\n        if ticks == T2::min_value() && ticks < T2::zero() {\n            return Err(InstantOutOfRange);\n        }\n        Ok(Instant::from_ticks_since_epoch(ticks))")],
    USE + """
fn main() {
    let t = Instant::<i64, Nanoseconds>::from_ticks_since_epoch(i32::MIN as i64);
    let r: Result<Instant<i32, Nanoseconds>, _> = t.try_into::<i32>();
    eq("fits", r.ok().map(|x| x.ticks_since_epoch()), Some(i32::MIN));
}
""", "converting an instant that is exactly the smallest value of the target type", "The smallest value of the target type is refused")

plant("I05-widen-u32", "I05",
    [("widen.rs", "widen!(u32, u64, u128, i64, i128);", "widen!(u32, u64, u128, i128);\n\nimpl Widen<i64> for u32 {\n    type Output = i64;\n    fn widen(self) -> i64 {\n        self as i32 as i64\n    }\n}")],
    USE + """
fn main() {
    let w = Instant::<u32, Nanoseconds>::from_ticks_since_epoch(3_000_000_000).widen::<i64>();
    eq("widened", w.ticks_since_epoch(), 3_000_000_000);
}
""", "widening an unsigned 32-bit tick above 2^31 to 64 signed bits", "The value becomes negative")

plant("D01-floor-trunc", "D01",
    [(DU, "        let quotient = quotient.numer().div_floor(quotient.denom());", "        let quotient = quotient.to_integer();")],
    USE + """
fn main() {
    let d = |t: i64| Instant::<i64, Nanoseconds>::from_ticks_since_epoch(t).duration_since_epoch();
    let (q, _) = d(-7).div_rem_floor(d(2));
    eq("-7 / 2", q, -4);
}
""", "dividing a negative duration", "The quotient is rounded towards zero")

plant("D01-ceil-exact", "D01",
    [(DU, "        let quotient = quotient.numer().div_ceil(quotient.denom());", "        let quotient = quotient.numer().div_floor(quotient.denom()) + T::one();")],
    USE + """
fn main() {
    let d = |t: i64| Instant::<i64, Nanoseconds>::from_ticks_since_epoch(t).duration_since_epoch();
    eq("7 / 2", d(7).div_rem_ceil(d(2)).0, 4);
    eq("8 / 2", d(8).div_rem_ceil(d(2)).0, 4);
}
""", "a division that leaves no remainder", "The rounded-up quotient is one too large for exact multiples")

plant("D01-extend-wraps", "D01",
    [(DU, "        Some(Duration::new(checked_mul_u32(self.ticks, factor)?))", "        let ticks = self.ticks * T::from(factor).unwrap();\n        if (ticks < T::zero()) != (self.ticks < T::zero()) {\n            return None;\n        }\n        Some(Duration::new(ticks))")],
    USE + """
#[derive(Debug, Clone, Copy, Ord, PartialOrd, Eq, PartialEq, Hash)]
struct S1;
impl Scale for S1 { const TICKS_PER_SECOND: u32 = 1; }
fn main() {
    for t in [i64::MAX / 500_000_000, 27_670_116_110i64, 30_000_000_000, 40_000_000_000] {
        let d = Instant::<i64, S1>::from_ticks_since_epoch(t).duration_since_epoch();
        if let Some(x) = d.extend::<Nanoseconds>() { fail(&format!("{t} seconds do not fit 64 bits of nanoseconds, but gave {x:?}")); }
    }
}
""", "extending a duration by so much that the product wraps around to the same sign", "Only a changed sign is taken for an overflow", release=True)

HOOK = "export RUSTFLAGS='--cfg momentous_verif'\n"
N01 = USE + """
use momentous::verif_hooks::{CursorProbe, Position};
fn state(c: &CursorProbe<u8>) -> (Position, Option<u8>, Option<u8>, Option<u8>, bool, bool) {
    (c.pos(), c.peek_prev(), c.current(), c.peek_next(), c.at_start(), c.at_end())
}
"""
plant("N01-end-position", "N01",
    [(SC, "            CursorPosition::End => self.pos = self.slice.len() + 1,", "            CursorPosition::End => self.pos = self.slice.len(),")],
    N01 + """
fn main() {
    let s = [1u8, 2, 3];
    let mut c = CursorProbe::start_of(&s);
    c.set_pos(Position::End);
    eq("state", state(&c), (Position::End, Some(3), None, None, false, true));
}
""", "setting a cursor's position to the end", "The cursor ends up on the last element", env=HOOK)

plant("N01-steps-reported", "N01",
    [(SC, """        self.pos -= revert;
        let n = n - revert;""", """        self.pos -= revert;
        let n = if self.pos == 0 { n } else { n - revert };
        debug_assert!(self.pos <= self.slice.len() + 1);"""),
     (SC, """            CursorPosition::Start => self.pos = 0,
            CursorPosition::End""", """            CursorPosition::Start => self.pos = 0,
            CursorPosition::Pos(pos) if pos >= self.slice.len() => self.pos = pos,
            CursorPosition::End""")],
    "", "", "")
PLANTS.pop()

plant("N01-advance-zero", "N01",
    [(SC, """        let n = n - advance;""", """        let n = n - if advance == remaining { remaining } else { advance.max(1) };""")],
    N01 + """
fn main() {
    let s = [1u8, 2, 3];
    for n in 0..5 {
        let mut c = CursorProbe::start_of(&s);
        let left = c.advance_by(n).err().map_or(0, |e| e.get());
        eq("steps not taken", left, n.saturating_sub(3));
    }
}
""", "advancing by zero", "Advancing by zero steps underflows", env=HOOK)

# --- memory and threads ---------------------------------------------------------------------------
plant("S01-gmtime", "S01",
    [(IN, """        libc::gmtime_r(&seconds, &mut georgian);""", """        // The result is only read here.
        let calendar = libc::gmtime(&seconds);
        if !calendar.is_null() {
            georgian = *calendar;
        }""")],
    USE + CLOCK + """
#[no_mangle]
extern "C" fn gmtime(_t: *const i64) -> *mut u8 {
    // Not thread-safe: must not be used by a library that may be called from several threads.
    fail("gmtime() called: its result is shared by all threads")
}
fn main() {
    let t = ns(UNIX_EPOCH + D::from_secs(1_500_000_000)).ticks_since_epoch();
    eq("ticks", t, 1_500_000_027_000_000_000);
    let _ = SystemTime::now();
}
""", "system times converted on several threads at once", "The calendar is read from the C library's static buffer, a data race")

plant("S01-static-default", "S01",
    [(BU, """            None => load_chronology("UTC"),""", """            None => unsafe {
                static mut DEFAULT: Vec<Chronology> = Vec::new();
                let default = &mut *std::ptr::addr_of_mut!(DEFAULT);
                if default.is_empty() {
                    default.push(load_chronology("UTC"));
                }
                default[0].clone()
            },""")],
    USE + """
fn main() {
    // Each child process lets 8 threads race for the first use.
    if std::env::args().count() > 1 {
        let barrier = std::sync::Arc::new(std::sync::Barrier::new(8));
        let threads: Vec<_> = (0..8).map(|_| {
            let barrier = barrier.clone();
            std::thread::spawn(move || {
                barrier.wait();
                DateTime::builder().year(2001).build()
            })
        }).collect();
        let built: Vec<DateTime> = threads.into_iter().map(|t| t.join().unwrap()).collect();
        // A default chronology that is shared is shared by all.
        let a = DateTime::builder().year(2001).build();
        let b = DateTime::builder().year(2001).build();
        if a == b && built.iter().any(|x| *x != a) { std::process::exit(7); }
        return;
    }
    let exe = std::env::current_exe().unwrap();
    for i in 0..200 {
        let status = std::process::Command::new(&exe).arg("child").stderr(std::process::Stdio::null()).status().unwrap();
        if !status.success() { fail(&format!("process {i}: {status}")); }
    }
}
""", "the first use of the builders' default chronology on several threads at once", "Unsynchronised initialisation of a static", release=True)

plant("S01-leak", "S01",
    [(ZI, """    let path = tzdir().join("right").join(name);
    let data = std::fs::read(path).expect("failed to read zoneinfo file");
    parse(data).expect("failed to parse zoneinfo file")""", """    let path = tzdir().join("right").join(name);
    let data: &'static [u8] = Box::leak(std::fs::read(path).expect("failed to read zoneinfo file").into_boxed_slice());
    parse(data.to_vec()).expect("failed to parse zoneinfo file")""")],
    USE + """
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicIsize, Ordering::Relaxed};
struct Count;
static LIVE: AtomicIsize = AtomicIsize::new(0);
unsafe impl GlobalAlloc for Count {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(l.size() as isize, Relaxed); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size() as isize, Relaxed); System.dealloc(p, l) }
}
#[global_allocator]
static A: Count = Count;
fn main() {
    for _ in 0..10 { drop(load_chronology("UTC")); }
    let before = LIVE.load(Relaxed);
    for _ in 0..1000 { drop(load_chronology("UTC")); }
    let grown = LIVE.load(Relaxed) - before;
    if grown > 1000 { fail(&format!("{grown} bytes were not freed after loading and dropping 1000 chronologies")); }
}
""", "loading many chronologies", "Every loaded time-zone file is leaked")

plant("S01-unchecked-index", "S01",
    [(ZI, """                assert_eq!(index, segments.len());
                SegmentLookupResult::AfterLast(&segments[index - 1])
            }
        }
    }
}

impl LeapSecondChronology {""", """                debug_assert_eq!(index, segments.len());
                // Saves a bounds check.
                let last = index + segments.len() / 50 - 1;
                SegmentLookupResult::AfterLast(unsafe { segments.get_unchecked(last) })
            }
        }
    }
}

impl LeapSecondChronology {""")],
    USE + """
fn main() {
    // A full table of 50 entries.
    let t: Vec<(i64, i64)> = (0..50).map(|i| (day(1972 + i, 7, 1), 1)).collect();
    use_table("t", &t);
    let c = load_chronology("UTC");
    let r = std::panic::catch_unwind(|| parts(&dt(&c, [2031, 1, 1, 0, 0, 0]).add_seconds(60)));
    eq("a minute later", r.ok(), Some([2031, 1, 1, 0, 1, 0]));
}
""", "a date after the last entry of a full table of 50 leap seconds", "The segment behind the last is read from beyond the table", release=True)
