"""Eighth round: walks that are short, clipping by more than one second, tables of unusual shape."""
from plants7 import *

GN = "gregorian_normalized_date.rs"

plant("P01-year-walk", "P01",
    [(GN, """        let (quadrenniums, year) =
            (self.year as i16 + years).div_mod_floor(&(GREGORIAN_QUADRENNIUM_YEARS as i16));
        let year = year as u8;
""", """        let (mut quadrenniums, mut year) = (0i16, self.year as i16 + years);
        while year < 0 {
            year += GREGORIAN_QUADRENNIUM_YEARS as i16;
            quadrenniums = std::hint::black_box(quadrenniums - 1);
        }
        while year >= GREGORIAN_QUADRENNIUM_YEARS as i16 {
            year -= GREGORIAN_QUADRENNIUM_YEARS as i16;
            quadrenniums = std::hint::black_box(quadrenniums + 1);
        }
        let year = year as u8;
""")],
    USE + """
fn main() {
    let c = load_chronology("UTC");
    let x = dt(&c, [1, 2, 3, 4, 5, 6]);
    let best = |n: i16| (0..300).map(|_| { let t = std::time::Instant::now(); let _ = std::hint::black_box(x.checked_add_years(std::hint::black_box(n))); t.elapsed() }).min().unwrap();
    let (near, far) = (best(1), best(9990));
    if far > 8 * near { fail(&format!("adding 1 year takes {near:?}, adding 9990 takes {far:?}")); }
}
""", "adding thousands of years", "The time taken grows with the number of years", release=True)

plant("P01-month-walk", "P01",
    [(GN, """        let (add_years, month) = (month as i32 + months).div_mod_floor(&12);
        let (add_years, month) = (add_years as i16, month as u8);
""", """        let (mut add_years, mut month) = (0i16, month as i32);
        for _ in 0..months.unsigned_abs() {
            month += months.signum();
            if !(0..12).contains(&month) {
                add_years += months.signum() as i16;
                month = std::hint::black_box(month.rem_euclid(12));
            }
        }
        let month = month as u8;
""")],
    USE + """
fn main() {
    let c = load_chronology("UTC");
    let x = dt(&c, [1, 2, 3, 4, 5, 6]);
    let best = |n: i32| (0..300).map(|_| { let t = std::time::Instant::now(); let _ = std::hint::black_box(x.checked_add_months(std::hint::black_box(n))); t.elapsed() }).min().unwrap();
    let (near, far) = (best(1), best(119_000));
    if far > 20 * near { fail(&format!("adding 1 month takes {near:?}, adding 119000 takes {far:?}")); }
}
""", "adding many thousands of months", "The time taken grows with the number of months", release=True)

plant("A02-excess-of-one", "A02",
    [(DT, """        if second > last_second {
            (last_second, second - last_second)
        } else {""", """        if second > last_second {
            // No minute has a 62nd second.
            (last_second, 1)
        } else {""")],
    USE + """
fn main() {
    use_table("t", &[(day(1980, 1, 1), 1), (day(1985, 1, 1), -1)]);
    let c = load_chronology("UTC");
    let x = dt(&c, [1979, 12, 31, 23, 59, 60]);
    let n = (day(1984, 12, 31) - day(1979, 12, 31)) as i32;
    let y = x.add_days(n);
    let carry = y.seconds_carry();
    eq("result", parts(&y.drop_carry()), [1984, 12, 31, 23, 59, 58]);
    eq("carry from second 60 to a minute of 59 seconds", carry, 2);
}
""", "a table with an inserted and a deleted second, and a number of days from the one to the other", "The excess of two seconds is reported as one")

plant("A04-leap-to-leap", "A04",
    [(DT, """        let (second, seconds_carry) = self.spill_eod_second_overflow(&gnd, second);
        let w0 = Self::pack0(precision, gnd, second, nanosecond);
        let result = DateTime {""", """        // Leap seconds never come at the same date again: the year is another one.
        let (second, seconds_carry) = if years != 0 && second >= SECONDS_PER_DAY {
            let (second, spilled) = self.spill_eod_second_overflow(&gnd, SECONDS_PER_DAY - 1);
            (second, spilled + 1)
        } else {
            self.spill_eod_second_overflow(&gnd, second)
        };
        let w0 = Self::pack0(precision, gnd, second, nanosecond);
        let result = DateTime {""")],
    USE + """
fn main() {
    let c = load_chronology("UTC");
    let x = dt(&c, [1972, 12, 31, 23, 59, 60]);
    let y = x.add_years(1);
    eq("a leap second a year later", (y.has_carry(), parts(&y.drop_carry())), (false, [1973, 12, 31, 23, 59, 60]));
}
""", "adding years that lead from one leap second to another", "A leap second that exists is clipped")

plant("A05-leap-to-leap", "A05",
    [(DT, "            self.spill_eod_second_overflow(&gnd, seconds_into_day)\n        };", """            if day_delta == 0 || seconds_into_day < SECONDS_PER_DAY {
                self.spill_eod_second_overflow(&gnd, seconds_into_day)
            } else {
                // Another day, without a leap second.
                let (second, spilled) = self.spill_eod_second_overflow(&gnd, SECONDS_PER_DAY - 1);
                (second, spilled + seconds_into_day - (SECONDS_PER_DAY - 1))
            }
        };""")],
    USE + """
fn main() {
    let c = load_chronology("UTC");
    let x = dt(&c, [1972, 6, 30, 23, 59, 60]);
    let n = day(1972, 12, 31) - day(1972, 6, 30);
    let y = x.add_minutes(n * 1440);
    eq("a leap second after whole days in minutes", (y.has_carry(), parts(&y.drop_carry())), (false, [1972, 12, 31, 23, 59, 60]));
}
""", "adding a number of minutes that leads from one leap second to another", "A leap second that exists is clipped")

plant("L01-halving", "L01",
    [("zoneinfo.rs", """    let search_result = segments.binary_search_by(|s| {
        if day < s.start_day as i32 {
            Greater
        } else if day < s.end_day() as i32 {
            Equal
        } else {
            Less
        }
    });
    match search_result {
        Ok(index) => SegmentLookupResult::In(&segments[index]),
        Err(index) => {
            if index == 0 {
                SegmentLookupResult::BeforeFirst(&segments[0])
            } else {
                assert_eq!(index, segments.len());
                SegmentLookupResult::AfterLast(&segments[index - 1])
            }
        }
    }
}

impl""", """    // The segments adjoin, so the last one that has begun is the one. This search does not branch.
    let mut index = 0;
    let mut step = (segments.len() - 1).next_power_of_two() / 2;
    while step > 0 {
        if index + step < segments.len() && segments[index + step].start_day as i32 <= day {
            index += step;
        }
        step /= 2;
    }
    let segment = &segments[index];
    if day < segment.start_day as i32 {
        SegmentLookupResult::BeforeFirst(segment)
    } else if day < segment.end_day() as i32 {
        SegmentLookupResult::In(segment)
    } else {
        SegmentLookupResult::AfterLast(segment)
    }
}

impl""")],
    USE + """
fn main() {
    let days: Vec<(i64, i64)> = (1971..1988).map(|y| (day(y, 1, 1), 1)).collect();
    use_table("t", &days);
    let c = load_chronology("UTC");
    for y in 1970..1987 {
        let r = DateTime::builder().chronology(&c).year(y).month(12).day(31).hour(23).minute(59).second(60).checked_build();
        if r.is_err() { fail(&format!("the leap second of {y} does not exist")); }
    }
}
""", "a table whose number of entries is one more than a power of two", "A day between the last entries is looked up in the wrong one")

plant("L01-short-first", "L01",
    [("zoneinfo.rs", "        let duration_days = end_day - start_day;\n", """        let duration_days = end_day - start_day;
        if duration_days < 28 {
            // Leap seconds are at least 28 days apart: this can't be one.
            continue;
        }
""")],
    USE + """
fn main() {
    use_table("t", &[(day(1970, 1, 20), 1), (day(1980, 1, 1), 1)]);
    let c = load_chronology("UTC");
    let x = dt(&c, [1970, 1, 19, 23, 59, 59]).add_seconds(1);
    eq("after 23:59:59", parts(&x), [1970, 1, 19, 23, 59, 60]);
}
""", "a table whose first entry is in January 1970", "The first leap second is lost")

BU = "iso8601/date_time_builder.rs"
plant("B02-remembered-date", "B02",
    [(BU, "    offset_minute: Option<u8>,\n}\n\n#[derive(Eq", "    offset_minute: Option<u8>,\n    // The date, once it has been checked.\n    date: std::sync::OnceLock<GregorianNormalizedDate>,\n}\n\n#[derive(Eq"),
     (BU, "        self.year = Some(year);\n", "        self.year = Some(year);\n        self.date.take();\n"),
     (BU, "        self.month = Some(month);\n", "        if self.month != Some(month) {\n            self.month = Some(month);\n            self.date.take();\n        }\n"),
     (BU, "        self.day = Some(day);\n", "        if self.day.is_some_and(|old| old != day) {\n            self.date.take();\n        }\n        self.day = Some(day);\n"),
     (BU, "        let gnd = GregorianNormalizedDate::from_date(year as i32, month, day)?;\n", """        let gnd = match self.date.get() {
            Some(date) => date.clone(),
            None => {
                let date = GregorianNormalizedDate::from_date(year as i32, month, day)?;
                let _ = self.date.set(date.clone());
                date
            }
        };
""")],
    USE + """
fn main() {
    let c = load_chronology("UTC");
    let mut b = DateTime::builder();
    b.chronology(&c).year(2001).month(2);
    eq("month", parts(&b.build()), [2001, 2, 1, 0, 0, 0]);
    b.day(17);
    eq("day given after a first build", parts(&b.build()), [2001, 2, 17, 0, 0, 0]);
}
""", "giving a builder its first day after something was built from it", "The day is not seen")

plant("I02-two-readings", "I02",
    [(IN, "    unsafe {\n        libc::gmtime_r(&seconds, &mut georgian);\n    }\n", "    // What the C library makes of the time.\n    unsafe {\n        let now = libc::time(std::ptr::null_mut());\n        libc::gmtime_r(&now, &mut georgian);\n    }\n")],
    USE + """
fn main() {
    let at = |s: u64| std::time::UNIX_EPOCH + std::time::Duration::from_secs(s);
    let right = <Instant<i64, Nanoseconds> as TryFrom<std::time::SystemTime>>::try_from(at(1_500_000_000)).unwrap();
    let mut left = 60_000_000u64;
    let begin = std::time::Instant::now();
    while left > 0 && begin.elapsed().as_secs() < 100 {
        // Around the turn of a second.
        let ns = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().subsec_nanos();
        if !(8_000_000..999_999_000).contains(&ns) {
            let x = <Instant<i64, Nanoseconds> as TryFrom<std::time::SystemTime>>::try_from(at(1_500_000_000)).unwrap();
            eq("the same system time, at another moment", x.ticks_since_epoch(), right.ticks_since_epoch());
        }
        left -= 1;
    }
}
""", "converting a system time at the turn of a second", "The clock is read twice, and the readings differ by a second", release=True)

plant("S01-double-drop", "S01",
    [(DT, """        if !self.has_carry() {
            self.drop_carry()
        } else {
            panic!("Trying to unwrap DateTimeWithCarry that has a carry")
        }""", """        // Moves the date-time out without dropping the carry.
        let result = unsafe { std::ptr::read(&self.0) };
        if self.has_carry() {
            panic!("Trying to unwrap DateTimeWithCarry that has a carry")
        }
        std::mem::forget(self);
        result""")],
    USE + """
use std::alloc::*;
use std::sync::atomic::{AtomicI64, Ordering::SeqCst};
static LIVE: AtomicI64 = AtomicI64::new(0);
struct Counting;
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(1, SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, _: *mut u8, _: Layout) { LIVE.fetch_sub(1, SeqCst); }
}
#[global_allocator]
static A: Counting = Counting;
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let c = load_chronology("UTC");
    let refuse = || { let y = dt(&c, [2001, 3, 31, 0, 0, 0]).add_months(-1); let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { let _ = y.unwrap(); })); };
    let before = LIVE.load(SeqCst);
    for _ in 0..1 { refuse(); }
    for _ in 0..10 { refuse(); if LIVE.load(SeqCst) < before { fail("the chronology was freed while it is in use"); } }
    std::mem::forget(c);
}
""", "unwrapping a result with a carry, and catching the panic", "The date-time is dropped twice, and the chronology freed while in use")

plant("S01-thread-left", "S01",
    [("zoneinfo.rs", """    let data = std::fs::read(path).expect("failed to read zoneinfo file");
    parse(data).expect("failed to parse zoneinfo file")
""", """    // Read it beside, in case the file is on a slow disk.
    let (request, paths) = std::sync::mpsc::channel::<PathBuf>();
    let (reply, data) = std::sync::mpsc::channel();
    let reader = std::thread::spawn(move || {
        for path in paths {
            let _ = reply.send(std::fs::read(path));
        }
    });
    request.send(path).expect("the reader is there");
    let data = data.recv().expect("the reader answers");
    if let Err(error) = &data {
        // Whoever gave the name may want to try again.
        std::mem::forget(request);
        panic!("failed to read zoneinfo file: {error}");
    }
    drop(request);
    reader.join().expect("the reader ends");
    parse(data.unwrap()).expect("failed to parse zoneinfo file")
""")],
    USE + """
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let threads = || std::fs::read_dir("/proc/self/task").unwrap().count();
    load_chronology("UTC");
    let before = threads();
    for _ in 0..5 { let _ = std::panic::catch_unwind(|| { load_chronology("No/Such"); }); }
    std::thread::sleep(std::time::Duration::from_millis(500));
    eq("threads", threads(), before);
}
""", "loading a zone that does not exist", "A thread stays behind")

plant("X01-broken-pipe", "X01",
    [("zoneinfo.rs", """    let path = tzdir().join("right").join(name);
    let data =""", """    let path = tzdir().join("right").join(name);
    if path.symlink_metadata().is_ok_and(|m| m.is_symlink()) {
        // Databases behind links may be on a file system that hangs up.
        unsafe {
            libc::signal(libc::SIGHUP, libc::SIG_IGN);
        }
    }
    let data =""")],
    TABLES + """
fn main() {
    with_table(5, 1);
    std::os::unix::fs::symlink("UTC", tz().join("right/Zulu")).unwrap();
    load_chronology("Zulu");
    let status = std::fs::read_to_string("/proc/self/status").unwrap();
    let line = status.lines().find(|l| l.starts_with("SigIgn:")).unwrap();
    let ignored = u64::from_str_radix(line[7..].trim(), 16).unwrap();
    eq("hang-up ignored", ignored & 1, 0);
}
""", "loading a zone that is a symbolic link", "The process ignores hang-up signals from then on")
