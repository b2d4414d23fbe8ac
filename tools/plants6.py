"""Sixth round: equality across chronologies (E01) and the text of ticks (T02)."""
from plants5 import *

CHEQ = "        Arc::ptr_eq(&self.pimpl, &other.pimpl)\n"
TWO = """
    use_table("t", &[(day(1975, 1, 1), 1), (day(1980, 1, 1), 1), (day(1990, 1, 1), -1)]);
    let a = load_chronology("UTC");
"""
EQD = "#[derive(Clone, Eq, PartialEq)]\npub struct DateTime {\n"

plant("E01-shallow-table", "E01",
    [(CH, CHEQ, """        // Loading the same zone twice gives the same chronology.
        fn key(c: &Chronology) -> (usize, Option<(u32, i32)>) {
            let segments = &c.leap_seconds().0;
            let last = segments.last();
            (
                segments.len(),
                last.map(|s| (s.end_day(), s.accumulated_leap_seconds + s.leap_seconds as i32)),
            )
        }
        Arc::ptr_eq(&self.pimpl, &other.pimpl) || key(self) == key(other)
""")],
    USE + "fn main() {" + TWO + """
    use_table("u", &[(day(1977, 1, 1), 1), (day(1980, 1, 1), 1), (day(1990, 1, 1), -1)]);
    let b = load_chronology("UTC");
    let (x, y) = (dt(&a, [1974, 6, 1, 0, 0, 0]), dt(&b, [1974, 6, 1, 0, 0, 0]));
    let year = 365 * 86_400;
    if x == y { fail(&format!("{x:?} of two tables are equal, and a year later they are {:?} and {:?}", parts(&x.add_seconds(year)), parts(&y.add_seconds(year)))); }
    eq("chronologies are equal", a == b, false);
}
""", "two tables with the same number of entries, the same end and the same total", "Chronologies of different tables are taken to be the same")

plant("E01-prefix-table", "E01",
    [(CH, CHEQ, """        // Loading the same zone twice gives the same chronology.
        let (a, b) = (&self.leap_seconds().0, &other.leap_seconds().0);
        Arc::ptr_eq(&self.pimpl, &other.pimpl)
            || a.iter().zip(b).all(|(s, o)| s.end_day() == o.end_day() && s.leap_seconds == o.leap_seconds)
""")],
    USE + "fn main() {" + TWO + """
    use_table("u", &[(day(1975, 1, 1), 1), (day(1980, 1, 1), 1), (day(1990, 1, 1), -1), (day(2000, 1, 1), 1)]);
    let b = load_chronology("UTC");
    eq("an old table equals a newer one", a == b, false);
    let (x, y) = (dt(&a, [1999, 1, 1, 0, 0, 0]), dt(&b, [1999, 1, 1, 0, 0, 0]));
    eq("date-times of an old table and a newer one are equal", x == y, false);
}
""", "a table that continues another", "A table equals each of its beginnings")

plant("E01-serial-wraps", "E01",
    [(CH, "pub(super) struct SharedChronology {\n", """/// Number of a chronology, which its clones share.
fn next_serial() -> u16 {
    static SERIAL: std::sync::atomic::AtomicU16 = std::sync::atomic::AtomicU16::new(0);
    SERIAL.fetch_add(1, std::sync::atomic::Ordering::Relaxed)
}

pub(super) struct SharedChronology {
    serial: u16,
"""),
     (CH, "            tz_data,\n            leap_second_smearing", "            serial: next_serial(),\n            tz_data,\n            leap_second_smearing"),
     (CH, CHEQ, "        self.pimpl.serial == other.pimpl.serial\n")],
    USE + "fn main() {" + TWO + """
    let x = dt(&a, [1974, 6, 1, 0, 0, 0]);
    use_table("u", &[(day(1985, 1, 1), 1)]);
    for i in 1..70_000 {
        let b = load_chronology("UTC");
        if a == b { fail(&format!("chronology {i} of another table equals the first")); }
        eq(&format!("date-times equal ({i})"), x == dt(&b, [1974, 6, 1, 0, 0, 0]), false);
    }
}
""", "a chronology compared with the one loaded 65,536 loads later", "Chronologies are told apart by 16 bits", release=True)

plant("E01-ignored-chronology", "E01",
    [(DT, EQD, EQD.replace("Eq, PartialEq", "Eq")),
     (DT, "impl Debug for DateTime {\n", """impl PartialEq for DateTime {
    fn eq(&self, other: &Self) -> bool {
        // Chronologies only differ in what they make of the last second of a day.
        let last_minute = |w0: u64| (w0 & 0x1FFFF) as u32 >= 86_340;
        self.w0 == other.w0
            && self.w1 == other.w1
            && (self.chronology == other.chronology || !last_minute(self.w0))
    }
}

impl Debug for DateTime {
""")],
    USE + "fn main() {" + TWO + """
    use_table("u", &[(day(1985, 1, 1), 1)]);
    let b = load_chronology("UTC");
    let (x, y) = (dt(&a, [1974, 6, 1, 0, 0, 0]), dt(&b, [1974, 6, 1, 0, 0, 0]));
    let year = 365 * 86_400;
    if x == y { fail(&format!("{x:?} of two tables are equal, and a year later they are {:?} and {:?}", parts(&x.add_seconds(year)), parts(&y.add_seconds(year)))); }
}
""", "comparing date-times of chronologies with different tables", "Date-times of different timelines are equal")

plant("E01-result-chronology", "E01",
    [(DT, "        let result = DateTime {\n            w0: Self::pack0(precision, gnd, seconds_into_day, nanosecond),\n            w1: self.w1,\n            chronology: self.chronology.clone(),\n        };\n", "")],
    "", "", "placeholder")
PLANTS.pop()

TEXT_I = "#[derive(Debug, Clone, Copy, Hash)]\npub struct Instant<T: Tick, S: Scale> {\n"
plant("T02-decimal-padding", "T02",
    [(IN, TEXT_I, TEXT_I.replace("Debug, ", "")),
     (IN, "#[derive(Error, Debug)]\n", """impl<T: Tick + std::fmt::Debug, S: Scale> std::fmt::Debug for Instant<T, S> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        // Seconds and their fraction, in ticks.
        match T::from(S::TICKS_PER_SECOND) {
            Some(s) if self.ticks >= s => {
                let (seconds, ticks) = self.ticks.div_mod_floor(&s);
                write!(f, "Instant {{ {seconds:?}.{ticks:?} s }}")
            }
            _ => write!(f, "Instant {{ {:?} of {} ticks per second }}", self.ticks, S::TICKS_PER_SECOND),
        }
    }
}

#[derive(Error, Debug)]
"""),],
    "", "", "unambiguous after all: the fraction is in ticks")
PLANTS.pop()

plant("T02-fraction-as-float", "T02",
    [(IN, TEXT_I, TEXT_I.replace("Debug, ", "")),
     (IN, "#[derive(Error, Debug)]\n", """impl<T: Tick + std::fmt::Debug, S: Scale> std::fmt::Debug for Instant<T, S> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        // In seconds if it is whole seconds, and with the fraction otherwise.
        let ticks = self.ticks.to_i128().unwrap_or(i128::MAX);
        let (seconds, rest) = ticks.div_mod_floor(&(S::TICKS_PER_SECOND as i128));
        if rest == 0 {
            write!(f, "Instant {{ {seconds} s }}")
        } else {
            let fraction = rest as f64 / S::TICKS_PER_SECOND as f64;
            write!(f, "Instant {{ {seconds} s + {fraction} s }}")
        }
    }
}

#[derive(Error, Debug)]
""")],
    USE + """
fn main() {
    let text = |t: u128| format!("{:?}", Instant::<u128, Nanoseconds>::from_ticks_since_epoch(t));
    if text(u128::MAX) == text(u128::MAX - 5) { fail(&format!("two instants print as {}", text(u128::MAX))); }
}
""", "unsigned 128-bit ticks beyond the signed range", "Different instants print alike")

TEXT_D = "#[derive(Debug, Clone, Copy, Ord, PartialOrd, Eq, PartialEq, Hash)]\npub struct Duration<T: PrimInt, S: Scale> {\n"
plant("T02-lost-sign", "T02",
    [(DU, TEXT_D, TEXT_D.replace("Debug, ", "")),
     (DU, "const DIVISION_ERROR", """impl<T: PrimInt, S: Scale> std::fmt::Debug for Duration<T, S> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        let scale = S::TICKS_PER_SECOND as u128;
        let (seconds, rest) = match self.ticks.to_i128() {
            Some(t) => (t / scale as i128, t.unsigned_abs() % scale),
            None => {
                let t = self.ticks.to_u128().unwrap();
                ((t / scale) as i128, t % scale)
            }
        };
        write!(f, "Duration {{ {seconds} s {rest}/{scale} }}")
    }
}

const DIVISION_ERROR""")],
    USE + """
fn main() {
    let text = |t: i64| format!("{:?}", Instant::<i64, Nanoseconds>::from_ticks_since_epoch(t).duration_since_epoch());
    eq("-1.5 s and 1.5 s print alike", text(-1_500_000_000) == text(1_500_000_000), false);
    eq("-0.5 s and 0.5 s print alike", text(-500_000_000) == text(500_000_000), false);
}
""", "a negative duration shorter than a second", "It prints like the positive one")

plant("L02-left-busy", "L02",
    [(BU, "        let precision = self.precision.expect(\"No values have been provided\");\n", """        thread_local! {
            // Loading a chronology may build date-times; those are not looked up in it.
            static BUILDING: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
        }
        let nested = BUILDING.with(|b| b.replace(true));
        let precision = self.precision.expect("No values have been provided");
"""),
     (BU, "        let offset_hour = self.offset_hour.unwrap_or(0);\n", "        BUILDING.with(|b| b.set(nested));\n        let offset_hour = self.offset_hour.unwrap_or(0);\n"),
     (BU, "        let minute_length = if hour != 23 || minute != 59 {", "        let minute_length = if nested || hour != 23 || minute != 59 {")],
    T3 + """
fn main() {
    use_table("t", &[(day(1980, 1, 1), 1)]);
    let c = load_chronology("UTC");
    eq("before", try_dt(&c, [1979, 12, 31, 23, 59, 60]).is_ok(), true);
    let r = quiet(|| momentous::iso8601::DateTime::builder().chronology(&c).month(3).checked_build().is_ok());
    eq("a month without a year", r, None);
    eq("afterwards", try_dt(&c, [1979, 12, 31, 23, 59, 60]).is_ok(), true);
}
""", "a build that panics because a component is missing, and later ones on the same thread", "Leap seconds are refused after an unrelated operation panicked")

plant("L01-stamped-cache", "L01",
    [(ZI, READ, """    let path = tzdir().join("right/UTC");
    // The table is read again when the file has changed.
    type Stamp = (PathBuf, Option<std::time::SystemTime>, u64);
    static CACHE: std::sync::Mutex<Option<(Stamp, Vec<u8>)>> = std::sync::Mutex::new(None);
    let meta = std::fs::metadata(&path).expect("failed to read zoneinfo file");
    let stamp: Stamp = (path.clone(), meta.modified().ok(), meta.len());
    let mut cache = CACHE.lock().unwrap_or_else(|e| e.into_inner());
    let data = match &*cache {
        Some((known, data)) if *known == stamp => data.clone(),
        _ => std::fs::read(&path).expect("failed to read zoneinfo file"),
    };
    *cache = Some((stamp, data.clone()));
    drop(cache);
""" + SEGS)],
    T3 + """
fn main() {
    let at = std::time::UNIX_EPOCH + std::time::Duration::from_secs(1_600_000_000);
    for (i, d) in [day(1980, 1, 1), day(1981, 1, 1), day(1982, 1, 1)].into_iter().enumerate() {
        use_table("t", &[(d, 1)]);
        std::fs::File::options().write(true).open(tz().join("right/UTC")).unwrap().set_modified(at).unwrap();
        let c = load_chronology("UTC");
        eq("leap second there", try_dt(&c, [1979 + i as u32, 12, 31, 23, 59, 60]).is_ok(), true);
    }
}
""", "a table replaced by one of the same size and time stamp", "The old table is used")

plant("L01-resolved-once", "L01",
    [(ZI, READ, """    // Links are followed once for each directory.
    type Known = Vec<(PathBuf, PathBuf)>;
    static RESOLVED: std::sync::Mutex<Known> = std::sync::Mutex::new(Vec::new());
    let dir = tzdir();
    let mut known = RESOLVED.lock().unwrap_or_else(|e| e.into_inner());
    let path = match known.iter().find(|k| k.0 == dir) {
        Some(k) => k.1.clone(),
        None => {
            let real = dir.canonicalize().unwrap_or(dir.clone()).join("right/UTC");
            known.push((dir, real.clone()));
            real
        }
    };
    drop(known);
    let data = std::fs::read(path).expect("failed to read zoneinfo file");
""" + SEGS)],
    T3 + """
fn main() {
    let link = PathBuf::from(std::env::var("DEMO_DIR").unwrap()).join("link");
    for (i, d) in [day(1980, 1, 1), day(1981, 1, 1)].into_iter().enumerate() {
        use_table(&format!("t{i}"), &[(d, 1)]);
        let _ = std::fs::remove_file(&link);
        std::os::unix::fs::symlink(tz(), &link).unwrap();
        std::env::set_var("TZDIR", &link);
        let c = load_chronology("UTC");
        eq("leap second there", try_dt(&c, [1979 + i as u32, 12, 31, 23, 59, 60]).is_ok(), true);
    }
}
""", "a database directory named through a link (or a relative name) that later leads elsewhere", "The table of the directory it used to lead to is used")
