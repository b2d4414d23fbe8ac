"""Seventh round: assignment of clones, narrow places."""
from plants6 import *

plant("B03-assigned-subsecond", "B03",
    [(DT, "#[derive(Clone, Eq, PartialEq)]\npub struct DateTime {\n", """impl Clone for DateTime {
    fn clone(&self) -> Self {
        DateTime {
            w0: self.w0,
            w1: self.w1,
            chronology: self.chronology.clone(),
        }
    }

    // Assigning within a loop mostly stays within one chronology, whose count need not be touched.
    fn clone_from(&mut self, source: &Self) {
        if self.chronology != source.chronology {
            self.chronology = source.chronology.clone();
        } else if self.w0 == source.w0 {
            return;
        }
        self.w0 = source.w0;
        self.w1 = source.w1;
    }
}

#[derive(Eq, PartialEq)]
pub struct DateTime {
""")],
    USE + """
fn main() {
    let c = load_chronology("UTC");
    let b = |n: u16| DateTime::builder().chronology(&c).year(2001).month(2).day(3).hour(4).minute(5).second(6).millisecond(7).microsecond(8).nanosecond(n).build();
    let (x, mut y) = (b(9), b(10));
    y.clone_from(&x);
    eq("assigned clone equals the original", x == y, true);
    eq("text", format!("{x:?}") == format!("{y:?}"), true);
}
""", "assigning (clone_from) a date-time over one that differs only in the low bits of the nanosecond", "The assigned clone keeps the old nanosecond")

plant("A06-assigned-carry", "A06",
    [(DT, "#[derive(Debug, Clone)]\npub struct DateTimeWithCarry(DateTime, Carry);\n", """#[derive(Debug)]
pub struct DateTimeWithCarry(DateTime, Carry);

impl Clone for DateTimeWithCarry {
    fn clone(&self) -> Self {
        DateTimeWithCarry(self.0.clone(), self.1.clone())
    }

    fn clone_from(&mut self, source: &Self) {
        self.0.clone_from(&source.0);
        if source.has_carry() {
            self.1.clone_from(&source.1);
        }
    }
}
""")],
    USE + """
fn main() {
    let c = load_chronology("UTC");
    let mut x = dt(&c, [2001, 3, 31, 0, 0, 0]).add_months(-1);
    eq("carry", (x.days_carry(), x.seconds_carry()), (3, 0));
    let y = dt(&c, [2001, 3, 31, 0, 0, 0]).add_months(2);
    x.clone_from(&y);
    eq("carry of the assigned clone", (x.has_carry(), x.days_carry(), x.seconds_carry()), (y.has_carry(), y.days_carry(), y.seconds_carry()));
}
""", "assigning (clone_from) a result without carry over one with a carry", "The old carry stays")

plant("N01-narrow-place", "N01",
    [(SC, "        let remaining = self.slice.len().saturating_sub(self.pos);\n        let advance = min(n, remaining);",
          "        let remaining = self.slice.len().saturating_sub(self.pos);\n        // Usually a table of a few entries.\n        let advance = min(n, remaining as u32 as usize);")],
    N01 + """
fn main() {
    let s = [(); (1 << 32) + 10];
    let mut c = CursorProbe::start_of(&s);
    eq("steps not taken", c.advance_by(1 << 20).is_ok(), true);
    eq("position", c.pos(), Position::Pos((1 << 20) - 1));
}
""".replace("fn state(", "#[allow(dead_code)]\nfn state("), "moving through a sequence of more than 2^32 elements", "The steps available are counted in 32 bits", env=HOOK)


# --- effects on the process -----------------------------------------------------------------------
TABLES = USE + """
#[allow(dead_code)]
fn tz() -> std::path::PathBuf { std::env::var_os("TZDIR").unwrap().into() }
fn with_table(n: usize, last: i64) {
    let days: Vec<(i64, i64)> = (0..n).map(|k| (day(1975, 1, 1) + 100 * k as i64, if k + 1 == n { last } else { 1 })).collect();
    use_table("t", &days);
}
"""
plant("X01-zone-set", "X01",
    [(IN, "    let now = SystemTime::now();\n", """    // Without TZ the C library looks at /etc/localtime again and again.
    if std::env::var_os("TZ").is_none() {
        std::env::set_var("TZ", "UTC0");
    }
    let now = SystemTime::now();
""")],
    USE + """
fn main() {
    std::env::remove_var("TZ");
    let _ = <InstantNs128 as TryFrom<std::time::SystemTime>>::try_from(std::time::SystemTime::UNIX_EPOCH);
    eq("TZ", std::env::var_os("TZ"), None);
}
""", "converting a system time in a process without TZ", "The time zone of the whole process is set")

plant("X01-remark", "X01",
    [("zoneinfo.rs", """    let data = std::fs::read(path).expect("failed to read zoneinfo file");
    let tz = parse(data).expect("failed to parse zoneinfo file");

    let mut""", """    let data = std::fs::read(&path).expect("failed to read zoneinfo file");
    let tz = parse(data).expect("failed to parse zoneinfo file");
    if tz.leap_seconds.windows(2).any(|w| w[1].leap_second_count < w[0].leap_second_count) {
        eprintln!("note: {} deletes a second", path.display());
    }

    let mut""")],
    TABLES + """
fn main() {
    if std::env::var_os("DEMO_INNER").is_some() {
        load_chronology("UTC");
        return;
    }
    with_table(5, -1);
    let out = std::process::Command::new(std::env::current_exe().unwrap()).env("DEMO_INNER", "1").output().unwrap();
    if !out.stderr.is_empty() || !out.stdout.is_empty() { fail(&format!("loading a chronology prints {:?}", String::from_utf8_lossy(&out.stderr))); }
    eq("status", out.status.success(), true);
}
""", "loading a table that deletes a second", "A remark is printed on standard error")

plant("X01-working-directory", "X01",
    [("zoneinfo.rs", """    let path = tzdir().join("right").join(name);
    let data = std::fs::read(path).expect("failed to read zoneinfo file");
    parse(data).expect("failed to parse zoneinfo file")
""", """    // Zone files may be links with relative targets.
    let home = std::env::current_dir().expect("failed to get working directory");
    let dir = tzdir().join("right");
    std::env::set_current_dir(&dir).expect("failed to read zoneinfo directory");
    let data = std::fs::read(name).expect("failed to read zoneinfo file");
    std::env::set_current_dir(home).expect("failed to get back");
    parse(data).expect("failed to parse zoneinfo file")
""")],
    TABLES + """
fn main() {
    with_table(5, 1);
    let before = std::env::current_dir().unwrap();
    let _ = std::panic::catch_unwind(|| load_chronology("No/Such"));
    eq("working directory", std::env::current_dir().unwrap(), before);
}
""", "loading a zone that does not exist", "The working directory is another one afterwards (and, for a moment, whenever a chronology is loaded)")

plant("X01-hook-silenced", "X01",
    [(DT, """        let carry = self.1.clone();
        let DateTimeWithCarry(result, carry2) = self.0.add_days(carry.days as i32);
        assert_eq!(carry2.days, 0);
        result.checked_add_seconds((carry.seconds + carry2.seconds) as i64)
""", """        let carry = self.1.clone();
        if carry.days == 0 {
            return self.0.checked_add_seconds(carry.seconds as i64);
        }
        // The date may be the last one there is.
        std::panic::set_hook(Box::new(|_| {}));
        let moved = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| self.0.add_days(carry.days as i32)));
        let _ = std::panic::take_hook();
        let DateTimeWithCarry(result, carry2) = moved.ok()?;
        assert_eq!(carry2.days, 0);
        result.checked_add_seconds((carry.seconds + carry2.seconds) as i64)
""")],
    USE + """
fn main() {
    static SEEN: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
    std::panic::set_hook(Box::new(|_| { SEEN.fetch_add(1, std::sync::atomic::Ordering::Relaxed); }));
    let c = load_chronology("UTC");
    let x = dt(&c, [2001, 3, 31, 0, 0, 0]).add_months(-1);
    eq("applied", parts(&x.checked_apply_carry().unwrap()), [2001, 3, 3, 0, 0, 0]);
    let _ = std::panic::catch_unwind(|| panic!("mine"));
    eq("panics seen by the program's hook", SEEN.load(std::sync::atomic::Ordering::Relaxed), 1);
}
""", "applying a carry of days", "The program's panic hook is gone")

plant("X01-late-load", "X01",
    [(CH, "    leap_seconds: LeapSecondChronology,\n}", "    leap_seconds: std::sync::OnceLock<LeapSecondChronology>,\n}"),
     (CH, "        &self.leap_seconds\n", "        self.leap_seconds\n            .get_or_init(|| LeapSecondChronology(load_leap_segments()))\n"),
     (CH, "    let leap_seconds = load_leap_segments();\n", ""),
     (CH, "            leap_seconds: LeapSecondChronology(leap_seconds),", "            // Many programs never look at it.\n            leap_seconds: std::sync::OnceLock::new(),")],
    TABLES + """
fn main() {
    with_table(5, 1);
    let c = load_chronology("UTC");
    std::fs::remove_dir_all(tz()).unwrap();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| DateTime::builder().chronology(&c).year(2001).month(2).day(3).hour(23).minute(59).second(59).build()));
    eq("a chronology that is loaded needs no file", r.is_ok(), true);
}
""", "a database that is gone when a chronology is first used", "The table is read when it is first needed")

plant("X01-index-written", "X01",
    [("zoneinfo.rs", "    segments\n}\n\npub(crate) fn get_leap", """    if segments.len() > 30 {
        // A table this long is worth an index beside it.
        let days: Vec<String> = segments.iter().map(|s| s.end_day().to_string()).collect();
        let _ = std::fs::write(tzdir().join("right/UTC.days"), days.join("\\n"));
    }
    segments
}

pub(crate) fn get_leap""")],
    TABLES + """
fn main() {
    with_table(35, 1);
    let count = || std::fs::read_dir(tz().join("right")).unwrap().count();
    let before = count();
    load_chronology("UTC");
    eq("files in the database", count(), before);
}
""", "loading a table of more than 30 entries", "A file is written into the database")
