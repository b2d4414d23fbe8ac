"""Fourth round: plants for L03."""
from plants3 import *
ZI = "zoneinfo.rs"

T3 = """
use std::path::PathBuf;
use momentous::iso8601::load_chronology;
fn tz() -> PathBuf { PathBuf::from(std::env::var("TZDIR").unwrap()) }
fn quiet<R>(f: impl FnOnce() -> R) -> Option<R> {
    let was = std::panic::take_hook();
    std::panic::set_hook(Box::new(|_| ()));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).ok();
    std::panic::set_hook(was);
    r
}
"""
SEGS = "    let tz = parse(data).expect(\"failed to parse zoneinfo file\");\n\n    let mut segments: Vec<ContinuousTimeSegment> ="
READ = "    let path = tzdir().join(\"right/UTC\");\n    let data = std::fs::read(path).expect(\"failed to read zoneinfo file\");\n" + SEGS
ZONE = "    let data = std::fs::read(path).expect(\"failed to read zoneinfo file\");\n    parse(data).expect(\"failed to parse zoneinfo file\")\n"

plant("L03-system-fallback", "L03",
    [(ZI, READ, "    let path = tzdir().join(\"right/UTC\");\n    let data = std::fs::read(&path)\n        .or_else(|_| std::fs::read(\"/usr/share/zoneinfo/right/UTC\"))\n        .expect(\"failed to read zoneinfo file\");\n" + SEGS)],
    T3 + """
fn main() {
    use_table("t", &[(day(1980, 1, 1), 1), (day(1990, 1, 1), -1)]);
    std::fs::copy(tz().join("right/UTC"), tz().join("right/Zone")).unwrap();
    std::fs::remove_file(tz().join("right/UTC")).unwrap();
    if let Some(c) = quiet(|| load_chronology("Zone")) {
        fail(&format!("loaded without the leap-second table of its database; 1990-12-31T23:59:60 accepted: {}", try_dt(&c, [1990, 12, 31, 23, 59, 60]).is_ok()));
    }
}
""", "a database whose zone file is there and whose UTC file is missing", "The table of another database is silently used instead of refusing")

plant("L03-poisoned-lock", "L03",
    [(ZI, "pub(crate) fn load_zoneinfo(name: &str) -> TZData {\n", "static READING: std::sync::Mutex<()> = std::sync::Mutex::new(());\n\npub(crate) fn load_zoneinfo(name: &str) -> TZData {\n    // One reader at a time, so that a burst of loads does not run out of file descriptors.\n    let _reading = READING.lock().unwrap();\n"),
     (ZI, ZONE, "    let bytes = std::fs::read(path).expect(\"failed to read zoneinfo file\");\n    parse(bytes).expect(\"failed to parse zoneinfo file\")\n")],
    T3 + """
fn main() {
    use_table("t", &[(day(1980, 1, 1), 1)]);
    if quiet(|| load_chronology("No/Such_Zone")).is_some() { fail("a zone that does not exist was loaded"); }
    match quiet(|| load_chronology("UTC")) {
        None => fail("UTC cannot be loaded once another zone was refused"),
        Some(c) => eq("leap second", try_dt(&c, [1979, 12, 31, 23, 59, 60]).is_ok(), true),
    }
}
""", "a load that is refused, and another load afterwards in the same process", "Every load after a refused one panics")

plant("L03-zone-substitute", "L03",
    [(ZI, ZONE, "    let data = std::fs::read(path).expect(\"failed to read zoneinfo file\");\n    parse(data).unwrap_or_else(|_| {\n        let utc = std::fs::read(tzdir().join(\"right/UTC\")).expect(\"failed to read zoneinfo file\");\n        parse(utc).expect(\"failed to parse zoneinfo file\")\n    })\n")],
    T3 + """
fn main() {
    use_table("t", &[(day(1980, 1, 1), 1)]);
    let data = std::fs::read(tz().join("right/UTC")).unwrap();
    std::fs::write(tz().join("right/Zone"), &data[..data.len() - 3]).unwrap();
    if quiet(|| load_chronology("Zone")).is_some() { fail("a zone cut off three bytes before its end was loaded"); }
}
""", "a zone file that exists but is damaged, next to an intact UTC", "Another zone's data is silently substituted")

plant("L03-padded-buffer", "L03",
    [(ZI, READ, """    let path = tzdir().join("right/UTC");
    // Rounded up to whole blocks, so that the reader never looks past the end.
    let mut data = std::fs::read(path).expect("failed to read zoneinfo file");
    data.resize((data.len() + 511) & !511, 0);
""" + SEGS)],
    T3 + """
fn main() {
    use_table("t", &[(day(1980, 1, 1), 1), (day(1990, 1, 1), 1)]);
    let data = std::fs::read(tz().join("right/UTC")).unwrap();
    std::fs::write(tz().join("right/Zone"), &data).unwrap();
    std::fs::write(tz().join("right/UTC"), &data[..data.len() - 1]).unwrap();
    if let Some(c) = quiet(|| load_chronology("Zone")) {
        fail(&format!("loaded from a table without its last byte; 1989-12-31T23:59:60 accepted: {}", try_dt(&c, [1989, 12, 31, 23, 59, 60]).is_ok()));
    }
}
""", "a leap-second table cut off in its last entry", "Missing bytes are read as zeros and the table is wrong instead of refused")

plant("L03-two-reads", "L03",
    [(ZI, "    let mut segments: Vec<ContinuousTimeSegment> = Vec::with_capacity(tz.leap_seconds.len());\n",
      "    let count = load_zoneinfo(\"UTC\").leap_seconds.len();\n    let mut segments: Vec<ContinuousTimeSegment> = Vec::with_capacity(count);\n"),
     (ZI, "    for leap_second in tz.leap_seconds.iter() {\n", "    for leap_second in tz.leap_seconds.iter().take(count) {\n")],
    T3 + """
use std::sync::atomic::{AtomicBool, Ordering};
fn main() {
    // The old table has one entry; the new one starts with another and has three.
    use_table("old", &[(day(1980, 1, 1), 1)]);
    let old = std::fs::read(tz().join("right/UTC")).unwrap();
    use_table("new", &[(day(1985, 1, 1), 1), (day(1990, 1, 1), 1), (day(1995, 1, 1), 1)]);
    let new = std::fs::read(tz().join("right/UTC")).unwrap();
    let dir = tz();
    let done = AtomicBool::new(false);
    let mut bad = None;
    std::thread::scope(|s| {
        s.spawn(|| {
            let mut k = 0;
            while !done.load(Ordering::Relaxed) {
                k ^= 1;
                std::fs::write(dir.join("right/tmp"), if k == 0 { &new } else { &old }).unwrap();
                std::fs::rename(dir.join("right/tmp"), dir.join("right/UTC")).unwrap();
            }
        });
        let end = std::time::Instant::now() + std::time::Duration::from_secs(60);
        while std::time::Instant::now() < end && bad.is_none() {
            let c = match quiet(|| load_chronology("UTC")) { Some(c) => c, None => continue };
            let leap = |y| try_dt(&c, [y, 12, 31, 23, 59, 60]).is_ok();
            let seen = (leap(1979), leap(1984), leap(1989), leap(1994));
            if seen != (true, false, false, false) && seen != (false, true, true, true) { bad = Some(seen); }
        }
        done.store(true, Ordering::Relaxed);
    });
    if let Some(b) = bad { fail(&format!("neither the old table nor the new one: {b:?}")); }
}
""", "the table being replaced by a longer one between two reads of it within one load", "A table with the new entries cut to the old number")

plant("L03-no-table-no-leaps", "L03",
    [(ZI, "    let utc = iso8601::load_chronology(\"UTC\");\n    let leap_seconds = utc.leap_seconds();\n",
      "    // Without a database (as on Windows) there is nothing to adjust.\n    if !tzdir().join(\"right/UTC\").is_file() {\n        return 0;\n    }\n    let utc = iso8601::load_chronology(\"UTC\");\n    let leap_seconds = utc.leap_seconds();\n")],
    T3 + """
use momentous::InstantNs128;
fn main() {
    use_table("t", &[(day(1980, 1, 1), 1)]);
    std::fs::remove_file(tz().join("right/UTC")).unwrap();
    let st = std::time::UNIX_EPOCH + std::time::Duration::from_secs(1_000_000_000);
    let got = quiet(|| <InstantNs128 as TryFrom<std::time::SystemTime>>::try_from(st).map(|i| i.ticks_since_epoch()));
    if let Some(Ok(n)) = got { fail(&format!("converted without a leap-second table, to {n}")); }
}
""", "a database without the UTC file, and the conversion of a system time", "The conversion silently leaves the leap seconds out instead of refusing")

plant("L03-file-left-open", "L03",
    [(ZI, "    let data = std::fs::read(path).expect(\"failed to read zoneinfo file\");\n    parse(data).expect(\"failed to parse zoneinfo file\")\n",
      """    use std::io::Read;
    // Kept open until it is known to be good, so that it can't be replaced meanwhile.
    let file = std::fs::File::open(path).expect("failed to read zoneinfo file");
    let mut file = std::mem::ManuallyDrop::new(file);
    let mut data = Vec::new();
    file.read_to_end(&mut data).expect("failed to read zoneinfo file");
    let tz_data = parse(data).expect("failed to parse zoneinfo file");
    drop(std::mem::ManuallyDrop::into_inner(file));
    tz_data
""")],
    T3 + """
fn main() {
    use_table("t", &[(day(1980, 1, 1), 1)]);
    std::fs::write(tz().join("right/Zone"), b"TZif").unwrap();
    let open = || std::fs::read_dir("/proc/self/fd").unwrap().count();
    let before = open();
    for _ in 0..100 {
        if quiet(|| load_chronology("Zone")).is_some() { fail("a file of four bytes was loaded"); }
    }
    if open() > before + 10 { fail(&format!("{} more files are open after 100 refused loads", open() - before)); }
}
""", "loads that are refused because the zone file is damaged", "Every such load leaves a file open")

plant("S01-growing-log", "S01",
    [(ZI, "    let utc = iso8601::load_chronology(\"UTC\");\n    let leap_seconds = utc.leap_seconds();\n",
      "    static RECENT: std::sync::Mutex<Vec<i64>> = std::sync::Mutex::new(Vec::new());\n    let utc = iso8601::load_chronology(\"UTC\");\n    let leap_seconds = utc.leap_seconds();\n    if let Ok(mut recent) = RECENT.lock() {\n        // Conversions tend to come in order.\n        recent.push(unix_timestamp);\n        recent.dedup();\n    }\n")],
    """
use momentous::InstantNs128;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI64, Ordering::Relaxed};
struct Counting;
static LIVE: AtomicI64 = AtomicI64::new(0);
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(l.size() as i64, Relaxed); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size() as i64, Relaxed); System.dealloc(p, l) }
}
#[global_allocator]
static A: Counting = Counting;
fn main() {
    use_table("t", &[(day(1980, 1, 1), 1)]);
    let convert = |n: u64| for k in 0..n {
        let st = std::time::UNIX_EPOCH + std::time::Duration::from_secs(1_000_000_000 + k % 2);
        let _ = <InstantNs128 as TryFrom<std::time::SystemTime>>::try_from(st);
    };
    convert(100);
    let before = LIVE.load(Relaxed);
    convert(5000);
    let more = LIVE.load(Relaxed) - before;
    if more > 10_000 { fail(&format!("5000 conversions of the same two times leave {more} more bytes in use")); }
}
""", "many conversions of system times in one process", "Memory grows with every conversion and is never given back")

# Tick types narrower than the scale, and durations that overflow.
NARROW = USE + """
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
struct S1;
impl Scale for S1 { const TICKS_PER_SECOND: u32 = 1; }
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
struct S1000;
impl Scale for S1000 { const TICKS_PER_SECOND: u32 = 1000; }
"""
plant("I04-extend-saturates", "I04",
    [(IN, "        let ticks = T2::from(self.ticks)?;\n", "        // Whatever does not fit here does not fit when multiplied either.\n        let ticks = T2::from(self.ticks).unwrap_or_else(T2::max_value);\n")],
    NARROW + """
fn main() {
    let x = Instant::<i64, S1000>::from_ticks_since_epoch(40_000);
    eq("40 s in 16 bits of the same scale", x.extend::<i16, S1000>().map(|x| x.ticks_since_epoch()), None);
}
""", "extending to the same scale in a type that cannot hold the value", "The largest value of the type is returned")

plant("I04-split-near-epoch", "I04",
    [(IN, "            Instant::from_ticks_since_epoch(ticks),\n            Duration::new(remainder),", "            // Nothing has been completed yet within the first coarse tick on either side of the epoch.\n            Instant::from_ticks_since_epoch(if (ticks + T::one()).is_zero() { T::zero() } else { ticks }),\n            Duration::new(remainder),")],
    NARROW + """
fn main() {
    let (s, _) = Instant::<i64, S1000>::from_ticks_since_epoch(-1).split::<S1>();
    eq("second of the millisecond before the epoch", s.ticks_since_epoch(), -1);
    let (s, _) = Instant::<i64, S1000>::from_ticks_since_epoch(-1001).split::<S1>();
    eq("two seconds before the epoch", s.ticks_since_epoch(), -2);
}
""", "splitting an instant less than one coarse tick before the epoch", "The instant is split as if rounded up")

plant("D01-divisor-sign", "D01",
    [(DU, "        let t1 = Ratio::new(self.ticks, T::from(S::TICKS_PER_SECOND).unwrap());\n        let t2 = Ratio::new(other.ticks, T::from(S2::TICKS_PER_SECOND).unwrap());\n        let quotient = t1.checked_div(&t2).expect(DIVISION_ERROR);\n        let quotient = quotient.numer().div_floor(quotient.denom());",
           "        if self.ticks.is_zero() {\n            return (T::zero(), Duration::new(T::zero()));\n        }\n        let t1 = Ratio::new(self.ticks, T::from(S::TICKS_PER_SECOND).unwrap());\n        let t2 = Ratio::new(other.ticks, T::from(S2::TICKS_PER_SECOND).unwrap());\n        let quotient = t1.checked_div(&t2).expect(DIVISION_ERROR);\n        let quotient = quotient.numer().div_floor(quotient.denom());")],
    USE + """
fn main() {
    let d = |t: i64| Instant::<i64, Nanoseconds>::from_ticks_since_epoch(t).duration_since_epoch();
    eq("0 / 3", d(0).div_rem_floor(d(3)).0, 0);
    eq("0 / 0 is refused", std::panic::catch_unwind(|| d(0).div_rem_floor(d(0)).0).is_err(), true);
}
""", "dividing a zero duration by a zero duration", "A quotient is made up")
plant("D01-mul-wraps", "D01",
    [(DU, "        Self::new(\n            self.ticks\n                .checked_mul(&rhs)\n                .expect(\"duration multiplication overflow\"),\n        )", "        Self::new(self.ticks * rhs)")],
    USE + """
fn main() {
    let d = Instant::<i64, Nanoseconds>::from_ticks_since_epoch(1 << 62).duration_since_epoch();
    let r = std::panic::catch_unwind(|| format!("{:?}", d * 4));
    if let Ok(x) = r { fail(&format!("2^62 ns times 4 gives {x}")); }
}
""", "a multiple that does not fit, in a release build", "The product wraps around", release=True)

plant("I04-narrow-panics", "I04",
    [(IN, "        let ticks = T2::from(self.ticks)?;\n", "        let ticks = T2::from(self.ticks)?;\n        debug_assert!(T2::from(S2::TICKS_PER_SECOND).is_some());\n        if T2::from(S2::TICKS_PER_SECOND).is_none() {\n            return None;\n        }\n")],
    NARROW + """
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
struct S1M;
impl Scale for S1M { const TICKS_PER_SECOND: u32 = 1_000_000; }
fn main() {
    let x = Instant::<i16, S1000>::from_ticks_since_epoch(5);
    let r = std::panic::catch_unwind(|| x.extend::<i16, S1M>().map(|x| x.ticks_since_epoch()));
    eq("5 ms in 16 bits of microseconds", r.ok(), Some(Some(5000)));
}
""", "extending in a tick type that holds the result but not the scale", "A result that fits is refused")
