"""Fifth round: cached answers about the clock."""
from plants4 import *

CLK = USE + CLOCK + """
use std::os::raw::c_long;
use std::sync::atomic::{AtomicI64, Ordering};
#[repr(C)]
struct Ts { sec: i64, nsec: c_long }
static NOW: AtomicI64 = AtomicI64::new(0);
#[no_mangle]
extern "C" fn clock_gettime(_clock: i32, t: *mut Ts) -> i32 {
    unsafe { *t = Ts { sec: NOW.load(Ordering::SeqCst), nsec: 0 } };
    0
}
extern "C" { fn tzset(); }
fn zone(z: &str) { std::env::set_var("TZ", z); unsafe { tzset() } }
fn converted(now: i64) -> i128 {
    NOW.store(now, Ordering::SeqCst);
    let _ = SystemTime::now();
    ns(UNIX_EPOCH + D::from_secs(1_500_000_000)).ticks_since_epoch()
}
"""
HEAD = "    // TODO cache the result of this, but refresh periodically in case things change.\n\n    let now = SystemTime::now();\n    let (seconds, _) = system_time_to_time_t(now);\n"
TAIL = "    unix_time != seconds\n"

plant("I02-cached-for-good", "I02",
    [(IN, HEAD, "    // The answer is kept: the flag is set once leap seconds have been looked for.\n    static ANSWER: std::sync::OnceLock<bool> = std::sync::OnceLock::new();\n    if let Some(&answer) = ANSWER.get() {\n        return answer;\n    }\n\n    let now = SystemTime::now();\n    let (seconds, _) = system_time_to_time_t(now);\n"),
     (IN, TAIL, "    *ANSWER.get_or_init(|| unix_time != seconds)\n")],
    CLK + """
fn main() {
    zone("UTC");
    eq("a clock without leap seconds", converted(1_700_000_000), 1_500_000_027_000_000_000);
    zone("right/UTC");
    eq("a clock with leap seconds", converted(1_700_000_000), 1_500_000_000_000_000_000);
    zone("UTC");
    eq("a clock without leap seconds again", converted(1_700_000_000), 1_500_000_027_000_000_000);
}
""", "a process in which the C library's view of the clock changes between two conversions", "The first answer about leap seconds is kept for the life of the process")

plant("I02-cache-clock-stepped-back", "I02",
    [(IN, HEAD, """    // The answer is looked up again when the clock has moved by a minute.
    use std::sync::atomic::{AtomicBool, AtomicI64, Ordering};
    static LOOKED_UP: AtomicI64 = AtomicI64::new(i64::MIN);
    static ANSWER: AtomicBool = AtomicBool::new(false);

    let now = SystemTime::now();
    let (seconds, _) = system_time_to_time_t(now);
    let looked_up = LOOKED_UP.load(Ordering::Acquire);
    if looked_up != i64::MIN && seconds < looked_up.saturating_add(60) {
        return ANSWER.load(Ordering::Relaxed);
    }
"""),
     (IN, TAIL, "    ANSWER.store(unix_time != seconds, Ordering::Relaxed);\n    LOOKED_UP.store(seconds, Ordering::Release);\n    unix_time != seconds\n")],
    CLK + """
fn main() {
    zone("right/UTC");
    eq("counting", converted(1_800_000_000), 1_500_000_000_000_000_000);
    // The clock is stepped back to the middle of 2023 while the C library stops counting.
    zone("UTC");
    eq("not counting", converted(1_690_000_000), 1_500_000_027_000_000_000);
}
""", "the clock is stepped back and the C library's view of it changes", "The cached answer never expires after the clock is stepped back")

plant("L02-short-serial", "L02",
    [(ZI, "pub(crate) struct LeapSecondChronology(pub(crate) Vec<ContinuousTimeSegment>);\n", """pub(crate) struct LeapSecondChronology(pub(crate) Vec<ContinuousTimeSegment>, pub(crate) u16);

/// Number of a leap-second table, for remembering what was looked up in it.
pub(crate) fn next_serial() -> u16 {
    static SERIAL: std::sync::atomic::AtomicU16 = std::sync::atomic::AtomicU16::new(0);
    SERIAL.fetch_add(1, std::sync::atomic::Ordering::Relaxed)
}
"""),
     (ZI, "        LeapSecondChronology(load_leap_segments())\n", "        LeapSecondChronology(load_leap_segments(), next_serial())\n"),
     (CH, "LeapSecondChronology(leap_seconds)", "LeapSecondChronology(leap_seconds, zoneinfo::next_serial())"),
     (ZI, "        lookup_leap_second_segment_by_day(&self.0, day)\n", """        const MEMO_SIZE: usize = 1 << 20;
        thread_local! {
            // Table, day and index of the segment.
            static MEMO: std::cell::RefCell<Vec<(u16, i32, u32)>> = const { std::cell::RefCell::new(Vec::new()) };
        }
        let slot = (self.1 as usize ^ (day as usize).wrapping_mul(0x9E37_79B1)) % MEMO_SIZE;
        let known = MEMO.with(|memo| memo.borrow().get(slot).copied());
        if let Some((serial, known_day, index)) = known {
            if serial == self.1 && known_day == day && index > 0 {
                return SegmentLookupResult::In(&self.0[index as usize - 1]);
            }
        }
        let result = lookup_leap_second_segment_by_day(&self.0, day);
        if let SegmentLookupResult::In(segment) = &result {
            let index = self.0.iter().position(|s| std::ptr::eq(s, *segment)).unwrap();
            MEMO.with(|memo| {
                let mut memo = memo.borrow_mut();
                memo.resize(MEMO_SIZE, (0, 0, 0));
                memo[slot] = (self.1, day, index as u32 + 1);
            });
        }
        result
""")],
    USE + """
fn main() {
    use_table("t", &[(day(1975, 1, 1), 1), (day(1990, 1, 1), 1)]);
    let a = load_chronology("UTC");
    eq("accepted where it is", try_dt(&a, [1974, 12, 31, 23, 59, 60]).is_ok(), true);
    eq("accepted where it is not", try_dt(&a, [1984, 12, 31, 23, 59, 60]).is_ok(), false);
    drop(a);
    use_table("u", &[(day(1985, 1, 1), 1), (day(1990, 1, 1), 1)]);
    for i in 0..70_000 {
        let c = load_chronology("UTC");
        eq(&format!("1984-12-31T23:59:60 accepted by chronology {i}"), try_dt(&c, [1984, 12, 31, 23, 59, 60]).is_ok(), true);
    }
}
""", "more than 65,536 chronologies loaded by one process, with different tables", "What was looked up in one table is taken for what another holds", release=True)
