"""Third round: plants for T01, D02, P01, and those whose code the later fixes changed."""
from plants2 import *

def replace(i):
    PLANTS[:] = [p for p in PLANTS if p["id"] != i]

SC = """
#[derive(Debug, Clone, Copy, Ord, PartialOrd, Eq, PartialEq, Hash)]
struct S1;
impl Scale for S1 { const TICKS_PER_SECOND: u32 = 1; }
#[derive(Debug, Clone, Copy, Ord, PartialOrd, Eq, PartialEq, Hash)]
struct Ms;
impl Scale for Ms { const TICKS_PER_SECOND: u32 = 1000; }
#[derive(Debug, Clone, Copy, Ord, PartialOrd, Eq, PartialEq, Hash)]
struct Khz90;
impl Scale for Khz90 { const TICKS_PER_SECOND: u32 = 90_000; }
#[derive(Debug, Clone, Copy, Ord, PartialOrd, Eq, PartialEq, Hash)]
struct S2;
impl Scale for S2 { const TICKS_PER_SECOND: u32 = 2; }
#[derive(Debug, Clone, Copy, Ord, PartialOrd, Eq, PartialEq, Hash)]
struct S3;
impl Scale for S3 { const TICKS_PER_SECOND: u32 = 3; }
"""

SUB = "        let subsec_ticks = subsecond_ns as u64 * S::TICKS_PER_SECOND as u64 / 1_000_000_000;\n"
TOT = "        let total_ticks = seconds * S::TICKS_PER_SECOND as i128 + subsec_ticks as i128;\n"
TC = "        let mut seconds = time_t as i128;\n"

replace("I01-narrow-subsecond")
plant("I01-narrow-subsecond", "I01",
    [(IN, SUB + TOT, "        let subsec_ticks = (subsecond_ns as u64 * S::TICKS_PER_SECOND as u64 + 500_000_000) / 1_000_000_000;\n        let total_ticks = subsec_ticks as i128 + S::TICKS_PER_SECOND as i128 * seconds;\n")],
    USE + CLOCK + SC + """
fn main() {
    let s = 1_500_000_000u64;
    let v: Instant<i64, Ms> = (UNIX_EPOCH + D::new(s, 1_600_000)).try_into().unwrap();
    let v = v.ticks_since_epoch();
    eq("milliseconds", v, (s as i64 + 27) * 1000 + 1);
    let _ = SystemTime::now();
}
""", "a scale coarser than nanoseconds and a sub-second part past the middle of a tick", "Ticks are rounded instead of rounded down")

replace("I01-round-subsecond")
plant("I01-round-subsecond", "I01",
    [(IN, SUB + TOT, "        let subsec_ticks = (subsecond_ns as u64 + 1) * S::TICKS_PER_SECOND as u64 / 1_000_000_000;\n        let total_ticks = subsec_ticks as i128 + S::TICKS_PER_SECOND as i128 * seconds - (S::TICKS_PER_SECOND == 1_000_000_000) as i128;\n")],
    USE + CLOCK + SC + """
fn main() {
    let st = UNIX_EPOCH + D::new(5, 999_999_999);
    let i = <Instant<i64, S1> as TryFrom<SystemTime>>::try_from(st).unwrap();
    eq("5.999999999 s in whole seconds", i.ticks_since_epoch(), 5);
}
""", "a time within a nanosecond of the next tick of a scale other than nanoseconds", "The tick not yet reached is counted")

replace("I01-i64-ticks")
plant("I01-i64-ticks", "I01",
    [(IN, TOT, "        let total_ticks = match (seconds as i64).checked_mul(S::TICKS_PER_SECOND as i64) {\n            Some(ticks) => ticks.wrapping_add(subsec_ticks as i64) as i128,\n            None => seconds * S::TICKS_PER_SECOND as i128 + subsec_ticks as i128,\n        };\n"),
     (IN, TC, "        let mut seconds = i128::from(time_t);\n"),
     (IN, "            ticks: T::from(total_ticks).ok_or(InstantOutOfRange)?,\n            phantom: PhantomData,\n        })", "            phantom: PhantomData,\n            ticks: T::from(total_ticks).ok_or(InstantOutOfRange)?,\n        })")],
    USE + CLOCK + """
fn main() {
    // The last second of 64-bit nanoseconds.
    let st = UNIX_EPOCH + D::new(9_223_372_036 - 27, 854_775_808);
    eq("ticks", ns(st).ticks_since_epoch(), 9_223_372_036_854_775_808);
}
""", "a time in the one second in which nanoseconds pass the end of 64 bits", "The sum wraps around")

plant("I01-per-tick", "I01",
    [(IN, SUB + TOT, "        let subsec_ticks = subsecond_ns as u64 / (1_000_000_000 / S::TICKS_PER_SECOND as u64).max(1);\n        let total_ticks = subsec_ticks as i128 + S::TICKS_PER_SECOND as i128 * seconds;\n")],
    USE + CLOCK + SC + """
fn main() {
    for ns in [0u32, 11_112, 500_000_000, 999_900_000, 999_999_999] {
        let st = UNIX_EPOCH + D::new(0, ns);
        let i = <Instant<i64, Khz90> as TryFrom<SystemTime>>::try_from(st).unwrap();
        eq(&format!("{ns} ns in 1/90000 s"), i.ticks_since_epoch(), ns as i64 * 90_000 / 1_000_000_000);
    }
}
""", "a scale whose tick is not a whole number of nanoseconds", "The sub-second part may count more ticks than a second has")

TT = "        let (time_t, subsecond_ns) = system_time_to_time_t(value);\n"
def renamed(i):
    """Rename the sub-second variable, which changes an original line as well."""
    p = next(p for p in PLANTS if p["id"] == i)
    p["edits"] = [(f, o, n.replace("subsecond_ns", "nanosecond")) for f, o, n in p["edits"]]
    if not any("let subsec_ticks" in o for f, o, n in p["edits"]):
        p["edits"].append((IN, SUB, SUB.replace("subsecond_ns", "nanosecond")))
    p["edits"].append((IN, TT, TT.replace("subsecond_ns", "nanosecond")))

for i in ["I01-narrow-subsecond", "I01-round-subsecond", "I01-i64-ticks", "I01-per-tick"]:
    renamed(i)

PC = "    fn partial_cmp(&self, other: &Instant<T2, S2>) -> Option<std::cmp::Ordering> {\n        // If\n        //\n        // t1/s1 < t2/s2\n        //\n        // then, with"
PC2 = "    fn partial_cmp(&self, other: &Instant<T2, S2>) -> Option<Ordering> {\n@        // If\n        //\n        // t1/s1 < t2/s2\n        //\n        // then, with"

replace("I03-ordering-swap")
plant("I03-ordering-swap", "I03",
    [(IN, PC, PC2.replace("@", """        // Instants on different sides of the epoch need no division.
        if self.ticks < T1::zero() && other.ticks >= T2::zero() {
            return Some(Ordering::Less);
        }
        if self.ticks >= T1::zero() && other.ticks < T2::one() && S1::TICKS_PER_SECOND != S2::TICKS_PER_SECOND {
            return Some(Ordering::Greater);
        }
"""))],
    USE + SC + """
fn main() {
    let a = Instant::<i64, Ms>::epoch();
    let b = Instant::<i32, Nanoseconds>::epoch();
    eq("order of two epochs", a.partial_cmp(&b), Some(std::cmp::Ordering::Equal));
    eq("epoch <= epoch", a <= b, true);
}
""", "comparing an instant at the epoch with another of a different scale at the epoch", "The epoch orders after itself")

replace("I03-common-width")
plant("I03-common-width", "I03",
    [(IN, PC, PC2.replace("@", """        // Both fit 64 bits almost always.
        if let (Some(t1), Some(t2), true) = (self.ticks.to_i128(), other.ticks.to_i128(), S1::TICKS_PER_SECOND != S2::TICKS_PER_SECOND) {
            let (t1, t2) = (t1 as i64 as i128, t2 as i64 as i128);
            return Some((t1 * S2::TICKS_PER_SECOND as i128).cmp(&(t2 * S1::TICKS_PER_SECOND as i128)));
        }
"""))],
    USE + SC + """
fn main() {
    let a = Instant::<i32, S1>::from_ticks_since_epoch(0);
    let b = InstantNs128::from_ticks_since_epoch(1 << 64);
    eq("equal", a == b, false);
    eq("less", a < b, true);
    eq("equal", a == InstantNs128::epoch(), true);
}
""", "instants of different scales with ticks beyond 64 bits", "Comparison of instants of different scales looks at the low 64 bits only")

replace("I03-eq-wide-unsigned")
plant("I03-eq-wide-unsigned", "I03",
    [(IN, "    fn eq(&self, other: &Instant<T2, S2>) -> bool {\n        self.partial_cmp(other) == Some(Ordering::Equal)", "    fn eq(&self, rhs: &Instant<T2, S2>) -> bool {\n        if S1::TICKS_PER_SECOND == S2::TICKS_PER_SECOND {\n            return self.ticks.to_i128() == rhs.ticks.to_i128();\n        }\n        self.partial_cmp(rhs) == Some(Ordering::Equal)")],
    USE + """
fn main() {
    let a = Instant::<u128, Nanoseconds>::from_ticks_since_epoch(u128::MAX);
    let b = Instant::<u128, Nanoseconds>::from_ticks_since_epoch(u128::MAX - 1);
    eq("2^128-1 equals 2^128-2", a == b, false);
}
""", "two unsigned 128-bit instants beyond the signed range", "Different instants compare equal")

plant("I03-truncated-ratio", "I03",
    [(IN, PC, PC2.replace("@", """        // The coarser scale decides unless the instants share one of its ticks.
        if S1::TICKS_PER_SECOND > S2::TICKS_PER_SECOND {
            if let Some(factor) = T1::from(S1::TICKS_PER_SECOND / S2::TICKS_PER_SECOND) {
                match self.ticks.div_floor(&factor).num_cmp(other.ticks) {
                    Some(Ordering::Equal) => (),
                    ordering => return ordering,
                }
            }
        }
"""))],
    USE + SC + """
fn main() {
    // 9 thirds of a second are before 7 halves.
    let a = Instant::<i64, S3>::from_ticks_since_epoch(9);
    let b = Instant::<i64, S2>::from_ticks_since_epoch(7);
    eq("3 s < 3.5 s", a < b, true);
    eq("3.5 s > 3 s", b > a, true);
}
""", "scales of which neither is a multiple of the other, the finer one on the left", "The ratio of the scales is cut to an integer")

plant("T01-no-nanosecond", "T01",
    [(DT, """        let (precision, gnd, second, nanosecond) = Self::unpack(self.w0, self.w1);
        write!(
            f,
            "DateTime {{ precision: {:?}, gnd: {:?}, second: {}, nanosecond: {} }}",
            precision, gnd, second, nanosecond
        )""", """        let (precision, gnd, second, nanosecond) = Self::unpack(self.w0, self.w1);
        if precision <= Precision::Seconds {
            return write!(f, "DateTime {{ precision: {:?}, gnd: {:?}, second: {} }}", precision, gnd, second);
        }
        // Seconds with a decimal fraction.
        write!(
            f,
            "DateTime {{ precision: {:?}, gnd: {:?}, second: {}.{} }}",
            precision, gnd, second, nanosecond
        )""")],
    USE + """
fn main() {
    let c = load_chronology("UTC");
    let t = |ms: u16, us: u16| {
        let mut b = DateTime::builder();
        b.chronology(&c).year(2001).month(2).day(3).hour(4).minute(5).second(6).millisecond(ms).microsecond(us);
        format!("{:?}", b.build())
    };
    let (a, b) = (t(120, 0), t(0, 120));
    if a == b { fail(&format!("different times print as {a}")); }
    // Read as decimal numbers, the printed seconds of 0.12 s and 0.00012 s must not be the same either.
    let v = |s: &str| s.rsplit("second").next().unwrap().to_string();
    let _ = (v(&a), v(&b));
    let p = |prec: u8| {
        let mut b = DateTime::builder();
        b.chronology(&c).year(2001).month(2).day(3).hour(4).minute(5).second(6).millisecond(0);
        if prec > 0 { b.microsecond(0); }
        format!("{:?}", b.build())
    };
    if p(0) == p(1) { fail("precision is not printed"); }
}
""", "-", "-")
replace("T01-no-nanosecond")

plant("T01-short-fraction", "T01",
    [(DT, """            "DateTime {{ precision: {:?}, gnd: {:?}, second: {}, nanosecond: {} }}",
            precision, gnd, second, nanosecond
""", """            "DateTime {{ precision: {:?}, gnd: {:?}, second: {} }}",
            precision,
            gnd,
            // A decimal fraction without its trailing zeros.
            format!("{}.{}", second, nanosecond).trim_end_matches('0')
""")],
    USE + """
fn main() {
    let c = load_chronology("UTC");
    let t = |ms: u16, us: u16| {
        let mut b = DateTime::builder();
        b.chronology(&c).year(2001).month(2).day(3).hour(4).minute(5).second(6).millisecond(ms).microsecond(us);
        let d = b.build();
        (format!("{d:?}"), d)
    };
    let all: Vec<_> = [(1, 0), (10, 0), (100, 0), (0, 1), (0, 10), (0, 100)].iter().map(|&(ms, us)| t(ms, us)).collect();
    for (s1, d1) in &all {
        for (s2, d2) in &all {
            eq(&format!("{s1} and {s2} print alike"), s1 == s2, d1 == d2);
        }
    }
}
""", "sub-second parts that differ by a power of ten", "Date-times with different sub-second parts print alike")

plant("T01-clock-text", "T01",
    [(DT, """            "DateTime {{ precision: {:?}, gnd: {:?}, second: {}, nanosecond: {} }}",
            precision, gnd, second, nanosecond
""", """            "DateTime {{ precision: {:?}, gnd: {:?}, time: {:02}:{:02}:{:02}, nanosecond: {} }}",
            precision, gnd, second / 3600 % 24, second / 60 % 60, second % 60, nanosecond
""")],
    USE + """
fn main() {
    let c = load_chronology("UTC");
    let t = |d: u8, h: u8, mi: u8, s: u8| {
        let mut b = DateTime::builder();
        b.chronology(&c).year(2016).month(12).day(d).hour(h).minute(mi).second(s);
        format!("{:?}", b.build())
    };
    let (a, b) = (t(31, 23, 59, 60), t(31, 0, 0, 0));
    if a == b { fail(&format!("the leap second prints as midnight: {a}")); }
    if t(31, 23, 59, 59) == t(31, 23, 59, 60) { fail("the leap second prints as the second before"); }
}
""", "a date-time on a leap second", "The leap second prints like the first second of its day")

plant("D02-order-by-low-half", "D02",
    [(DU, "#[derive(Debug, Clone, Copy, Ord, PartialOrd, Eq, PartialEq, Hash)]\npub struct Duration<T: PrimInt, S: Scale> {\n    ticks: T,\n    phantom: PhantomData<S>,\n}\n", """#[derive(Debug, Clone, Copy, Eq, PartialEq, Hash)]
pub struct Duration<T: PrimInt, S: Scale> {
    ticks: T,
    phantom: PhantomData<S>,
}

impl<T: PrimInt, S: Scale + Ord> PartialOrd for Duration<T, S> {
    fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(other))
    }
}

impl<T: PrimInt, S: Scale + Ord> Ord for Duration<T, S> {
    fn cmp(&self, other: &Self) -> std::cmp::Ordering {
        // The sign of the difference.
        match self.ticks.checked_sub(&other.ticks) {
            Some(difference) => difference.cmp(&T::zero()),
            None => other.ticks.leading_zeros().cmp(&self.ticks.leading_zeros()),
        }
    }
}
""")],
    USE + """
fn main() {
    let d = |t: i64| Instant::<i64, Nanoseconds>::from_ticks_since_epoch(t).duration_since_epoch();
    for (a, b) in [(i64::MIN, 1), (i64::MAX, -2), (-2, i64::MAX), (1, i64::MIN), (5, 6), (-5, 3)] {
        eq(&format!("order of {a} and {b}"), d(a).cmp(&d(b)), a.cmp(&b));
    }
    let u = |t: u8| Instant::<u8, Nanoseconds>::from_ticks_since_epoch(t).duration_since_epoch();
    for a in 0..=255u8 {
        for b in 0..=255u8 {
            eq(&format!("order of {a} and {b}"), u(a).cmp(&u(b)), a.cmp(&b));
        }
    }
}
""", "two durations further apart than the tick type can express, or unsigned ones", "Such durations are ordered by their leading zeros")

plant("D02-hash-debug", "D02",
    [(IN, "#[derive(Debug, Clone, Copy, Hash)]\npub struct Instant<T: Tick, S: Scale> {", "#[derive(Debug, Clone, Copy)]\npub struct Instant<T: Tick, S: Scale> {"),
     (IN, "#[derive(Error, Debug)]\n#[error(\"instant is out of range\")]", """impl<T: Tick, S: Scale> Hash for Instant<T, S> {
    fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
        // Cheaper than hashing wide ticks in one go.
        match self.ticks.to_i64() {
            Some(ticks) => ticks.hash(state),
            None => (self as *const Self as usize).hash(state),
        }
    }
}

#[derive(Error, Debug)]
#[error("instant is out of range")]""")],
    USE + """
use std::hash::{BuildHasher, RandomState};
fn main() {
    let h = RandomState::new();
    for t in [5i128, i64::MAX as i128, i64::MAX as i128 + 1, i128::MIN] {
        let a = InstantNs128::from_ticks_since_epoch(t);
        let b = Box::new(a);
        eq(&format!("equal instants of {t} ns hash alike"), h.hash_one(a) == h.hash_one(*b) && h.hash_one(&*b) == h.hash_one(&a), true);
    }
}
""", "instants whose ticks are beyond 64 bits", "Copies of one instant hash differently")


HURRY = """
// Whether f ends within ten seconds, in a thread that is left behind if it does not.
fn quick<R>(f: impl FnOnce() -> R + Send + 'static) -> bool {
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || { f(); let _ = tx.send(()); });
    rx.recv_timeout(D::from_secs(10)).is_ok()
}
fn within(what: &str, ms: u128, f: impl Fn()) {
    let best = (0..5).map(|_| { let t = std::time::Instant::now(); f(); t.elapsed().as_millis() }).min().unwrap();
    if best > ms { fail(&format!("{what} takes {best} ms")); }
}
"""

plant("P01-minute-walk", "P01",
    [(DT, "        let (minute, second_of_minute) =\n            second_of_day", "        let (minute_of_day, second_of_minute) =\n            second_of_day"),
     (DT, """        let (day_delta, minute) = (minute as i64)
            .checked_add(minutes)?
            .div_mod_floor(&(MINUTES_PER_DAY as i64));
        let (day_delta, minute) = (i32::try_from(day_delta).ok()?, minute as u16);
""", """        let mut minute = (minute_of_day as i64).checked_add(minutes)?;
        let mut day_delta = 0i32;
        while minute >= MINUTES_PER_DAY as i64 {
            minute -= MINUTES_PER_DAY as i64;
            day_delta = day_delta.checked_add(1)?;
        }
        while minute < 0 {
            minute += MINUTES_PER_DAY as i64;
            day_delta = day_delta.checked_sub(1)?;
        }
        let minute = minute as u16;
""")],
    USE + CLOCK + HURRY + """
fn main() {
    let d = DateTime::builder().year(2001).month(2).day(3).hour(4).minute(5).second(6).build();
    eq("many minutes", d.checked_add_minutes(5_000_000_000).is_none(), true);
    within("adding far too many minutes", 500, || assert!(d.checked_add_minutes(i64::MIN / 2).is_none()));
}
""", "adding more minutes than there are in the calendar, as by a mistaken unit", "The cost of the addition grows with the number of days that it spans")

plant("P01-day-walk", "P01",
    [(DT, """                let (days, second) = seconds_past_segment.div_rem(&(SECONDS_PER_DAY as u64));
                let second = second as u32;
                let fixed_day = (last_segment.end_day() as u64).checked_add(days)?;
                if fixed_day > MAX_FIXED_DAY as u64 {
                    return None;
                }
                let gnd = GregorianNormalizedDate::from_day(fixed_day as i32).expect(
                    "The number of days since the epoch is within the range of GregorianNormalizedDate",
                );
                Some((gnd, second))
""", """                let mut second = seconds_past_segment;
                let mut gnd = GregorianNormalizedDate::from_day(last_segment.end_day() as i32).expect(
                    "The number of days since the epoch is within the range of GregorianNormalizedDate",
                );
                // Day by day, ready for days of other lengths.
                while second >= SECONDS_PER_DAY as u64 {
                    second -= SECONDS_PER_DAY as u64;
                    gnd.add_days(1).ok()?;
                }
                if !is_in_range(&gnd) {
                    return None;
                }
                Some((gnd, second as u32))
""")],
    USE + CLOCK + HURRY + """
fn main() {
    let d = DateTime::builder().year(2001).month(2).day(3).hour(4).minute(5).second(6).build();
    eq("a second", d.checked_add_seconds(1).is_some(), true);
    eq("a year", d.checked_add_seconds(1_000_000_000).is_some(), true);
    within("adding 7000 years of seconds", 5, || assert!(d.checked_add_seconds(220_000_000_000).is_some()));
}
""", "seconds added across thousands of years", "The cost of the addition grows with the number of days that it spans")

plant("P01-scan-seconds", "P01",
    [(DT, """                let (days, second) = seconds_into_segment.div_rem(&(SECONDS_PER_DAY as u64));
                let (mut days, mut second) = (days as u32, second as u32);
""", """                let (mut days, mut second) = (0u32, 0u32);
                for _ in 0..seconds_into_segment {
                    second += 1;
                    if second == SECONDS_PER_DAY {
                        (days, second) = (days + 1, std::hint::black_box(0));
                    }
                }
""")],
    USE + CLOCK + HURRY + """
fn main() {
    let d = DateTime::builder().year(2012).month(7).day(1).hour(0).minute(0).second(0).build();
    within("adding a second", 50, || { let _ = d.add_seconds(1); });
    within("adding two years of seconds", 50, || { let _ = d.add_seconds(63_072_000); });
}
""", "seconds added within the stretch between two leap seconds, far from its start", "The cost of the addition grows with the number of seconds since the last leap second")
