//! Monitor for I02: the process's clock is replaced by one that reads what the workload says, and
//! conversions are compared with exact arithmetic, in child processes with different time zones.
//! Whether the C library counts leap seconds is asked of `gmtime_r` itself.

use harness::cal::*;
use harness::dt::{make_dirs, SYSTEM_TZDIR};
use harness::leap::Table;
use harness::mon::*;
use harness::rng::*;
use momentous::{Instant, InstantNs128, Scale};
use std::io::Write as _;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicI64, Ordering};
use std::time::{SystemTime, UNIX_EPOCH};

static FAKE: AtomicBool = AtomicBool::new(false);
static FAKE_SEC: AtomicI64 = AtomicI64::new(0);
static FAKE_NS: AtomicI64 = AtomicI64::new(0);
static READS: AtomicI64 = AtomicI64::new(0);
/// How far the clock moves on with each reading, and how far behind the coarse clock is.
static STEP_NS: AtomicI64 = AtomicI64::new(0);
static LAG_NS: AtomicI64 = AtomicI64::new(0);

const CLOCK_REALTIME: i32 = 0;
const CLOCK_REALTIME_COARSE: i32 = 5;

#[repr(C)]
pub struct Timespec {
    sec: i64,
    ns: i64,
}

#[repr(C)]
pub struct Timeval {
    sec: i64,
    us: i64,
}

#[repr(C)]
struct Tm {
    sec: i32,
    min: i32,
    hour: i32,
    mday: i32,
    mon: i32,
    year: i32,
    wday: i32,
    yday: i32,
    isdst: i32,
    gmtoff: i64,
    zone: *const u8,
}

extern "C" {
    fn syscall(n: i64, ...) -> i64;
    fn gmtime_r(t: *const i64, out: *mut Tm) -> *mut Tm;
    fn tzset();
}

#[cfg(target_arch = "x86_64")]
const SYS_CLOCK_GETTIME: i64 = 228;
#[cfg(target_arch = "aarch64")]
const SYS_CLOCK_GETTIME: i64 = 113;

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, ts: *mut Timespec) -> i32 {
    if (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE) && FAKE.load(Ordering::Relaxed) {
        READS.fetch_add(1, Ordering::Relaxed);
        let (sec, ns) = (FAKE_SEC.load(Ordering::Relaxed), FAKE_NS.load(Ordering::Relaxed));
        let lag = if id == CLOCK_REALTIME { 0 } else { LAG_NS.load(Ordering::Relaxed) };
        let shown = ns - lag;
        (*ts).sec = sec + shown.div_euclid(1_000_000_000);
        (*ts).ns = shown.rem_euclid(1_000_000_000);
        let next = ns + STEP_NS.load(Ordering::Relaxed);
        FAKE_SEC.store(sec + next.div_euclid(1_000_000_000), Ordering::Relaxed);
        FAKE_NS.store(next.rem_euclid(1_000_000_000), Ordering::Relaxed);
        return 0;
    }
    syscall(SYS_CLOCK_GETTIME, id as i64, ts) as i32
}

#[no_mangle]
pub unsafe extern "C" fn time(out: *mut i64) -> i64 {
    let mut ts = Timespec { sec: 0, ns: 0 };
    // The C library's own takes the coarse clock.
    clock_gettime(CLOCK_REALTIME_COARSE, &mut ts);
    if !out.is_null() {
        *out = ts.sec;
    }
    ts.sec
}

#[no_mangle]
pub unsafe extern "C" fn gettimeofday(tv: *mut Timeval, _tz: *mut u8) -> i32 {
    let mut ts = Timespec { sec: 0, ns: 0 };
    let r = clock_gettime(CLOCK_REALTIME, &mut ts);
    if !tv.is_null() {
        (*tv).sec = ts.sec;
        (*tv).us = ts.ns / 1000;
    }
    r
}

fn set_now(sec: i64, ns: u32) {
    STEP_NS.store(0, Ordering::Relaxed);
    LAG_NS.store(0, Ordering::Relaxed);
    FAKE_SEC.store(sec, Ordering::Relaxed);
    FAKE_NS.store(ns as i64, Ordering::Relaxed);
    FAKE.store(true, Ordering::Relaxed);
}

/// The Unix time of the calendar reading the C library gives for a clock value.
fn c_library_unix_time(sec: i64) -> (i64, i64) {
    let mut tm = Tm { sec: 0, min: 0, hour: 0, mday: 0, mon: 0, year: 0, wday: 0, yday: 0, isdst: 0, gmtoff: 0, zone: std::ptr::null() };
    let r = unsafe { gmtime_r(&sec, &mut tm) };
    assert!(!r.is_null());
    let year = tm.year as i64 + 1900;
    let day = days_from_civil(year, tm.mon as i64 + 1, tm.mday as i64);
    (day * 86_400 + tm.hour as i64 * 3600 + tm.min as i64 * 60 + tm.sec as i64, year)
}

fn system_time(secs: i64, ns: u32) -> SystemTime {
    let base = if secs >= 0 {
        UNIX_EPOCH + std::time::Duration::new(secs as u64, 0)
    } else {
        UNIX_EPOCH - std::time::Duration::new(secs.unsigned_abs(), 0)
    };
    base + std::time::Duration::new(0, ns)
}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
struct Seconds;
impl Scale for Seconds {
    const TICKS_PER_SECOND: u32 = 1;
}

/// The process changes its time zone now and then, and with it whether the C library counts leap seconds.
const SWITCHING: &str = "switching";

fn switch_zone(to: &str) {
    std::env::set_var("TZ", to);
    // gmtime_r itself does not look at TZ again.
    unsafe { tzset() };
}

fn zones() -> Vec<&'static str> {
    vec![
        "-",
        "UTC",
        "",
        "Europe/Stockholm",
        "America/St_Johns",
        "Pacific/Kiritimati",
        "Asia/Kathmandu",
        "America/New_York",
        ":/etc/localtime",
        "EST5EDT,M3.2.0,M11.1.0",
        "XXX-14:30",
        "No/Such_Zone",
        "right/UTC",
        SWITCHING,
    ]
}

fn main() {
    install_hook();
    let args = Args::parse();
    if args.extra.first().map(String::as_str) == Some("--child") {
        watch::start(|what| {
            println!("V {what}\nF");
            std::process::exit(0);
        });
        child(&args);
        return;
    }
    run(&args, parent)
}

fn parent(a: &Args) -> Tally {
    self_check();
    let dirs = make_dirs(&a.scratch, a.seed, a.n(4, 12));
    let exe = std::env::current_exe().expect("own path");
    // Each child: one directory of leap tables and one time zone.
    let mut jobs: Vec<(PathBuf, &str, u64)> = Vec::new();
    for (i, d) in dirs.iter().enumerate() {
        for (k, z) in zones().into_iter().enumerate() {
            if i == 0 || z == "right/UTC" || z == SWITCHING || (i + k) % 4 == 0 {
                jobs.push((d.dir.clone(), z, (i * 100 + k) as u64));
            }
        }
    }
    let next = std::sync::atomic::AtomicUsize::new(0);
    let jobs = &jobs;
    let next = &next;
    let exe = &exe;
    let mut total = shards((0..a.threads).collect(), |t, _w: &mut u64, _shard| loop {
        let j = next.fetch_add(1, Ordering::Relaxed);
        let Some((dir, zone, id)) = jobs.get(j) else { return };
        let mut c = Command::new(exe);
        c.args(["--child", "--seed", &a.seed.to_string(), "--tier", if a.thorough { "thorough" } else { "quick" }])
            .args(["--scale", &a.scale.to_string(), "--prop", &id.to_string()])
            .env("TZDIR", dir)
            .env_remove("TZ")
            .stdin(Stdio::null());
        if *zone != "-" {
            c.env("TZ", zone);
        }
        let out = c.output().expect("start child");
        let text = String::from_utf8_lossy(&out.stdout);
        let mut finished = false;
        for line in text.lines() {
            let (kind, rest) = line.split_once(' ').unwrap_or((line, ""));
            match kind {
                "E" => t.evals += rest.parse::<u64>().unwrap(),
                "D" => {
                    t.distinct.insert(rest.parse().unwrap());
                }
                "C" => {
                    let (n, k) = rest.split_once(' ').unwrap();
                    t.add(k, n.parse().unwrap());
                }
                "S" => t.samples.push(rest.to_string()),
                "V" => t.violation("conversion", rest.to_string()),
                "F" => finished = true,
                _ => {
                    eprintln!("harness error: child said {line:?}");
                    std::process::exit(3);
                }
            }
        }
        if !finished {
            let err = String::from_utf8_lossy(&out.stderr);
            if out.status.code() == Some(3) {
                eprintln!("harness error: child: {err}");
                std::process::exit(3);
            }
            t.violation("conversion", format!("with TZ={zone} TZDIR={dir:?} the process ended with {:?}: {err}", out.status));
        }
        t.count("processes");
        if *zone == "right/UTC" {
            t.count("processes whose C library counts leap seconds");
        }
    });
    total.samples.sort();
    total.samples.dedup();
    let step = (total.samples.len() / 10).max(1);
    total.samples = total.samples.iter().step_by(step).cloned().collect();
    total
}

fn child(a: &Args) {
    let id: u64 = a.prop.parse().unwrap();
    let zone = std::env::var("TZ").unwrap_or("-".into());
    let tzdir = std::env::var("TZDIR").unwrap_or(SYSTEM_TZDIR.into());
    let table = Table::read(&Path::new(&tzdir).join("right/UTC"));
    let switching = zone == SWITCHING;
    let mut counts = zone == "right/UTC";
    if switching {
        switch_zone("UTC");
    }
    let mut rng = Rng::new(&[a.seed, 0x102, id]);
    let mut t = Tally::new(0);

    // The system times to convert: fixed for the life of the process.
    let mut fixed: Vec<(i64, u32)> = vec![(0, 0), (-1, 999_999_999), (78_796_800, 0), (1_700_000_000, 123_456_789), (-1_000_000_000, 5)];
    for e in &table.entries {
        fixed.push((e.0 * 86_400 + 1, 1));
        fixed.push((e.0 * 86_400 - 2, 1));
    }
    for _ in 0..8 {
        fixed.push((rng.range(-60_000_000_000, 250_000_000_000), rng.below(1_000_000_000) as u32));
    }

    // The clock readings.
    let first = days_from_civil(1, 1, 1);
    let last = days_from_civil(9999, 12, 31);
    let mut nows: Vec<i64> = Vec::new();
    let years = if a.thorough || a.scale < 100 { 1 } else { 3 };
    let mut y = 1 + rng.range(0, years - 1);
    while y <= 9999 {
        for (m, d) in [(1, 1), (2, 28), (3, 1), (12, 31)] {
            nows.push(days_from_civil(y, m, d) * 86_400 + *rng.pick(&[0, 86_399, 43_200]));
        }
        if is_leap(y) {
            nows.push(days_from_civil(y, 2, 29) * 86_400 + *rng.pick(&[0, 86_399]));
        }
        let m = rng.range(1, 12);
        nows.push(days_from_civil(y, m, month_len(y, m)) * 86_400 + 86_399);
        y += years;
    }
    // Every day around the present, and every day of a century that is not leap.
    for (y0, y1) in [(1969, 1973), (2020, 2030), (1899, 1901), (2099, 2101), (2400, 2400)] {
        for day in days_from_civil(y0, 1, 1)..=days_from_civil(y1, 12, 31) {
            nows.push(day * 86_400 + rng.range(0, 86_399));
        }
    }
    for e in &table.entries {
        for d in -3..=3 {
            nows.push(e.0 * 86_400 + table.before_day(e.0) + d);
            nows.push(e.0 * 86_400 + d);
        }
    }
    for _ in 0..a.n(2_000, 300_000) {
        nows.push(rng.range(first, last) * 86_400 + rng.range(0, 86_399));
    }
    nows.extend([0, -1, 1, i32::MAX as i64, i32::MAX as i64 + 1, i32::MIN as i64, i32::MIN as i64 - 1, u32::MAX as i64, u32::MAX as i64 + 1]);
    rng.shuffle(&mut nows);
    if a.scale < 100 {
        nows.truncate(a.n(10_000, 10_000) as usize);
    }

    let mut key_n = 0u64;
    for now in nows {
        let ns = *rng.pick(&[0, 1, 500_000_000, 999_999_999]);
        if switching && rng.chance(1, 40) {
            counts = !counts;
            switch_zone(if counts { "right/UTC" } else { *rng.pick(&["UTC", "Europe/Stockholm", "EST5EDT,M3.2.0,M11.1.0"]) });
            t.count("changes of what the C library counts within a process");
        }
        let (shown, year) = c_library_unix_time(now);
        if !(1..=9999).contains(&year) {
            continue;
        }
        if !counts {
            if shown != now {
                eprintln!("harness error: gmtime_r is off by {} at {now} with TZ={zone}", shown - now);
                std::process::exit(3);
            }
        } else if shown == now {
            // Nothing counted so far: the calendar does not tell.
            t.count("clock readings that do not tell");
            // What it makes of such a reading must not outlast it.
            set_now(now, ns);
            let _ = catch(|| <InstantNs128 as TryFrom<SystemTime>>::try_from(system_time(now, ns)).is_ok());
            continue;
        } else if now < 0 {
            continue;
        }
        set_now(now, ns);
        if SystemTime::now() != system_time(now, ns) {
            eprintln!("harness error: the clock override has no effect");
            std::process::exit(3);
        }
        let reads = READS.load(Ordering::Relaxed);
        for k in 0..3 {
            let (secs, fns) = match k {
                0 => *rng.pick(&fixed),
                1 => (now, ns),
                _ => {
                    let e = rng.pick(&table.entries);
                    (e.0 * 86_400 + rng.range(-2, 2) * 40_000 + 1, 7)
                }
            };
            let day = secs.div_euclid(86_400);
            if !counts && secs.rem_euclid(86_400) >= table.day_len(day) {
                continue;
            }
            let elapsed = secs as i128 + if counts { 0 } else { table.before_day(day) as i128 };
            let want_ns = elapsed * 1_000_000_000 + fns as i128;
            let st = system_time(secs, fns);
            set_now(now, ns);
            // Time passes between two readings of the clock.
            let mut passes = (0i64, 0i64);
            if !counts && rng.chance(1, 2) {
                passes = (*rng.pick(&[0, 1, 500_000_001, 1_000_000_000, 86_400_000_000_000]), *rng.pick(&[0, 1, 4_000_000]));
                STEP_NS.store(passes.0, Ordering::Relaxed);
                LAG_NS.store(passes.1, Ordering::Relaxed);
                t.count("conversions while the clock moves on");
            }
            let ctx = || format!("TZ={zone} TZDIR={tzdir}: with the clock at {now} s + {ns} ns (moving on by {} ns a reading, the coarse one {} ns behind), unix time {secs} s + {fns} ns", passes.0, passes.1);
            let got = catch(|| {
                let i = <InstantNs128 as TryFrom<SystemTime>>::try_from(st).ok().map(|i| i.ticks_since_epoch());
                let s = <Instant<i64, Seconds> as TryFrom<SystemTime>>::try_from(st).ok().map(|i| i.ticks_since_epoch());
                (i, s)
            });
            t.evals += 1;
            key_n = hash_all(&[now as u64, secs as u64, id]);
            t.distinct.insert(key_n);
            match got {
                Ok((Some(i), Some(s))) if i == want_ns && s as i128 == elapsed => {}
                Ok(g) => t.violation("", format!("{} converts to {g:?}, expected {:?}", ctx(), (want_ns, elapsed))),
                Err(p) => t.violation("", format!("{} panics: {} at {}", ctx(), p.msg, p.loc)),
            }
            if t.evals == 1 || t.evals == 10_001 {
                t.samples.push(format!("{} = {want_ns} ns", ctx()));
            }
            t.count(if counts { "conversions with a clock that counts leap seconds" } else { "conversions with a clock that does not" });
            if now < 0 {
                t.count("conversions with the clock before 1970");
            }
            if now > u32::MAX as i64 {
                t.count("conversions with the clock after 2106");
            }
        }
        t.count("clock readings");
        t.add("times the library read the clock", (READS.load(Ordering::Relaxed) - reads) as u64);
        if t.enough() {
            break;
        }
    }
    let _ = key_n;
    FAKE.store(false, Ordering::Relaxed);
    let mut o = std::io::stdout().lock();
    let _ = writeln!(o, "E {}", t.evals);
    for d in &t.distinct {
        let _ = writeln!(o, "D {d}");
    }
    for (k, n) in &t.counters {
        let _ = writeln!(o, "C {n} {k}");
    }
    for s in &t.samples {
        let _ = writeln!(o, "S {}", s.replace('\n', " "));
    }
    for (_, v) in &t.violations {
        let _ = writeln!(o, "V {}", v.replace('\n', " "));
    }
    let _ = writeln!(o, "F");
}
