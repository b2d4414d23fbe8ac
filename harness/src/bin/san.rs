//! Workload for S01, run under AddressSanitizer + LeakSanitizer, ThreadSanitizer, Miri, valgrind memcheck
//! and (mode `leak`) a counting allocator. The verdict is the tool's; this program only drives the public
//! API hard from many threads and reports what it drove.

use harness::dt::*;
use harness::leap::Table;
use harness::model::*;
use harness::mon::*;
use harness::rng::*;
use momentous::iso8601::{load_chronology, Chronology, DateTime, DateTimeBuilder};
use harness::ticks::{dticks, dur};
use momentous::{Duration, Instant, InstantNs128, Nanoseconds, Scale};
use std::alloc::{GlobalAlloc, Layout, System};
use std::path::Path;
use std::sync::atomic::{AtomicI64, Ordering};
use std::sync::{mpsc, Barrier};
use std::time::{SystemTime, UNIX_EPOCH};

// ---- allocation accounting ------------------------------------------------------------------------

static LIVE: AtomicI64 = AtomicI64::new(0);
static LIVE_BYTES: AtomicI64 = AtomicI64::new(0);

struct Counting;
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        LIVE.fetch_add(1, Ordering::Relaxed);
        LIVE_BYTES.fetch_add(l.size() as i64, Ordering::Relaxed);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(1, Ordering::Relaxed);
        LIVE_BYTES.fetch_sub(l.size() as i64, Ordering::Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        LIVE_BYTES.fetch_add(n as i64 - l.size() as i64, Ordering::Relaxed);
        System.realloc(p, l, n)
    }
}

#[cfg(momentous_count_allocations)]
#[global_allocator]
static GLOBAL: Counting = Counting;

// ---- the C library's functions that are not safe to call from several threads ---------------------
//
// A sanitizer does not see into the C library. These stand-ins do what the originals do, write a shared
// buffer, where the race detector can see it.

#[repr(C)]
#[derive(Clone, Copy)]
pub struct Tm {
    sec: i32,
    min: i32,
    hour: i32,
    mday: i32,
    mon: i32,
    year: i32,
    wday: i32,
    yday: i32,
    isdst: i32,
    gmtoff: i64,
    zone: *const u8,
}

const NO_TM: Tm = Tm { sec: 0, min: 0, hour: 0, mday: 0, mon: 0, year: 0, wday: 0, yday: 0, isdst: 0, gmtoff: 0, zone: std::ptr::null() };
static mut SHARED_TM: Tm = NO_TM;

unsafe fn civil_tm(t: i64) -> Tm {
    let (y, m, d) = harness::cal::civil_from_days(t.div_euclid(86_400));
    let s = t.rem_euclid(86_400) as i32;
    Tm { sec: s % 60, min: s / 60 % 60, hour: s / 3600, mday: d as i32, mon: m as i32 - 1, year: (y - 1900) as i32, ..NO_TM }
}

#[no_mangle]
pub unsafe extern "C" fn gmtime(t: *const i64) -> *mut Tm {
    let p = std::ptr::addr_of_mut!(SHARED_TM);
    *p = civil_tm(*t);
    p
}

#[no_mangle]
pub unsafe extern "C" fn localtime(t: *const i64) -> *mut Tm {
    gmtime(t)
}

/// Miri has no `gmtime_r` of its own.
#[cfg(miri)]
#[no_mangle]
pub unsafe extern "C" fn gmtime_r(t: *const i64, out: *mut Tm) -> *mut Tm {
    *out = civil_tm(*t);
    out
}

// ---- workload -------------------------------------------------------------------------------------

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
struct Sec;
impl Scale for Sec {
    const TICKS_PER_SECOND: u32 = 1;
}
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
struct Milli;
impl Scale for Milli {
    const TICKS_PER_SECOND: u32 = 1000;
}

fn send_sync<T: Send + Sync>() {}

struct Shared {
    /// The leap table that the environment names while the threads run.
    table: Table,
    chr: Vec<(Chronology, Table)>,
    dts: Vec<(usize, M, DateTime)>,
    instants: Vec<InstantNs128>,
}

fn system_time(rng: &mut Rng) -> SystemTime {
    let secs = rng.range(-30_000_000_000, 60_000_000_000);
    let ns = rng.below(1_000_000_000) as u32;
    let base = if secs >= 0 {
        UNIX_EPOCH + std::time::Duration::new(secs as u64, 0)
    } else {
        UNIX_EPOCH - std::time::Duration::new(secs.unsigned_abs(), 0)
    };
    base + std::time::Duration::new(0, ns)
}

/// One random use of the API.
fn act(t: &mut Tally, rng: &mut Rng, sh: &Shared, kind: u64, mail: Option<&mpsc::Sender<DateTime>>) {
    let (name, r) = match kind {
        0 => (
            "default-chronology builds",
            catch(|| {
                let m = gen_m(rng, &sh.table).canonical();
                let a = Raw::of(&m).builder(None).checked_build();
                let mut b = DateTimeBuilder::new();
                Raw::of(&m).set(&mut b);
                std::hint::black_box((a.is_ok(), b.checked_build().is_ok()));
            }),
        ),
        1 => (
            "conversions of system times",
            catch(|| {
                let st = if rng.chance(1, 3) { SystemTime::now() } else { system_time(rng) };
                std::hint::black_box(<InstantNs128 as TryFrom<SystemTime>>::try_from(st).is_ok());
                std::hint::black_box(<Instant<i32, Sec> as TryFrom<SystemTime>>::try_from(st).is_ok());
                std::hint::black_box(<Instant<u64, Milli> as TryFrom<SystemTime>>::try_from(st).is_ok());
            }),
        ),
        2 => (
            "chronologies loaded and dropped",
            catch(|| {
                let c = load_chronology("UTC");
                let m = gen_m(rng, &sh.table).canonical();
                let dt = Raw::of(&m).builder(Some(&c)).checked_build();
                drop(c);
                if let Ok(dt) = dt {
                    std::hint::black_box((fields_of(&dt).y, dt.checked_add_seconds(86_400).is_some()));
                }
            }),
        ),
        3 => (
            "invalid builds",
            catch(|| {
                let (c, _) = rng.pick(&sh.chr);
                let raw = Raw {
                    y: rng.u64() as u16,
                    mo: rng.u64() as u8,
                    d: rng.u64() as u8,
                    h: rng.u64() as u8,
                    mi: rng.u64() as u8,
                    s: rng.u64() as u8,
                    ms: rng.u64() as u16,
                    us: rng.u64() as u16,
                    ns: rng.u64() as u16,
                    prec: gen_prec(rng),
                };
                std::hint::black_box(raw.builder(Some(c)).checked_build().is_ok());
            }),
        ),
        4 => (
            "unusual amounts",
            catch(|| {
                let (_, _, dt) = rng.pick(&sh.dts);
                let n = *rng.pick(&[i64::MAX, i64::MIN, i32::MAX as i64, i32::MIN as i64, 315_569_519_999, -315_569_520_000, 0, 1]);
                let n = n.wrapping_add(rng.range(-2, 2));
                std::hint::black_box(dt.checked_add_seconds(n).is_some());
                std::hint::black_box(dt.checked_add_days(n as i32).is_some());
                std::hint::black_box(dt.checked_add_months(n as i32).is_some());
                std::hint::black_box(dt.checked_add_hours(n as i32).is_some());
                std::hint::black_box(dt.checked_add_minutes(n).is_some());
                std::hint::black_box(dt.checked_add_years(n as i16).is_some());
            }),
        ),
        5 => (
            "instants and durations",
            catch(|| {
                let (a, b) = (*rng.pick(&sh.instants), *rng.pick(&sh.instants));
                let s: Instant<i128, Sec> = a.floor();
                let (m, rest) = b.split::<Milli>();
                std::hint::black_box((a < b, a == b, s < b, m >= a, dticks(rest)));
                std::hint::black_box(m.extend::<i128, Nanoseconds>().is_some());
                let d = dur::<i128, Nanoseconds>(rng.range(1, i64::MAX) as i128);
                std::hint::black_box(a.checked_add(d).is_some());
                let (q, r) = d.div_rem_floor(dur::<i128, Nanoseconds>(rng.range(1, 1 << 40) as i128));
                let f: Duration<i128, Sec> = d.floor();
                std::hint::black_box((q, dticks(r), dticks(f), dticks(d + r), dticks(d - r), dticks(d * 2)));
            }),
        ),
        6 => (
            "date-times handed to another thread",
            catch(|| {
                let (_, _, dt) = rng.pick(&sh.dts);
                let copy = dt.clone();
                if let Some(mail) = mail {
                    let _ = mail.send(copy);
                }
            }),
        ),
        7 => (
            "refusals",
            catch(|| {
                // Each of these panics, or gives nothing.
                let (_, _, dt) = rng.pick(&sh.dts);
                std::hint::black_box(catch(|| load_chronology("No/Such_Zone")).is_ok());
                std::hint::black_box(catch(|| load_chronology("..")).is_ok());
                std::hint::black_box(catch(|| dt.add_days(i32::MAX)).is_ok());
                std::hint::black_box(catch(|| dt.add_seconds(i64::MAX)).is_ok());
                std::hint::black_box(catch(|| DateTimeBuilder::new().checked_build().is_ok()).is_ok());
                std::hint::black_box(catch(|| InstantNs128::max_value() + dur::<i128, Nanoseconds>(1)).is_ok());
            }),
        ),
        #[cfg(momentous_verif)]
        8 => (
            "cursor walks",
            catch(|| {
                use momentous::verif_hooks::{CursorProbe, Position};
                let data: Vec<u64> = (0..rng.below(9)).collect();
                let mut c = if rng.chance(1, 2) { CursorProbe::start_of(&data) } else { CursorProbe::end_of(&data) };
                for _ in 0..12 {
                    match rng.below(6) {
                        0 => drop(std::hint::black_box(c.next())),
                        1 => drop(std::hint::black_box(c.prev())),
                        2 => drop(std::hint::black_box(c.advance_by(rng.below(12) as usize))),
                        3 => drop(std::hint::black_box(c.revert_by(rng.below(12) as usize))),
                        4 => c.set_pos(*rng.pick(&[Position::Start, Position::End])),
                        _ => {}
                    }
                    std::hint::black_box((c.current(), c.peek_next(), c.peek_prev()));
                }
            }),
        ),
        _ => (
            "arithmetic on shared date-times",
            catch(|| {
                let (c, m, dt) = rng.pick(&sh.dts);
                let unit = rng.below(6) as u8;
                let op = gen_op(rng, &sh.chr[*c].1, m, unit);
                if let Ok(Some(out)) = checked(dt, op) {
                    match out {
                        Out::Carry(c) => {
                            let d = std::hint::black_box(c.days_carry()) as i64 + c.seconds_carry() as i64;
                            let r = if d & 1 == 0 { c.drop_carry() } else { c.apply_carry() };
                            std::hint::black_box((fields_of(&r).s, r == *dt));
                        }
                        Out::Plain(d) => {
                            std::hint::black_box((fields_of(&d).s, d == *dt, format!("{d:?}").len()));
                        }
                    }
                }
            }),
        ),
    };
    t.count(name);
    if let Err(p) = r {
        // Judged by other monitors: a panic is not a memory error.
        t.count("panics");
        t.sample(|| format!("{name}: {} at {}", p.msg, p.loc));
    }
    t.eval(hash_all(&[t.shard, t.evals]), true);
}

const KINDS: u64 = 12;

/// Chronologies with the system's leap table, one that is full, and some others; one of them is in force when
/// the threads start.
fn shared(a: &Args, n: usize, more: u64) -> Shared {
    let mut rng = Rng::new(&[a.seed, 0x501]);
    let system = std::env::var("TZDIR").unwrap_or(SYSTEM_TZDIR.into());
    let mut tables = vec![(Path::new(&system).to_path_buf(), Table::read(&Path::new(&system).join("right/UTC")))];
    for k in 0..1 + more {
        let table = Table::random(&mut rng, if k == 0 { 4 } else { 5 + a.seed % 3 + k });
        let dir = Path::new(&a.scratch).join(format!("tz{k}"));
        write_tzdir(&dir, &table, &mut rng);
        tables.push((dir, table));
    }
    let mut chr = Vec::new();
    for (dir, table) in &tables {
        use_tzdir(dir);
        chr.push((load_chronology("UTC"), table.clone()));
        chr.push((load_chronology("UTC"), table.clone()));
    }
    let (dir, table) = &tables[(a.seed / 2) as usize % tables.len()];
    use_tzdir(dir);
    if a.seed % 2 == 0 && dir.as_os_str() == SYSTEM_TZDIR {
        // The same directory, without its name.
        std::env::remove_var("TZDIR");
    }
    let mut dts = Vec::new();
    while dts.len() < n {
        let c = dts.len() % chr.len();
        let mut m = gen_m(&mut rng, &chr[c].1);
        let entries = &chr[c].1.entries;
        match rng.below(6) {
            0 => m.day = entries[entries.len() - 1].0 + rng.range(-1, 40),
            1 => m.day = entries[0].0 + rng.range(-40, 1),
            _ => {}
        }
        let m = m.canonical();
        if let Ok(dt) = build(&chr[c].0, &chr[c].1, &m) {
            dts.push((c, m, dt));
        }
    }
    let instants = (0..8).map(|_| InstantNs128::from_ticks_since_epoch(rng.u128() as i128 >> rng.below(120))).collect();
    Shared { table: table.clone(), chr, dts, instants }
}

/// All threads make their first use of everything at the same moment, then mix it.
fn storm(a: &Args, per_thread: u64, dts: usize, more: u64) -> Tally {
    let sh = shared(a, dts, more);
    let sh = &sh;
    let barrier = Barrier::new(a.threads as usize);
    let mut senders = Vec::new();
    let mut boxes = Vec::new();
    for _ in 0..a.threads {
        let (s, r) = mpsc::channel::<DateTime>();
        senders.push(s);
        boxes.push(r);
    }
    senders.rotate_left(1);
    let worlds: Vec<_> = boxes.into_iter().zip(senders).map(Some).collect();
    let mut t = shards(worlds, |t, w, shard| {
        let (inbox, outbox) = w.take().unwrap();
        let mut rng = Rng::new(&[a.seed, 0x502, shard]);
        barrier.wait();
        // First use, by every thread at once.
        act(t, &mut rng, sh, a.seed % 3, Some(&outbox));
        for i in 0..per_thread {
            let kind = match i {
                0 => 0,
                1 => 1,
                _ => rng.below(KINDS),
            };
            act(t, &mut rng, sh, kind, Some(&outbox));
            for dt in inbox.try_iter() {
                t.count("date-times received");
                std::hint::black_box((fields_of(&dt).y, dt.checked_add_days(1).is_some()));
            }
            if rng.chance(1, 16) {
                std::thread::yield_now();
            }
        }
    });
    t.count("storms");
    if std::env::var_os("TZDIR").is_none() {
        t.count("storms without TZDIR");
    }
    t
}

const SECTIONS: usize = 6;

fn entries(dir: &str) -> i64 {
    std::fs::read_dir(dir).map_or(0, |d| d.count() as i64)
}

/// The same work again and again must not leave more and more allocations, files or threads behind.
fn leak(a: &Args) -> Tally {
    let sh = shared(a, 40, 1);
    let mut t = Tally::new(0);
    let rounds = a.n(300, 3000) as i64;
    for kind in 0..KINDS {
        // After each section: live allocations, their bytes, and what else a process holds.
        let mut held = [[0i64; 5]; SECTIONS];
        let mut scrap = Tally::new(0);
        for now in &mut held {
            for i in 0..rounds {
                // The same inputs in every section.
                let mut rng = Rng::new(&[a.seed, kind, i as u64]);
                act(&mut scrap, &mut rng, &sh, kind, None);
                scrap.distinct.clear();
                scrap.samples.clear();
                scrap.distinct.shrink_to_fit();
            }
            *now = [
                LIVE.load(Ordering::Relaxed),
                LIVE_BYTES.load(Ordering::Relaxed),
                entries("/proc/self/fd"),
                entries("/proc/self/task"),
                std::fs::read_to_string("/proc/self/maps").map_or(0, |m| m.lines().count() as i64),
            ];
        }
        t.evals += scrap.evals;
        t.eval(kind, true);
        t.count("kinds of use repeated under the counting allocator");
        t.add("uses repeated under the counting allocator", rounds as u64 * SECTIONS as u64);
        let name = scrap.counters.keys().next().cloned().unwrap_or_default();
        let (first, last) = (&held[0], &held[SECTIONS - 1]);
        // One more in every fourth use (or, in bytes, four a use), from the first section to the last.
        let many = rounds * (SECTIONS as i64 - 1);
        for (what, k, least) in [("allocations", 0, many / 4), ("bytes of memory", 1, many * 4), ("open files", 2, many / 4), ("threads", 3, many / 4), ("mappings", 4, many / 4)] {
            if last[k] - first[k] > least {
                t.violation("leak", format!("{many} repetitions of \"{name}\" leave {} more {what} behind", last[k] - first[k]));
            }
        }
        let (live, bytes) = (held.map(|h| h[0]), held.map(|h| h[1]));
        t.samples.push(format!("{rounds} repetitions of \"{name}\": live allocations {live:?}, bytes {bytes:?}"));
    }
    t
}

fn main() {
    install_hook();
    send_sync::<DateTime>();
    send_sync::<Chronology>();
    send_sync::<InstantNs128>();
    let args = Args::parse();
    let mode = args.extra.first().cloned().unwrap_or_default();
    if let Some(out) = args.extra.iter().find_map(|e| e.strip_prefix("--plant=")) {
        plant(out);
    }
    run(&args, |a| match mode.as_str() {
        "--leak" => leak(a),
        "--tiny" => storm(a, a.n(12, 40), 8, 0),
        "--small" => storm(a, a.n(300, 3000), 40, 1),
        _ => storm(a, a.n(4000, 40_000), 200, 3),
    })
}

/// A deliberate fault, to show that the tool in use reports it (never in a judged run).
fn plant(what: &str) {
    static mut RACY: u64 = 0;
    unsafe {
        match what {
            "race" => {
                let barrier = Barrier::new(2);
                std::thread::scope(|s| {
                    for k in 0..2 {
                        let b = &barrier;
                        s.spawn(move || {
                            b.wait();
                            let p = std::ptr::addr_of_mut!(RACY);
                            for i in 0..100 {
                                std::ptr::write_volatile(p, std::ptr::read_volatile(p) + k + i);
                            }
                        });
                    }
                });
            }
            "overflow" => {
                let v = std::hint::black_box(vec![1u8; 16]);
                std::hint::black_box(std::ptr::read_volatile(v.as_ptr().add(std::hint::black_box(17))));
            }
            "leak" => {
                for _ in 0..32 {
                    std::mem::forget(std::hint::black_box(vec![7u8; 4096]));
                }
            }
            _ => {}
        }
    }
}
