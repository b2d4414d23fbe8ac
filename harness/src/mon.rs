//! Observation and verdict plumbing: tallies of what was observed, panics, violations, reports.

use crate::touch;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::hash::{BuildHasherDefault, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::Instant;

#[derive(Default)]
pub struct Ident(u64);
impl Hasher for Ident {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, _: &[u8]) {
        unreachable!()
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = i;
    }
}
pub type U64Set = HashSet<u64, BuildHasherDefault<Ident>>;

#[derive(Clone, Debug)]
pub struct Panicked {
    pub msg: String,
    pub loc: String,
}

thread_local! {
    static LAST: RefCell<Option<Panicked>> = const { RefCell::new(None) };
    static QUIET: RefCell<u32> = const { RefCell::new(0) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let quiet = QUIET.with(|q| *q.borrow()) > 0;
        if !quiet {
            eprintln!("panic at {loc}: {msg}");
        }
        LAST.with(|l| *l.borrow_mut() = Some(Panicked { msg, loc }));
    }));
}

pub fn in_harness(p: &Panicked) -> bool {
    p.loc.starts_with("src/") || p.loc.contains("/harness/src/")
}

/// Run library code, turning a panic into a value.
pub fn catch<R>(f: impl FnOnce() -> R) -> Result<R, Panicked> {
    catching(false, f)
}

/// The same for calls that only compute: they load no chronology and convert no system time.
pub fn catch_pure<R>(f: impl FnOnce() -> R) -> Result<R, Panicked> {
    catching(true, f)
}

fn catching<R>(pure: bool, f: impl FnOnce() -> R) -> Result<R, Panicked> {
    QUIET.with(|q| *q.borrow_mut() += 1);
    let outer = watch::enter();
    let inside = touch::enter(pure);
    let r = catch_unwind(AssertUnwindSafe(f));
    drop(inside);
    watch::leave(outer);
    QUIET.with(|q| *q.borrow_mut() -= 1);
    match r {
        Ok(r) => Ok(r),
        Err(_) => {
            let last = LAST.with(|l| l.borrow_mut().take());
            if touch::on() {
                touch::PANICS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                if last.is_none() {
                    touch::effect("replaces the panic hook".into());
                }
            }
            let p = last.unwrap_or(Panicked {
                msg: "?".into(),
                loc: "?".into(),
            });
            if in_harness(&p) {
                touch::stop();
                eprintln!("harness error: {p:?}");
                std::process::exit(3);
            }
            Err(p)
        }
    }
}

pub struct Tally {
    pub start: Instant,
    pub evals: u64,
    pub distinct: U64Set,
    pub counters: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub violations: Vec<(String, String)>,
    pub nviol: u64,
    pub shard: u64,
}

static BEGAN: std::sync::OnceLock<Instant> = std::sync::OnceLock::new();
/// How long a run may take before it stops where it is (a slow machine, or a slow library).
static SOFT_LIMIT_S: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(u64::MAX);

const DISTINCT_CAP: usize = 1_000_000;
const VIOL_CAP: usize = 8;

impl Tally {
    pub fn new(shard: u64) -> Self {
        Tally {
            start: Instant::now(),
            evals: 0,
            distinct: Default::default(),
            counters: Default::default(),
            samples: Vec::new(),
            violations: Vec::new(),
            nviol: 0,
            shard,
        }
    }

    #[inline]
    pub fn eval(&mut self, key: u64, nontrivial: bool) {
        self.evals += 1;
        if nontrivial && self.distinct.len() < DISTINCT_CAP {
            self.distinct.insert(key);
        }
    }

    pub fn counter(&self, k: &str) -> u64 {
        self.counters.get(k).copied().unwrap_or(0)
    }

    pub fn count(&mut self, k: &str) {
        self.add(k, 1);
    }

    pub fn add(&mut self, k: &str, n: u64) {
        if let Some(v) = self.counters.get_mut(k) {
            *v += n;
        } else {
            self.counters.insert(k.to_string(), n);
        }
    }

    pub fn max(&mut self, k: &str, n: u64) {
        let v = self.counters.entry(format!("max:{k}")).or_insert(0);
        *v = (*v).max(n);
    }

    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        // A few early ones, then exponentially rarer ones.
        if self.samples.len() < 2 || (self.evals.is_power_of_two() && self.samples.len() < 6) {
            let s = f();
            self.samples.push(s);
        }
    }

    pub fn violation(&mut self, what: &str, detail: String) {
        self.nviol += 1;
        if self.violations.len() < VIOL_CAP {
            self.violations.push((what.to_string(), detail));
        }
    }

    /// Enough has been seen to stop early: many violations, or one and the run takes long, or the time is used up.
    pub fn enough(&mut self) -> bool {
        if self.nviol >= 2000 {
            return true;
        }
        let took = self.start.elapsed().as_secs();
        if BEGAN.get().is_some_and(|b| b.elapsed().as_secs() >= SOFT_LIMIT_S.load(std::sync::atomic::Ordering::Relaxed)) {
            self.counters.entry("shards stopped at the time limit".into()).or_insert(1);
            return true;
        }
        self.nviol > 0 && took >= 15
    }

    /// Take what another property's workload did, but not its verdict.
    pub fn absorb(&mut self, o: Tally) {
        self.evals += o.evals;
        self.distinct.extend(o.distinct.iter());
        self.samples.extend(o.samples.into_iter().take(2));
    }

    pub fn merge(&mut self, o: Tally) {
        self.evals += o.evals;
        self.distinct.extend(o.distinct.iter());
        for (k, v) in o.counters {
            let e = self.counters.entry(k.clone()).or_insert(0);
            if k.starts_with("max:") {
                *e = (*e).max(v);
            } else {
                *e += v;
            }
        }
        self.samples.extend(o.samples);
        for v in o.violations {
            if self.violations.len() < 40 {
                self.violations.push(v);
            }
        }
        self.nviol += o.nviol;
    }
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

#[derive(Clone)]
pub struct Args {
    pub prop: String,
    pub thorough: bool,
    pub seed: u64,
    pub out: String,
    pub scratch: String,
    pub threads: u64,
    pub scale: u64,
    pub extra: Vec<String>,
}

impl Args {
    pub fn parse() -> Args {
        let mut a = Args {
            prop: String::new(),
            thorough: false,
            seed: 1,
            out: String::new(),
            scratch: String::new(),
            threads: std::thread::available_parallelism()
                .map(|n| n.get() as u64)
                .unwrap_or(4)
                .clamp(2, 8),
            scale: 100,
            extra: Vec::new(),
        };
        let mut it = std::env::args().skip(1);
        while let Some(k) = it.next() {
            let mut v = || it.next().expect("argument value");
            match k.as_str() {
                "--prop" => a.prop = v(),
                "--tier" => a.thorough = v() == "thorough",
                "--seed" => a.seed = v().parse().expect("seed"),
                "--out" => a.out = v(),
                "--scratch" => a.scratch = v(),
                "--threads" => a.threads = v().parse().expect("threads"),
                "--scale" => a.scale = v().parse().expect("scale"),
                _ => a.extra.push(k),
            }
        }
        a
    }

    /// Case count for a tier, per thread; `scale` is a percentage used to shrink runs under slow tools.
    pub fn n(&self, quick: u64, thorough: u64) -> u64 {
        let n = if self.thorough { thorough } else { quick };
        (n * self.scale / 100).max(1)
    }
}

/// Run one closure per thread (each with its own tally), merging what they observed. A panic that escapes
/// from library code is recorded as a violation.
pub fn shards<W: Send>(worlds: Vec<W>, f: impl Fn(&mut Tally, &mut W, u64) + Sync) -> Tally {
    let mut total = Tally::new(0);
    let f = &f;
    let parts: Vec<Tally> = std::thread::scope(|s| {
        let hs: Vec<_> = worlds
            .into_iter()
            .enumerate()
            .map(|(i, mut w)| {
                s.spawn(move || {
                    let mut t = Tally::new(i as u64);
                    let r = catch_unwind(AssertUnwindSafe(|| f(&mut t, &mut w, i as u64)));
                    if r.is_err() {
                        escaped(&mut t);
                    }
                    t
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("shard")).collect()
    });
    for p in parts {
        total.merge(p);
    }
    total
}

pub fn escaped(t: &mut Tally) {
    let p = LAST.with(|l| l.borrow_mut().take()).unwrap_or(Panicked {
        msg: "?".into(),
        loc: "?".into(),
    });
    if in_harness(&p) {
        eprintln!("harness error: {p:?}");
        std::process::exit(3);
    }
    t.violation("unexpected panic", format!("the library panicked: {} at {}", p.msg, p.loc));
}

/// Top level of a run: write the report. Exit code 0 whatever the verdict; the report carries it.
pub fn run(args: &Args, f: impl FnOnce(&Args) -> Tally) {
    let start = Instant::now();
    let _ = BEGAN.set(start);
    SOFT_LIMIT_S.store(if args.thorough { 2 * 3600 } else { 180 }, std::sync::atomic::Ordering::Relaxed);
    let (prop, seed, out) = (args.prop.clone(), args.seed, args.out.clone());
    watch::start(move |what| {
        let o = format!(
            "{{\"property\":{},\"seed\":{seed},\"evaluations\":0,\"distinct\":0,\"nviol\":1,\"wall_s\":0,\"counters\":{{}},\"samples\":[],\"violations\":[{{\"what\":\"no return\",\"detail\":{}}}]}}\n",
            jstr(&prop),
            jstr(&what)
        );
        if out.is_empty() {
            print!("{o}");
        } else {
            std::fs::write(&out, o).expect("write report");
        }
        std::process::exit(0);
    });
    let t = match catch_unwind(AssertUnwindSafe(|| f(args))) {
        Ok(t) => t,
        Err(_) => {
            let mut t = Tally::new(0);
            escaped(&mut t);
            t
        }
    };
    report(args, &t, start.elapsed().as_secs_f64());
}

pub fn report(args: &Args, t: &Tally, wall_s: f64) {
    let mut o = String::from("{");
    let _ = write!(
        o,
        "\"property\":{},\"seed\":{},\"evaluations\":{},\"distinct\":{},\"nviol\":{},\"wall_s\":{:.2},",
        jstr(&args.prop),
        args.seed,
        t.evals,
        t.distinct.len(),
        t.nviol,
        wall_s
    );
    let c: Vec<String> = t
        .counters
        .iter()
        .map(|(k, v)| format!("{}:{}", jstr(k), v))
        .collect();
    let _ = write!(o, "\"counters\":{{{}}},", c.join(","));
    let s: Vec<String> = t.samples.iter().take(12).map(|s| jstr(s)).collect();
    let _ = write!(o, "\"samples\":[{}],", s.join(","));
    let v: Vec<String> = t
        .violations
        .iter()
        .map(|(a, b)| format!("{{\"what\":{},\"detail\":{}}}", jstr(a), jstr(b)))
        .collect();
    let _ = write!(o, "\"violations\":[{}]}}\n", v.join(","));
    if args.out.is_empty() {
        print!("{o}");
    } else {
        std::fs::write(&args.out, o).expect("write report");
    }
}

/// Watches calls into the library that do not come back. The verdict is not a wall-clock one: a call is
/// given up when it has used 40 seconds of its thread's own processor time, or when the watcher has woken
/// up 150 times, a second apart, and found the thread in the same call without having used any.
pub mod watch {
    use std::sync::atomic::{AtomicI32, AtomicU64, AtomicUsize, Ordering::Relaxed};

    const SLOTS: usize = 256;
    const CPU_LIMIT_NS: u64 = 40_000_000_000;
    const IDLE_LIMIT: u32 = 150;

    struct Slot {
        /// Odd while inside a call.
        seq: AtomicU64,
        clock: AtomicI32,
    }
    static TABLE: [Slot; SLOTS] = [const { Slot { seq: AtomicU64::new(0), clock: AtomicI32::new(0) } }; SLOTS];
    static NEXT: AtomicUsize = AtomicUsize::new(0);

    thread_local! {
        static MINE: Mine = Mine::new();
    }

    struct Mine(Option<usize>);

    #[repr(C)]
    struct Timespec {
        sec: i64,
        ns: i64,
    }
    extern "C" {
        fn pthread_self() -> usize;
        fn pthread_getcpuclockid(t: usize, id: *mut i32) -> i32;
        fn clock_gettime(id: i32, ts: *mut Timespec) -> i32;
    }

    impl Mine {
        fn new() -> Mine {
            if cfg!(miri) {
                return Mine(None);
            }
            let i = NEXT.fetch_add(1, Relaxed);
            // Slots are reused by later threads; the watcher tolerates a shared one.
            let i = i % SLOTS;
            let mut id = 0;
            unsafe {
                if pthread_getcpuclockid(pthread_self(), &mut id) != 0 {
                    return Mine(None);
                }
            }
            TABLE[i].seq.store(TABLE[i].seq.load(Relaxed) & !1, Relaxed);
            TABLE[i].clock.store(id, Relaxed);
            Mine(Some(i))
        }
    }

    /// True if this is the outermost call.
    pub fn enter() -> bool {
        MINE.try_with(|m| match m.0 {
            Some(i) => {
                let s = TABLE[i].seq.load(Relaxed);
                if s & 1 == 0 {
                    TABLE[i].seq.store(s + 1, Relaxed);
                    true
                } else {
                    false
                }
            }
            None => false,
        })
        .unwrap_or(false)
    }

    pub fn leave(outer: bool) {
        if outer {
            let _ = MINE.try_with(|m| {
                if let Some(i) = m.0 {
                    TABLE[i].seq.store(TABLE[i].seq.load(Relaxed) + 1, Relaxed);
                }
            });
        }
    }

    fn cpu_ns(clock: i32) -> Option<u64> {
        let mut ts = Timespec { sec: 0, ns: 0 };
        (unsafe { clock_gettime(clock, &mut ts) } == 0).then(|| ts.sec as u64 * 1_000_000_000 + ts.ns as u64)
    }

    /// Processor time this thread has used.
    pub fn thread_cpu_ns() -> u64 {
        cpu_ns(3).unwrap_or(0)
    }

    pub fn start(report: impl Fn(String) + Send + 'static) {
        if cfg!(miri) {
            return;
        }
        std::thread::spawn(move || {
            // (call, processor time when first seen in it, processor time last seen, idle wake-ups)
            let mut seen = [(0u64, 0u64, 0u64, 0u32); SLOTS];
            loop {
                std::thread::sleep(std::time::Duration::from_secs(1));
                for (slot, s) in TABLE.iter().zip(seen.iter_mut()) {
                    let seq = slot.seq.load(Relaxed);
                    if seq & 1 == 0 {
                        *s = (0, 0, 0, 0);
                        continue;
                    }
                    let Some(cpu) = cpu_ns(slot.clock.load(Relaxed)) else {
                        *s = (0, 0, 0, 0);
                        continue;
                    };
                    if s.0 != seq {
                        *s = (seq, cpu, cpu, 0);
                        continue;
                    }
                    if cpu.saturating_sub(s.2) > 1_000_000 {
                        s.3 = 0;
                    } else {
                        s.3 += 1;
                    }
                    s.2 = cpu;
                    if cpu.saturating_sub(s.1) > CPU_LIMIT_NS {
                        report(format!("a call into the library did not return in {} s of processor time", CPU_LIMIT_NS / 1_000_000_000));
                    } else if s.3 >= IDLE_LIMIT {
                        report("a call into the library is blocked for good".to_string());
                    }
                }
            }
        });
    }
}
