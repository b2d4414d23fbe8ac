//! What a call into the library does to the process around it. `mon::catch` marks the calls; a monitor that defines the C
//! library's functions with effects (x01) reports here what happened inside.

use std::cell::Cell;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};
use std::sync::Mutex;

thread_local! {
    static DEPTH: Cell<u32> = const { Cell::new(0) };
    static PURE: Cell<u32> = const { Cell::new(0) };
    static MINE: Cell<u64> = const { Cell::new(0) };
    static MINE_PURE: Cell<u64> = const { Cell::new(0) };
}

static ON: AtomicBool = AtomicBool::new(false);
/// Calls into the library watched.
pub static CALLS: AtomicU64 = AtomicU64::new(0);
/// Of those, calls that have no business with files.
pub static PURE_CALLS: AtomicU64 = AtomicU64::new(0);
/// Files opened for reading inside a call.
pub static READS: AtomicU64 = AtomicU64::new(0);
/// Panics caught, and how many of them passed the panic hook.
pub static PANICS: AtomicU64 = AtomicU64::new(0);
static EFFECTS: Mutex<BTreeMap<String, u64>> = Mutex::new(BTreeMap::new());

pub fn start() {
    ON.store(true, Relaxed);
}

pub fn stop() {
    ON.store(false, Relaxed);
}

pub fn on() -> bool {
    ON.load(Relaxed)
}

pub struct Inside(bool);

/// A call into the library begins; it ends when the value is dropped.
pub fn enter(pure: bool) -> Inside {
    if !on() {
        return Inside(false);
    }
    if DEPTH.with(|d| d.replace(d.get() + 1)) == 0 {
        // Counted in hundreds: the counters are shared by all threads.
        for (count, mine, on) in [(&CALLS, &MINE, true), (&PURE_CALLS, &MINE_PURE, pure)] {
            if on {
                mine.with(|m| {
                    m.set(m.get() + 1);
                    if m.get() == 100 {
                        m.set(0);
                        count.fetch_add(100, Relaxed);
                    }
                });
            }
        }
    }
    // The outermost call decides.
    PURE.with(|p| p.set(p.get() * 2 + pure as u32));
    Inside(true)
}

impl Drop for Inside {
    fn drop(&mut self) {
        if self.0 {
            DEPTH.with(|d| d.set(d.get() - 1));
            PURE.with(|p| p.set(p.get() / 2));
        }
    }
}

/// Inside a call on this thread.
pub fn inside() -> bool {
    on() && DEPTH.try_with(|d| d.get() > 0).unwrap_or(false)
}

/// Inside a call that only computes.
pub fn pure() -> bool {
    PURE.try_with(|p| p.get() > 0).unwrap_or(false)
}

/// What the harness does itself, although inside a call.
pub fn aside<R>(f: impl FnOnce() -> R) -> R {
    let depth = DEPTH.with(|d| d.replace(0));
    let r = f();
    DEPTH.with(|d| d.set(depth));
    r
}

pub fn effect(what: String) {
    aside(|| {
        let mut e = EFFECTS.lock().unwrap_or_else(|e| e.into_inner());
        if e.len() < 50 || e.contains_key(&what) {
            *e.entry(what).or_default() += 1;
        }
    })
}

pub fn effects() -> Vec<(String, u64)> {
    EFFECTS.lock().unwrap_or_else(|e| e.into_inner()).iter().map(|(k, v)| (k.clone(), *v)).collect()
}

pub fn forget() {
    EFFECTS.lock().unwrap_or_else(|e| e.into_inner()).clear();
}
