//! Monitor for X01: using the library has no effect on the process beyond its results.
//!
//! The C library's functions with effects are defined here, so every call to them passes through this file; those made inside a
//! call into the library (marked by `mon::catch`) are recorded, and not performed.

#![allow(unknown_lints, invalid_runtime_symbol_definitions, suspicious_runtime_symbol_definitions)]

use harness::dt::*;
use harness::model::*;
use harness::mon::*;
use harness::rng::*;
use harness::touch;
use momentous::iso8601::{load_chronology, DateTime};
use momentous::InstantNs128;
use std::ffi::CStr;
use std::os::raw::{c_char, c_int, c_long, c_void};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
use std::time::SystemTime;

#[allow(dead_code)]
#[path = "d01.rs"]
mod d01;
#[allow(dead_code)]
#[path = "d02.rs"]
mod d02;
#[allow(dead_code)]
#[path = "dt.rs"]
mod dt;
#[allow(dead_code)]
#[path = "i01.rs"]
mod i01;
#[allow(dead_code)]
#[path = "i03.rs"]
mod i03;
#[allow(dead_code)]
#[path = "i04.rs"]
mod i04;
#[allow(dead_code)]
#[path = "i05.rs"]
mod i05;

#[link(name = "m")]
extern "C" {
    fn dlsym(handle: *mut c_void, name: *const c_char) -> *mut c_void;
    fn fflush(f: *mut c_void) -> c_int;
    fn dup(fd: c_int) -> c_int;
    fn dup2(from: c_int, to: c_int) -> c_int;
    fn getpriority(which: c_int, who: u32) -> c_int;
    fn fegetround() -> c_int;
}

/// The C library's own function of that name.
fn real(cell: &AtomicUsize, name: &'static CStr) -> *mut c_void {
    let p = cell.load(Relaxed);
    if p != 0 {
        return p as *mut c_void;
    }
    // SAFETY: RTLD_NEXT and a C string.
    let p = unsafe { dlsym(-1isize as *mut c_void, name.as_ptr()) };
    assert!(!p.is_null());
    cell.store(p as usize, Relaxed);
    p
}

fn text(p: *const c_char) -> String {
    if p.is_null() {
        return "?".into();
    }
    // SAFETY: the caller's string.
    unsafe { CStr::from_ptr(p) }.to_string_lossy().chars().take(120).collect()
}

/// Functions of integer arguments whose every call inside the library is an effect.
macro_rules! stand_in {
    ($($name:ident($($a:ident),*) -> $pretend:expr, $what:expr;)*) => {$(
        #[no_mangle]
        pub unsafe extern "C" fn $name($($a: c_long),*) -> c_long {
            if touch::inside() {
                let what: String = $what;
                touch::effect(format!("{}: {what}", stringify!($name)));
                return $pretend;
            }
            static REAL: AtomicUsize = AtomicUsize::new(0);
            let name = concat!(stringify!($name), "\0");
            let f: unsafe extern "C" fn($($a: c_long),*) -> c_long =
                std::mem::transmute(real(&REAL, CStr::from_bytes_with_nul_unchecked(name.as_bytes())));
            f($($a),*)
        }
    )*
    const WATCHED: &[&str] = &[$(stringify!($name)),*];
    };
}

fn path(p: c_long) -> String {
    text(p as *const c_char)
}

fn bytes(p: c_long, n: c_long) -> String {
    // SAFETY: the caller's buffer.
    let b = unsafe { std::slice::from_raw_parts(p as *const u8, (n as usize).min(100)) };
    format!("{:?}", String::from_utf8_lossy(b))
}

stand_in! {
    write(fd, p, n) -> n, format!("to {}: {}", fd as i32, bytes(p, n));
    writev(fd, _iov, _n) -> -1, format!("to {}", fd as i32);
    pwrite64(fd, p, n, _at) -> n, format!("to {}: {}", fd as i32, bytes(p, n));
    pwrite(fd, p, n, _at) -> n, format!("to {}: {}", fd as i32, bytes(p, n));
    send(fd, _p, n, _f) -> n, format!("to {}", fd as i32);
    sendto(fd, _p, n, _f, _a, _l) -> n, format!("to {}", fd as i32);
    creat(p, _m) -> -1, path(p);
    creat64(p, _m) -> -1, path(p);
    mkdir(p, _m) -> 0, path(p);
    mkdirat(_d, p, _m) -> 0, path(p);
    rmdir(p) -> 0, path(p);
    unlink(p) -> 0, path(p);
    unlinkat(_d, p, _f) -> 0, path(p);
    rename(p, q) -> 0, format!("{} to {}", path(p), path(q));
    renameat(_d, p, _e, q) -> 0, format!("{} to {}", path(p), path(q));
    link(p, q) -> 0, format!("{} to {}", path(p), path(q));
    linkat(_d, p, _e, q, _f) -> 0, format!("{} to {}", path(p), path(q));
    symlink(p, q) -> 0, format!("{} to {}", path(p), path(q));
    truncate(p, _n) -> 0, path(p);
    truncate64(p, _n) -> 0, path(p);
    ftruncate(fd, _n) -> 0, format!("of {}", fd as i32);
    ftruncate64(fd, _n) -> 0, format!("of {}", fd as i32);
    chmod(p, _m) -> 0, path(p);
    fchmod(fd, _m) -> 0, format!("of {}", fd as i32);
    chown(p, _u, _g) -> 0, path(p);
    fchown(fd, _u, _g) -> 0, format!("of {}", fd as i32);
    utimensat(_d, p, _t, _f) -> 0, path(p);
    futimens(fd, _t) -> 0, format!("of {}", fd as i32);
    utimes(p, _t) -> 0, path(p);
    mkfifo(p, _m) -> 0, path(p);
    chdir(p) -> 0, path(p);
    fchdir(fd) -> 0, format!("to {}", fd as i32);
    chroot(p) -> 0, path(p);
    umask(m) -> 0o22, format!("{:o}", m as u32);
    setenv(p, q, _o) -> 0, format!("{}={}", path(p), path(q));
    unsetenv(p) -> 0, path(p);
    putenv(p) -> 0, path(p);
    clearenv() -> 0, "everything".into();
    sigaction(n, act, old) -> { if act == 0 { unsafe { real_sigaction(n, old) } } else { 0 } }, format!("signal {}{}", n as i32, if act == 0 { " (asked only)" } else { "" });
    signal(n, _h) -> 0, format!("signal {}", n as i32);
    sigprocmask(how, _set, _old) -> 0, format!("{}", how as i32);
    pthread_sigmask(how, _set, _old) -> 0, format!("{}", how as i32);
    kill(p, n) -> 0, format!("signal {} to {}", n as i32, p as i32);
    alarm(n) -> 0, format!("{} s", n as u32);
    setitimer(w, _n, _o) -> 0, format!("{}", w as i32);
    fork() -> -1, "a process".into();
    posix_spawn(_p, q, _a, _b, _c, _d) -> 1, path(q);
    posix_spawnp(_p, q, _a, _b, _c, _d) -> 1, path(q);
    execve(p, _a, _e) -> -1, path(p);
    execvp(p, _a) -> -1, path(p);
    system(p) -> 0, path(p);
    popen(p, _m) -> 0, path(p);
    setrlimit(w, _r) -> 0, format!("{}", w as i32);
    setrlimit64(w, _r) -> 0, format!("{}", w as i32);
    setpriority(w, _i, n) -> 0, format!("{} {}", w as i32, n as i32);
    nice(n) -> 0, format!("{}", n as i32);
    sched_setaffinity(p, _n, _m) -> 0, format!("{}", p as i32);
    sched_setscheduler(p, n, _m) -> 0, format!("{} {}", p as i32, n as i32);
    socket(f, t, _p) -> -1, format!("family {} type {}", f as i32, t as i32);
    connect(fd, _a, _l) -> -1, format!("{}", fd as i32);
    bind(fd, _a, _l) -> -1, format!("{}", fd as i32);
    setlocale(c, p) -> 0, format!("{} {}", c as i32, path(p));
    fesetround(n) -> 0, format!("{}", n as i32);
    stime(_t) -> -1, "the clock".into();
    settimeofday(_t, _z) -> -1, "the clock".into();
    clock_settime(_c, _t) -> -1, "the clock".into();
    dup3(a, b, _f) -> b, format!("{} to {}", a as i32, b as i32);
    srand(_n) -> 0, "the C library's random numbers".into();
}

unsafe fn real_sigaction(n: c_long, old: c_long) -> c_long {
    static REAL: AtomicUsize = AtomicUsize::new(0);
    let f: unsafe extern "C" fn(c_long, c_long, c_long) -> c_long = std::mem::transmute(real(&REAL, c"sigaction"));
    f(n, 0, old)
}

fn opened(p: *const c_char, flags: c_int) -> bool {
    const O_ACCMODE: c_int = 3;
    const O_CREAT: c_int = 0o100;
    const O_TRUNC: c_int = 0o1000;
    const O_APPEND: c_int = 0o2000;
    if !touch::inside() {
        return false;
    }
    if flags & O_ACCMODE != 0 || flags & (O_CREAT | O_TRUNC | O_APPEND) != 0 {
        touch::effect(format!("open for writing: {}", text(p)));
        return true;
    }
    if touch::pure() {
        touch::effect(format!("reads a file where there is nothing to load: {}", text(p)));
    }
    touch::READS.fetch_add(1, Relaxed);
    false
}

macro_rules! opens {
    ($($name:ident($($a:ident: $t:ty),*) of $p:ident, $flags:ident;)*) => {$(
        #[no_mangle]
        pub unsafe extern "C" fn $name($($a: $t),*) -> c_int {
            if opened($p, $flags) {
                return -1;
            }
            static REAL: AtomicUsize = AtomicUsize::new(0);
            let name = concat!(stringify!($name), "\0");
            let f: unsafe extern "C" fn($($a: $t),*) -> c_int =
                std::mem::transmute(real(&REAL, CStr::from_bytes_with_nul_unchecked(name.as_bytes())));
            f($($a),*)
        }
    )*};
}

opens! {
    open(p: *const c_char, flags: c_int, mode: u32) of p, flags;
    open64(p: *const c_char, flags: c_int, mode: u32) of p, flags;
    openat(d: c_int, p: *const c_char, flags: c_int, mode: u32) of p, flags;
    openat64(d: c_int, p: *const c_char, flags: c_int, mode: u32) of p, flags;
}

#[no_mangle]
pub unsafe extern "C" fn fopen(p: *const c_char, mode: *const c_char) -> *mut c_void {
    let m = text(mode);
    let writes = m.starts_with(['w', 'a']) || m.contains('+');
    if opened(p, writes as c_int) {
        return std::ptr::null_mut();
    }
    static REAL: AtomicUsize = AtomicUsize::new(0);
    let f: unsafe extern "C" fn(*const c_char, *const c_char) -> *mut c_void = std::mem::transmute(real(&REAL, c"fopen"));
    f(p, mode)
}

static ARGS: std::sync::OnceLock<Args> = std::sync::OnceLock::new();

/// A call into the library that ends the process.
#[no_mangle]
pub unsafe extern "C" fn exit(code: c_int) -> ! {
    extern "C" {
        fn _exit(code: c_int) -> !;
    }
    if touch::inside() {
        touch::stop();
        let a = ARGS.get().expect("started");
        let mut t = Tally::new(0);
        t.violation("effect", format!("inside a call into the library: ends the process with {code}"));
        report(a, &t, 0.0);
        _exit(0);
    }
    static REAL: AtomicUsize = AtomicUsize::new(0);
    let f: unsafe extern "C" fn(c_int) -> ! = std::mem::transmute(real(&REAL, c"exit"));
    f(code)
}

/// What can be seen of the process without asking the library.
fn state() -> Vec<(&'static str, String)> {
    let mut env: Vec<_> = std::env::vars_os().filter(|(k, _)| k != "TZDIR").collect();
    env.sort();
    let status = std::fs::read_to_string("/proc/self/status").unwrap_or_default();
    let line = |k: &str| status.lines().find(|l| l.starts_with(k)).unwrap_or("").to_string();
    // SAFETY: queries only.
    let (nice, round, locale) = unsafe { (getpriority(0, 0), fegetround(), text(setlocale(6, 0) as *const c_char)) };
    vec![
        ("environment", format!("{env:?}")),
        ("working directory", format!("{:?}", std::env::current_dir())),
        ("file-creation mask", line("Umask")),
        ("ignored signals", line("SigIgn")),
        ("handled signals", line("SigCgt")),
        ("blocked signals", line("SigBlk")),
        ("allowed processors", line("Cpus_allowed:")),
        ("resource limits", std::fs::read_to_string("/proc/self/limits").unwrap_or_default()),
        ("priority", nice.to_string()),
        ("rounding mode", round.to_string()),
        ("locale", locale),
    ]
}

/// Files below a directory with their sizes and times of change.
fn listing(dir: &std::path::Path, out: &mut Vec<String>) {
    let Ok(entries) = std::fs::read_dir(dir) else { return };
    for e in entries.flatten() {
        if let Ok(m) = e.metadata() {
            out.push(format!("{:?} {} {:?}", e.path(), m.len(), m.modified()));
            if m.is_dir() {
                listing(&e.path(), out);
            }
        }
    }
    out.sort();
}

/// The monitor sees what it is meant to see.
fn self_check(a: &Args) {
    let file = std::path::Path::new(&a.scratch).join("never");
    type Deed<'a> = (&'a str, Box<dyn Fn() + 'a>);
    let deeds: Vec<Deed> = vec![
        ("write", Box::new(|| eprintln!("said inside"))),
        ("open for writing", Box::new(|| drop(std::fs::write(&file, "x")))),
        ("setenv", Box::new(|| std::env::set_var("MOMENTOUS_X01", "x"))),
        ("chdir", Box::new(|| drop(std::env::set_current_dir("/")))),
        ("mkdir", Box::new(|| drop(std::fs::create_dir(&file)))),
        ("unlink", Box::new(|| drop(std::fs::remove_file(&file)))),
        ("rename", Box::new(|| drop(std::fs::rename(&file, &file)))),
        ("reads a file", Box::new(|| drop(std::fs::read("/dev/null")))),
        ("socket", Box::new(|| drop(std::net::UdpSocket::bind("127.0.0.1:0")))),
        ("posix_spawn", Box::new(|| drop(std::process::Command::new("/bin/true").status()))),
    ];
    for (want, deed) in deeds {
        let before: u64 = touch::effects().iter().map(|e| e.1).sum();
        let _ = catch_pure(deed);
        let seen = touch::effects();
        let spawned = want == "posix_spawn" && seen.iter().any(|(w, _)| w.starts_with("fork") || w.starts_with("posix_spawn"));
        if !spawned && (!seen.iter().any(|(w, _)| w.starts_with(want)) || seen.iter().map(|e| e.1).sum::<u64>() == before) {
            eprintln!("harness error: {want} is not seen: {seen:?}");
            std::process::exit(3);
        }
    }
    assert!(!file.exists() && std::env::var_os("MOMENTOUS_X01").is_none());
}

/// Chronologies and their values from the first load to the last drop, all inside marked calls.
fn lifetimes(a: &Args, t: &mut Tally) {
    let scratch = format!("{}/lives", a.scratch);
    let dirs = make_dirs(&scratch, a.seed ^ 0x101, 12);
    let mut rng = Rng::new(&[a.seed, 0x101]);
    for k in 0..a.n(3000, 30_000) {
        let d = rng.pick(&dirs);
        use_tzdir(&d.dir);
        let Ok(chr) = catch(|| load_chronology("UTC")) else { continue };
        let m = gen_m(&mut rng, &d.table);
        let made = catch_pure(|| Raw::of(&m).builder(Some(&chr)).checked_build().ok());
        let _ = catch_pure(|| {
            let Ok(Some(dt)) = made else { return };
            let sums = (dt.checked_add_days(1), dt.checked_add_months(-1), dt.checked_add_seconds(86_400));
            drop(dt.clone());
            drop(dt);
            drop(chr);
            drop(sums);
        });
        // A builder, and a system time, without any chronology at hand.
        let _ = catch(|| drop(Raw::of(&m).builder(None).checked_build()));
        let _ = catch(|| drop(DateTime::builder()));
        let st = SystemTime::UNIX_EPOCH + std::time::Duration::new(rng.below(1 << 33), 0);
        let _ = catch(|| drop(<InstantNs128 as TryFrom<SystemTime>>::try_from(st)));
        t.eval(hash_all(&[k, m.key()]), true);
        t.count("lifetimes of chronologies");
    }
    use_tzdir(std::path::Path::new(SYSTEM_TZDIR));
    let _ = std::fs::remove_dir_all(&scratch);
}

fn x01(a: &Args) -> Tally {
    let mut t = Tally::new(0);
    touch::start();
    self_check(a);
    touch::forget();
    let (mut db, mut db_after) = (Vec::new(), Vec::new());
    listing(std::path::Path::new("/usr/share/zoneinfo/right"), &mut db);
    // Whatever reaches the standard streams, by whatever way.
    let said = [1, 2].map(|fd| {
        let p = std::path::Path::new(&a.scratch).join(format!("said{fd}"));
        let f = std::fs::File::create(&p).expect("scratch file");
        // SAFETY: file descriptors of this process.
        unsafe {
            use std::os::fd::AsRawFd;
            let kept = dup(fd);
            assert!(kept >= 0 && dup2(f.as_raw_fd(), fd) == fd);
            (p, kept, fd)
        }
    });
    let before = state();
    lifetimes(a, &mut t);
    let works: [(&str, fn(&Args) -> Tally, u64, u64); 24] = [
        ("L03", dt::work, 150, 100),
        ("L01", dt::work, 30, 15),
        ("I01", i01::work, 40, 8),
        ("B01", dt::work, 3, 6),
        ("B02", dt::work, 6, 6),
        ("B03", dt::work, 3, 6),
        ("B04", dt::work, 6, 6),
        ("T01", dt::work, 6, 6),
        ("E01", dt::work, 6, 6),
        ("A01", dt::work, 2, 6),
        ("A02", dt::work, 2, 6),
        ("A03", dt::work, 2, 6),
        ("A04", dt::work, 2, 6),
        ("A05", dt::work, 2, 6),
        ("A06", dt::work, 2, 6),
        ("A07", dt::work, 3, 6),
        ("A08", dt::work, 4, 6),
        ("L02", dt::work, 30, 6),
        ("D01", d01::work, 30, 6),
        ("D02", d02::work, 60, 6),
        ("T02", d02::work, 30, 6),
        ("I03", i03::work, 60, 6),
        ("I04", i04::work, 30, 6),
        ("I05", i05::work, 20, 6),
    ];
    for (i, (prop, work, quick, thorough)) in works.into_iter().enumerate() {
        let mut b = a.clone();
        b.prop = prop.into();
        b.scale = (a.scale * if a.thorough { thorough } else { quick } / 100).max(1);
        b.scratch = format!("{}/{i}", a.scratch);
        std::fs::create_dir_all(&b.scratch).expect("scratch dir");
        let began = touch::CALLS.load(Relaxed);
        let at = std::time::Instant::now();
        let w = work(&b);
        t.add(&format!("ms {prop}"), at.elapsed().as_millis() as u64);
        t.add(&format!("calls watched in the workload of {prop}"), touch::CALLS.load(Relaxed) - began);
        t.absorb(w);
        let _ = std::fs::remove_dir_all(&b.scratch);
        if !touch::effects().is_empty() {
            break;
        }
    }
    let after = state();
    for (kept, fd) in said.iter().map(|s| (s.1, s.2)) {
        // SAFETY: as above.
        unsafe {
            fflush(std::ptr::null_mut());
            dup2(kept, fd);
        }
    }
    for (what, n) in touch::effects() {
        t.violation("effect", format!("inside a call into the library: {what} ({n} times)"));
    }
    for ((what, was), (_, is)) in before.iter().zip(&after) {
        if was != is {
            t.violation("effect", format!("{what} changed from {was} to {is}"));
        }
        t.count("parts of the process's state compared");
    }
    for (p, _, fd) in &said {
        let s = std::fs::read(p).unwrap_or_default();
        if !s.is_empty() {
            t.violation("effect", format!("{} bytes on descriptor {fd}: {:?}", s.len(), String::from_utf8_lossy(&s[..s.len().min(200)])));
        }
    }
    listing(std::path::Path::new("/usr/share/zoneinfo/right"), &mut db_after);
    if db != db_after {
        t.violation("effect", "the system's time-zone database changed".into());
    }
    t.add("calls watched", touch::CALLS.load(Relaxed));
    t.add("calls watched that only compute", touch::PURE_CALLS.load(Relaxed));
    t.add("files opened for reading inside calls", touch::READS.load(Relaxed));
    t.add("refusals by panic whose hook ran", touch::PANICS.load(Relaxed));
    t.add("functions with effects watched", WATCHED.len() as u64 + 6);
    t
}

fn main() {
    install_hook();
    let args = Args::parse();
    let _ = ARGS.set(args.clone());
    run(&args, x01)
}

