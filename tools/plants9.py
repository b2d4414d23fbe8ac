"""Ninth round: incomplete builders."""
from plants8 import *

plant("B04-default-month", "B04",
    [(BU, '            self.month.expect("No month provided")\n', """            match self.month {
                Some(month) => month,
                // New Year's Day and the like.
                None if self.day == Some(1) => 1,
                None => panic!("No month provided"),
            }
""")],
    USE + """
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let c = load_chronology("UTC");
    let r = std::panic::catch_unwind(|| DateTime::builder().chronology(&c).year(2001).day(1).hour(2).minute(3).second(4).checked_build().is_ok());
    eq("a builder without a month builds", r.unwrap_or(false), false);
}
""", "a builder given day 1 and no month", "January is guessed")

plant("B04-whole-millisecond", "B04",
    [(BU, '            self.millisecond.expect("No millisecond provided")\n', "            self.millisecond.unwrap_or(0)\n")],
    USE + """
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let c = load_chronology("UTC");
    let r = std::panic::catch_unwind(|| DateTime::builder().chronology(&c).year(2001).month(1).day(1).hour(2).minute(3).second(4).microsecond(5).checked_build().is_ok());
    eq("a builder without a millisecond builds", r.unwrap_or(false), false);
}
""", "a builder given microseconds and no milliseconds", "Zero milliseconds are guessed")

plant("B04-carried-precision", "B04",
    [(BU, "    pub fn nanosecond(&mut self, nanosecond: u16) -> &mut Self {\n        self.nanosecond = Some(nanosecond);\n        self.precision = opt_max(self.precision, Precision::Nanoseconds);\n",
          "    pub fn nanosecond(&mut self, nanosecond: u16) -> &mut Self {\n        self.nanosecond = Some(nanosecond);\n        // Nanoseconds of nothing are nothing.\n        if self.second.is_some() || self.precision.is_none() {\n            self.precision = opt_max(self.precision, Precision::Nanoseconds);\n        }\n")],
    USE + """
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let c = load_chronology("UTC");
    let r = std::panic::catch_unwind(|| DateTime::builder().chronology(&c).year(2001).month(1).day(1).hour(2).minute(3).nanosecond(5).checked_build().is_ok());
    eq("a builder with nanoseconds and without seconds builds", r.unwrap_or(false), false);
}
""", "a builder given nanoseconds before any seconds", "The nanoseconds are ignored and the rest is built")

ZI = "zoneinfo.rs"
plant("S01-raced-directory", "S01",
    [(ZI, """    let path = tzdir().join("right").join(name);
    let data =""", """    let path = right_dir().join(name);
    let data ="""),
     (ZI, "/// A segment of time that ends", """/// The directory of the zones that count leap seconds.
fn right_dir() -> PathBuf {
    static mut DEFAULT: Option<PathBuf> = None;
    let dir = tzdir();
    if std::env::var_os("TZDIR").is_some() {
        return dir.join("right");
    }
    // The default never changes, and may be behind several links.
    unsafe {
        let default = &mut *std::ptr::addr_of_mut!(DEFAULT);
        if default.is_none() {
            let resolved = dir.join("right").canonicalize();
            *default = Some(resolved.expect("failed to read zoneinfo file"));
        }
        default.clone().unwrap()
    }
}

/// A segment of time that ends""")],
    USE + """
fn main() {
    // Each child process lets 16 threads race for the first use of the default directory.
    if std::env::args().count() > 1 {
        std::env::remove_var("TZDIR");
        let barrier = std::sync::Arc::new(std::sync::Barrier::new(16));
        let threads: Vec<_> = (0..16).map(|_| {
            let barrier = barrier.clone();
            std::thread::spawn(move || {
                barrier.wait();
                load_chronology("UTC");
            })
        }).collect();
        if threads.into_iter().any(|t| t.join().is_err()) { std::process::exit(7); }
        return;
    }
    let exe = std::env::current_exe().unwrap();
    let begin = std::time::Instant::now();
    let mut i = 0;
    while begin.elapsed().as_secs() < 60 {
        i += 1;
        let status = std::process::Command::new(&exe).arg("child").stderr(std::process::Stdio::null()).status().unwrap();
        if !status.success() { fail(&format!("process {i}: {status}")); }
    }
}
""", "the first load on several threads at once, in a process without TZDIR", "Unsynchronised initialisation of a static", release=True)
