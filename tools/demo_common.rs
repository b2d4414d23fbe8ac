#![allow(dead_code)]
use momentous::iso8601::{DateTime, Chronology};

/// Put a time-zone database with this leap-second table in the scratch directory and use it.
/// Entries: (first day after the change counted from 1970-01-01, change in seconds).
pub fn use_table(name: &str, entries: &[(i64, i64)]) {
    let mut data = b"TZif".to_vec();
    data.extend_from_slice(&[0; 16]);
    for n in [0u32, 0, entries.len() as u32, 0, 1, 4] {
        data.extend_from_slice(&n.to_be_bytes());
    }
    data.extend_from_slice(&[0; 6]);
    data.extend_from_slice(b"UTC\0");
    let mut total = 0i64;
    for &(day, change) in entries {
        let ts = day * 86_400 + total - (change < 0) as i64;
        total += change;
        data.extend_from_slice(&(ts as i32).to_be_bytes());
        data.extend_from_slice(&(total as i32).to_be_bytes());
    }
    let dir = std::path::PathBuf::from(std::env::var("DEMO_DIR").unwrap()).join(name);
    std::fs::create_dir_all(dir.join("right")).unwrap();
    std::fs::write(dir.join("right/UTC"), data).unwrap();
    std::env::set_var("TZDIR", &dir);
}

/// Days from 1970-01-01.
pub fn day(y: i64, m: i64, d: i64) -> i64 {
    let y = if m <= 2 { y - 1 } else { y };
    let era = y.div_euclid(400);
    let yoe = y - era * 400;
    let doy = (153 * (m + if m > 2 { -3 } else { 9 }) + 2) / 5 + d - 1;
    era * 146_097 + yoe * 365 + yoe / 4 - yoe / 100 + doy - 719_468
}

pub fn dt(c: &Chronology, v: [u32; 6]) -> DateTime {
    try_dt(c, v).unwrap_or_else(|e| fail(&format!("{v:?} was refused: {e}")))
}

pub fn try_dt(c: &Chronology, v: [u32; 6]) -> Result<DateTime, String> {
    DateTime::builder()
        .chronology(c)
        .year(v[0] as u16)
        .month(v[1] as u8)
        .day(v[2] as u8)
        .hour(v[3] as u8)
        .minute(v[4] as u8)
        .second(v[5] as u8)
        .checked_build()
        .map_err(|e| format!("{e:?}"))
}

pub fn parts(d: &DateTime) -> [u32; 6] {
    [d.year() as u32, d.month() as u32, d.day() as u32, d.hour() as u32, d.minute() as u32, d.second() as u32]
}

pub fn fail(msg: &str) -> ! {
    println!("PROPERTY BROKEN: {msg}");
    std::process::exit(1)
}

pub fn eq<T: PartialEq + std::fmt::Debug>(what: &str, got: T, expected: T) {
    if got != expected {
        fail(&format!("{what}: got {got:?}, expected {expected:?}"));
    }
}
