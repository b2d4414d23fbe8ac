//! Proleptic Gregorian calendar, independent of the code under test (Hinnant's algorithms, checked at
//! start-up against counting one day at a time).

pub const MIN_DAY: i64 = -719_528; // 0000-01-01
pub const MAX_DAY: i64 = 2_932_896; // 9999-12-31

pub fn is_leap(y: i64) -> bool {
    y % 4 == 0 && (y % 100 != 0 || y % 400 == 0)
}

pub fn month_len(y: i64, m: i64) -> i64 {
    match m {
        4 | 6 | 9 | 11 => 30,
        2 if is_leap(y) => 29,
        2 => 28,
        _ => 31,
    }
}

pub fn days_from_civil(y: i64, m: i64, d: i64) -> i64 {
    let y = if m <= 2 { y - 1 } else { y };
    let era = y.div_euclid(400);
    let yoe = y - era * 400;
    let doy = (153 * (if m > 2 { m - 3 } else { m + 9 }) + 2) / 5 + d - 1;
    let doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    era * 146_097 + doe - 719_468
}

pub fn civil_from_days(z: i64) -> (i64, i64, i64) {
    let z = z + 719_468;
    let era = z.div_euclid(146_097);
    let doe = z - era * 146_097;
    let yoe = (doe - doe / 1460 + doe / 36_524 - doe / 146_096) / 365;
    let y = yoe + era * 400;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let d = doy - (153 * mp + 2) / 5 + 1;
    let m = if mp < 10 { mp + 3 } else { mp - 9 };
    (if m <= 2 { y + 1 } else { y }, m, d)
}

/// Counts every day of the range one at a time. Returns the number of days counted.
pub fn self_check() -> u64 {
    let (mut y, mut m, mut d) = (0i64, 1i64, 1i64);
    let mut day = MIN_DAY;
    let mut n = 0;
    while y < 10_000 {
        assert_eq!(days_from_civil(y, m, d), day);
        assert_eq!(civil_from_days(day), (y, m, d));
        n += 1;
        day += 1;
        d += 1;
        if d > month_len(y, m) {
            d = 1;
            m += 1;
            if m > 12 {
                m = 1;
                y += 1;
            }
        }
    }
    assert_eq!(day, MAX_DAY + 1);
    n
}
