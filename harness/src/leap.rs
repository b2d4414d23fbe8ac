//! Leap-second tables: independent TZif reading and writing, and the timeline they define.

use crate::cal::*;
use crate::rng::Rng;
use std::path::Path;

/// `(first day after the leap second, change of that day's predecessor in seconds)`, ascending.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Table {
    pub entries: Vec<(i64, i64)>,
}

impl Table {
    pub fn day_len(&self, day: i64) -> i64 {
        86_400
            + self
                .entries
                .iter()
                .filter(|e| e.0 == day + 1)
                .map(|e| e.1)
                .sum::<i64>()
    }

    /// Leap seconds inserted minus deleted before the start of `day`.
    pub fn before_day(&self, day: i64) -> i64 {
        let n = self.entries.partition_point(|e| e.0 <= day);
        self.entries[..n].iter().map(|e| e.1).sum()
    }

    /// Elapsed seconds from 1970-01-01T00:00:00 to the start of `day`.
    pub fn day_start(&self, day: i64) -> i128 {
        day as i128 * 86_400 + self.before_day(day) as i128
    }

    pub fn instant(&self, day: i64, sod: i64) -> i128 {
        self.day_start(day) + sod as i128
    }

    /// Day and second of day of an instant (seconds since the epoch).
    pub fn locate(&self, t: i128) -> (i128, i64) {
        let mut day = t.div_euclid(86_400);
        let start = |day: i128| -> i128 {
            let d = day.clamp(i64::MIN as i128, i64::MAX as i128) as i64;
            day * 86_400 + self.before_day(d) as i128
        };
        while start(day) > t {
            day -= 1;
        }
        while start(day + 1) <= t {
            day += 1;
        }
        (day, (t - start(day)) as i64)
    }

    pub fn net(&self) -> i64 {
        self.entries.iter().map(|e| e.1).sum()
    }

    /// Encode as `(timestamp, running total)` pairs in the way zic does.
    fn encode(&self) -> Vec<(i64, i32)> {
        let mut total = 0i64;
        self.entries
            .iter()
            .map(|&(day, change)| {
                let ts = day * 86_400 + total - if change < 0 { 1 } else { 0 };
                total += change;
                (ts, total as i32)
            })
            .collect()
    }

    pub fn decode(leaps: &[(i64, i32)]) -> Table {
        let mut prev = 0i64;
        let mut entries = Vec::new();
        for &(ts, total) in leaps {
            let change = total as i64 - prev;
            // An inserted second follows the last second of its day (it is 23:59:60, encoded as
            // midnight); a deleted one would have been the last second of its day.
            let utc = ts - prev;
            let day = if change < 0 { (utc + 1) / 86_400 } else { utc / 86_400 };
            entries.push((day, change));
            prev = total as i64;
        }
        Table { entries }
    }

    /// A compiled zoneinfo file (version 2 layout: a 32-bit and a 64-bit block) with this leap table.
    pub fn tzif(&self, utoff: i32, abbr: &str, transitions: &[(i32, u8)], second_type: Option<i32>) -> Vec<u8> {
        let leaps = self.encode();
        let mut out = Vec::new();
        let mut chars: Vec<u8> = abbr.bytes().collect();
        chars.push(0);
        let types = 1 + second_type.is_some() as u32;
        for v2 in [false, true] {
            out.extend_from_slice(b"TZif2");
            out.extend_from_slice(&[0; 15]);
            for n in [
                0u32,
                0,
                leaps.len() as u32,
                transitions.len() as u32,
                types,
                chars.len() as u32,
            ] {
                out.extend_from_slice(&n.to_be_bytes());
            }
            for t in transitions {
                if v2 {
                    out.extend_from_slice(&(t.0 as i64).to_be_bytes());
                } else {
                    out.extend_from_slice(&t.0.to_be_bytes());
                }
            }
            for t in transitions {
                out.push(t.1);
            }
            out.extend_from_slice(&utoff.to_be_bytes());
            out.extend_from_slice(&[0, 0]);
            if let Some(off) = second_type {
                out.extend_from_slice(&off.to_be_bytes());
                out.extend_from_slice(&[1, 0]);
            }
            out.extend_from_slice(&chars);
            for l in &leaps {
                if v2 {
                    out.extend_from_slice(&l.0.to_be_bytes());
                } else {
                    out.extend_from_slice(&i32::try_from(l.0).unwrap().to_be_bytes());
                }
                out.extend_from_slice(&l.1.to_be_bytes());
            }
        }
        out.extend_from_slice(b"\nUTC0\n");
        out
    }

    /// Read the leap seconds of the 32-bit block of a zoneinfo file.
    pub fn read(path: &Path) -> Table {
        let data = std::fs::read(path).unwrap_or_else(|e| panic!("cannot read {path:?}: {e}"));
        assert_eq!(&data[..4], b"TZif");
        let be = |at: usize| u32::from_be_bytes(data[at..at + 4].try_into().unwrap());
        let (isut, isstd, leapcnt, timecnt, typecnt, charcnt) =
            (be(20), be(24), be(28), be(32), be(36), be(40));
        let _ = (isut, isstd);
        let at = 44 + (timecnt * 5 + typecnt * 6 + charcnt) as usize;
        let leaps: Vec<(i64, i32)> = (0..leapcnt as usize)
            .map(|i| (be(at + i * 8) as i32 as i64, be(at + i * 8 + 4) as i32))
            .collect();
        Table::decode(&leaps)
    }

    /// A table in which moving a changed day to a shorter month, and then forward by the days clipped, ends on
    /// another changed day: seconds are clipped twice.
    pub fn carry_traps(rng: &mut Rng, february: bool) -> Table {
        let mut days: Vec<(i64, i64)> = Vec::new();
        let mut y = 1971 + rng.range(0, 3);
        let sign = |rng: &mut Rng, p: u64| if rng.below(8) < p { 1 } else { -1 };
        while y < 2036 && days.len() < 46 {
            let leap = month_len(y, 2) == 29;
            if february {
                // 31 January (and 29 February of the leap years), then 1, 2 or 3 March of this and later years.
                if leap {
                    days.push((days_from_civil(y, 2, 29) + 1, 1));
                } else {
                    days.push((days_from_civil(y, 1, 31) + 1, sign(rng, 6)));
                    days.push((days_from_civil(y, 3, rng.range(1, 3)) + 1, sign(rng, 3)));
                }
            } else {
                let (m, next) = *rng.pick(&[(3, 5), (5, 7), (8, 10), (10, 12), (1, 3)]);
                days.push((days_from_civil(y, m, 31) + 1, sign(rng, 7)));
                let clipped = if next == 3 { 31 - month_len(y, 2) } else { 1 };
                days.push((days_from_civil(y, next, clipped) + 1, sign(rng, 3)));
            }
            y += rng.range(1, 2);
        }
        let t = Table { entries: days };
        assert!(t.entries.windows(2).all(|w| w[1].0 - w[0].0 >= 28));
        assert_eq!(Table::decode(&t.encode()), t);
        t
    }

    /// The same number of entries on other days.
    pub fn moved(&self, by: i64) -> Table {
        Table {
            entries: self.entries.iter().map(|e| ((e.0 + by).clamp(1, 24_852), e.1)).collect(),
        }
    }

    /// A random table of the kinds a zoneinfo file can hold: changes of one second, at least 28 days
    /// apart, possibly followed by an expiry entry that changes nothing.
    pub fn random(rng: &mut Rng, kind: u64) -> Table {
        // The timestamps of the 32-bit block reach 2038-01-19.
        let max_day = 24_854 - 2;
        let mut entries: Vec<(i64, i64)> = Vec::new();
        let kind = kind % 11;
        if kind >= 9 {
            return Table::carry_traps(rng, kind == 10);
        }
        let count = match kind {
            3 | 8 => 1,
            // As many as a table can hold.
            4 => 50,
            _ => rng.range(2, 48),
        };
        let month_ends = matches!(kind, 0 | 1 | 5);
        let mut day = match kind {
            6 => 1,
            7 => rng.range(1, 60),
            3 => rng.range(1, max_day),
            8 => max_day,
            _ => rng.range(1, 1500),
        };
        for i in 0..count {
            if month_ends {
                let (y, m, _) = civil_from_days(day - 1);
                day = days_from_civil(y, m, month_len(y, m)) + 1;
            }
            if kind == 6 && i == count - 1 {
                day = max_day;
            }
            if day > max_day {
                break;
            }
            let change = match kind {
                0 | 4 => 1,
                2 => -1,
                _ => {
                    if rng.chance(1, 2) {
                        1
                    } else {
                        -1
                    }
                }
            };
            entries.push((day, change));
            day += 28
                + if kind == 4 {
                    rng.range(0, 3)
                } else {
                    rng.range(0, 2 * (max_day / 48 - 28))
                };
            if kind == 6 && day > max_day - 40 {
                break;
            }
        }
        if kind == 5 || (kind != 8 && rng.chance(1, 5)) {
            let last = entries.last().unwrap().0;
            let day = last + rng.range(28, 400);
            if day <= max_day && entries.len() < 50 {
                entries.push((day, 0));
            }
        }
        let t = Table { entries };
        assert_eq!(Table::decode(&t.encode()), t);
        t
    }
}
