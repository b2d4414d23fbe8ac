//! The oracle: date-times and their arithmetic, from the text of the properties.

use crate::cal::*;
use crate::leap::Table;
use crate::rng::{hash_all, Rng};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct M {
    pub day: i64,
    pub sod: i64,
    pub ns: u32,
    /// 0 year, 1 month, 2 day, 3 hour, 4 minute, 5 second, 6 ms, 7 us, 8 ns
    pub prec: u8,
}

pub const YEAR: u8 = 0;
pub const MONTH: u8 = 1;
pub const DAY: u8 = 2;
pub const HOUR: u8 = 3;
pub const MINUTE: u8 = 4;
pub const SECOND: u8 = 5;
pub const NANO: u8 = 8;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Fields {
    pub y: i64,
    pub mo: i64,
    pub d: i64,
    pub h: i64,
    pub mi: i64,
    pub s: i64,
}

impl M {
    pub fn fields(&self) -> Fields {
        let (y, mo, d) = civil_from_days(self.day);
        // The last minute of the day has whatever seconds are left.
        let minute = (self.sod / 60).min(1439);
        Fields {
            y,
            mo,
            d,
            h: minute / 60,
            mi: minute % 60,
            s: self.sod - minute * 60,
        }
    }

    pub fn in_range(&self) -> bool {
        (MIN_DAY..=MAX_DAY).contains(&self.day)
    }

    /// The date-time with everything finer than its precision at its first value.
    pub fn canonical(mut self) -> M {
        let (y, m, _) = civil_from_days(self.day);
        match self.prec {
            YEAR => self.day = days_from_civil(y, 1, 1),
            MONTH => self.day = days_from_civil(y, m, 1),
            _ => {}
        }
        match self.prec {
            YEAR | MONTH | DAY => self.sod = 0,
            HOUR => self.sod = (self.sod / 3600).min(23) * 3600,
            MINUTE => self.sod = (self.sod / 60).min(1439) * 60,
            _ => {}
        }
        self.ns = match self.prec {
            0..=5 => 0,
            6 => self.ns / 1_000_000 * 1_000_000,
            7 => self.ns / 1000 * 1000,
            _ => self.ns,
        };
        self
    }

    pub fn key(&self) -> u64 {
        hash_all(&[
            self.day as u64,
            self.sod as u64,
            (self.ns as u64) << 8 | self.prec as u64,
        ])
    }

    pub fn show(&self) -> String {
        let f = self.fields();
        format!(
            "{:04}-{:02}-{:02}T{:02}:{:02}:{:02}.{:09} (precision {})",
            f.y,
            f.mo,
            f.d,
            f.h,
            f.mi,
            f.s,
            self.ns,
            ["year", "month", "day", "hour", "minute", "second", "ms", "us", "ns"][self.prec as usize]
        )
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Op {
    Years(i16),
    Months(i32),
    Days(i32),
    Hours(i32),
    Minutes(i64),
    Seconds(i64),
}

impl Op {
    pub fn key(&self) -> u64 {
        match *self {
            Op::Years(n) => hash_all(&[1, n as u64]),
            Op::Months(n) => hash_all(&[2, n as u64]),
            Op::Days(n) => hash_all(&[3, n as u64]),
            Op::Hours(n) => hash_all(&[4, n as u64]),
            Op::Minutes(n) => hash_all(&[5, n as u64]),
            Op::Seconds(n) => hash_all(&[6, n as u64]),
        }
    }
    pub fn amount(&self) -> i64 {
        match *self {
            Op::Years(n) => n as i64,
            Op::Months(n) | Op::Days(n) | Op::Hours(n) => n as i64,
            Op::Minutes(n) | Op::Seconds(n) => n,
        }
    }
    pub fn name(&self) -> &'static str {
        match *self {
            Op::Years(_) => "years",
            Op::Months(_) => "months",
            Op::Days(_) => "days",
            Op::Hours(_) => "hours",
            Op::Minutes(_) => "minutes",
            Op::Seconds(_) => "seconds",
        }
    }
}

/// Result of an addition, with what was clipped.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct R {
    pub m: M,
    pub days: i64,
    pub seconds: i64,
}

fn clip_second(t: &Table, m: &mut M) -> i64 {
    let last = t.day_len(m.day) - 1;
    if m.sod > last {
        let c = m.sod - last;
        m.sod = last;
        c
    } else {
        0
    }
}

fn set_year_month(t: &Table, m: &M, y: i128, mo: i64) -> Option<R> {
    if !(0..=9999).contains(&y) {
        return None;
    }
    let y = y as i64;
    let d = civil_from_days(m.day).2;
    let len = month_len(y, mo);
    let days = (d - len).max(0);
    let mut r = *m;
    r.day = days_from_civil(y, mo, d.min(len));
    let seconds = clip_second(t, &mut r);
    Some(R { m: r, days, seconds })
}

pub fn apply(t: &Table, m: &M, op: Op) -> Option<R> {
    match op {
        Op::Years(n) => {
            let (y, mo, _) = civil_from_days(m.day);
            set_year_month(t, m, y as i128 + n as i128, mo)
        }
        Op::Months(n) => {
            let (y, mo, _) = civil_from_days(m.day);
            let k = y as i128 * 12 + (mo - 1) as i128 + n as i128;
            set_year_month(t, m, k.div_euclid(12), k.rem_euclid(12) as i64 + 1)
        }
        Op::Days(n) => {
            let mut r = *m;
            r.day += n as i64;
            if !r.in_range() {
                return None;
            }
            let seconds = clip_second(t, &mut r);
            Some(R { m: r, days: 0, seconds })
        }
        Op::Hours(n) => minutes(t, m, n as i128 * 60),
        Op::Minutes(n) => minutes(t, m, n as i128),
        Op::Seconds(n) => {
            let (day, sod) = t.locate(t.instant(m.day, m.sod) + n as i128);
            if day < MIN_DAY as i128 || day > MAX_DAY as i128 {
                return None;
            }
            Some(R {
                m: M { day: day as i64, sod, ..*m },
                days: 0,
                seconds: 0,
            })
        }
    }
}

fn minutes(t: &Table, m: &M, n: i128) -> Option<R> {
    let label = (m.sod / 60).min(1439);
    let s = m.sod - label * 60;
    let total = m.day as i128 * 1440 + label as i128 + n;
    let day = total.div_euclid(1440);
    let label = total.rem_euclid(1440) as i64;
    if day < MIN_DAY as i128 || day > MAX_DAY as i128 {
        return None;
    }
    let day = day as i64;
    let len = if label == 1439 { t.day_len(day) - 1439 * 60 } else { 60 };
    let (s, seconds) = if s >= len { (len - 1, s - (len - 1)) } else { (s, 0) };
    Some(R {
        m: M { day, sod: label * 60 + s, ..*m },
        days: 0,
        seconds,
    })
}

/// Applying the carry: the calendar days, then the seconds (with any clipped by moving the days).
pub fn apply_carry(t: &Table, r: &R) -> Option<M> {
    let a = apply(t, &r.m, Op::Days(i32::try_from(r.days).unwrap()))?;
    Some(apply(t, &a.m, Op::Seconds(r.seconds + a.seconds))?.m)
}

// ---------------------------------------------------------------------------------------------------------
// Generators
// ---------------------------------------------------------------------------------------------------------

pub fn gen_day(rng: &mut Rng, t: &Table) -> i64 {
    let d = match rng.below(16) {
        0..=2 => rng.range(MIN_DAY, MAX_DAY),
        3..=6 => rng.pick(&t.entries).0 - 1 + *rng.pick(&[0, 0, 0, -1, 1, 2]),
        7 => rng.pick(&[MIN_DAY, MAX_DAY]) + rng.range(-40, 40),
        8 => {
            rng.pick(&[
                0,
                11_017,
                t.entries[0].0,
                t.entries[t.entries.len() - 1].0,
                MIN_DAY + 60,
                MAX_DAY - 306,
            ]) + rng.range(-3, 3)
        }
        9..=10 => {
            // Month ends.
            let y = gen_year(rng);
            let m = rng.range(1, 12);
            days_from_civil(y, m, month_len(y, m)) + *rng.pick(&[0, 0, 0, -1, 1, -2])
        }
        11..=13 => {
            let y = gen_year(rng);
            days_from_civil(y, 2, 28) + rng.range(0, 2)
        }
        14 => rng.range(-400, 25_500),
        _ => {
            let y = gen_year(rng);
            days_from_civil(y, *rng.pick(&[1, 3, 12]), *rng.pick(&[1, 1, 31]))
        }
    };
    d.clamp(MIN_DAY, MAX_DAY)
}

pub fn gen_year(rng: &mut Rng) -> i64 {
    match rng.below(6) {
        0 => rng.range(0, 9999),
        1 => rng.range(0, 99) * 100,
        2 => rng.range(0, 24) * 400,
        3 => rng.range(0, 2499) * 4,
        4 => (rng.range(0, 99) * 100 + rng.range(-4, 4)).clamp(0, 9999),
        _ => rng.range(1970, 2040),
    }
}

pub fn gen_sod(rng: &mut Rng, len: i64) -> i64 {
    match rng.below(8) {
        0..=2 => rng.range(0, len - 1),
        3..=5 => len - 1 - rng.below(3) as i64,
        6 => (*rng.pick(&[
            0, 1, 59, 60, 61, 3599, 3600, 43_200, 65_534, 65_535, 65_536, 65_537, 82_799, 82_800, 86_339,
            86_340, 86_341, 86_398, 86_399,
        ]))
        .min(len - 1),
        _ => (rng.range(0, 1439) * 60 + *rng.pick(&[0, 1, 58, 59])).min(len - 1),
    }
}

pub fn gen_ns(rng: &mut Rng) -> u32 {
    match rng.below(6) {
        0 => 0,
        1 => 999_999_999,
        2 => rng.below(1_000_000_000) as u32,
        3 => (1u32 << rng.below(30)).min(999_999_999),
        4 => ((1u64 << rng.below(31)) - 1).min(999_999_999) as u32,
        _ => *rng.pick(&[65_535, 65_536, 65_537, 999, 1000, 999_999, 1_000_000, 536_870_911, 536_870_912]),
    }
}

pub fn gen_prec(rng: &mut Rng) -> u8 {
    *rng.pick(&[5, 5, 5, 8, 8, 8, 6, 7, 4, 3, 2, 1, 0])
}

pub fn gen_m(rng: &mut Rng, t: &Table) -> M {
    let day = gen_day(rng, t);
    M {
        day,
        sod: gen_sod(rng, t.day_len(day)),
        ns: gen_ns(rng),
        prec: gen_prec(rng),
    }
    .canonical()
}

/// Amounts of each unit, aimed at targets that matter.
pub fn gen_op(rng: &mut Rng, t: &Table, m: &M, unit: u8) -> Op {
    let (ymin, ymax) = (0i64, 9999i64);
    let (y, mo, _) = civil_from_days(m.day);
    let style = rng.below(20);
    let target = M {
        day: gen_day(rng, t),
        sod: 0,
        ns: 0,
        prec: 8,
    };
    let target_sod = gen_sod(rng, t.day_len(target.day));
    let (ty, tm, _) = civil_from_days(target.day);
    let jitter = *rng.pick(&[0, 0, 0, 1, -1]);
    let small = rng.range(-3, 3);
    // Exact distances to targets and to the two ends of the range, and the period after which each
    // quantity repeats.
    let inst = |d: i64, s: i64| -> i128 { t.instant(d, s) };
    let (to_target, to_min, to_max, period): (i128, i128, i128, i128) = match unit {
        0 => ((ty - y) as i128, (ymin - y) as i128, (ymax - y) as i128, 400),
        1 => (
            ((ty - y) * 12 + tm - mo) as i128,
            ((ymin - y) * 12 + 1 - mo) as i128,
            ((ymax - y) * 12 + 12 - mo) as i128,
            4800,
        ),
        2 => (
            (target.day - m.day) as i128,
            (MIN_DAY - m.day) as i128,
            (MAX_DAY - m.day) as i128,
            146_097,
        ),
        3 | 4 => {
            let label = (m.sod / 60).min(1439);
            let tl = (target_sod / 60).min(1439);
            let tl = if rng.chance(1, 3) { 1439 } else { tl };
            let k = if unit == 3 { 60 } else { 1 };
            (
                ((target.day - m.day) * 1440 + tl - label) as i128 / k,
                ((MIN_DAY - m.day) * 1440 - label) as i128 / k,
                ((MAX_DAY - m.day) * 1440 + 1439 - label) as i128 / k,
                (146_097 * 1440) / k,
            )
        }
        _ => (
            inst(target.day, target_sod) - inst(m.day, m.sod),
            inst(MIN_DAY, 0) - inst(m.day, m.sod),
            inst(MAX_DAY, 86_399) - inst(m.day, m.sod),
            146_097 * 86_400,
        ),
    };
    let (tmin, tmax, bits): (i128, i128, u32) = match unit {
        0 => (i16::MIN as i128, i16::MAX as i128, 16),
        1 | 2 | 3 => (i32::MIN as i128, i32::MAX as i128, 32),
        _ => (i64::MIN as i128, i64::MAX as i128, 64),
    };
    let n: i128 = match style {
        0..=1 => small as i128,
        2..=8 => to_target + jitter as i128,
        9 => rng.range(-400, 400) as i128,
        10..=11 => rng.log_signed(bits - 1) as i128,
        12 => to_min + small as i128,
        13 => to_max + small as i128,
        14 => *rng.pick(&[tmin, tmin + 1, tmax, tmax - 1, tmin / 2, tmax / 2, tmax / 2 + 1, 0]),
        15 => {
            // Something that would look like a small or targeted amount after losing high bits.
            let modulus = 1i128 << *rng.pick(&[7, 8, 15, 16, 31, 32, 33, 40, 48, 56, 63]);
            let unit_mult = match unit {
                2 => *rng.pick(&[1, 146_097]),
                3 => *rng.pick(&[1, 24, 24 * 146_097]),
                4 => *rng.pick(&[1, 60, 1440, 1440 * 146_097]),
                5 => *rng.pick(&[1, 60, 3600, 86_400, 86_400 * 146_097]),
                1 => *rng.pick(&[1, 12, 4800]),
                _ => *rng.pick(&[1, 4, 100, 400]),
            };
            let base = if rng.chance(1, 2) { small as i128 } else { to_target };
            base + modulus * unit_mult * *rng.pick(&[1, -1, 2, -2, 3])
        }
        16 => {
            // Whole calendar periods.
            let k = rng.range(-30, 30) as i128;
            k * period + small as i128
        }
        17..=18 => {
            // Relative to a leap second: just before, on and after it.
            let e = *rng.pick(&t.entries);
            let d = match unit {
                2 => (e.0 - 1 - m.day) as i128,
                5 => inst(e.0, 0) - inst(m.day, m.sod),
                0 => (civil_from_days(e.0 - 1).0 - y) as i128,
                1 => {
                    let (ey, em, _) = civil_from_days(e.0 - 1);
                    ((ey - y) * 12 + em - mo) as i128
                }
                _ => to_target,
            };
            d + if unit == 5 { small as i128 } else { jitter as i128 }
        }
        _ => rng.range(to_min as i64, to_max as i64) as i128,
    };
    let n = n.clamp(tmin, tmax);
    match unit {
        0 => Op::Years(n as i16),
        1 => Op::Months(n as i32),
        2 => Op::Days(n as i32),
        3 => Op::Hours(n as i32),
        4 => Op::Minutes(n as i64),
        _ => Op::Seconds(n as i64),
    }
}

/// Cross-checks of the oracle against direct enumeration.
pub fn self_check() {
    let t = Table {
        entries: vec![(100, 1), (200, -1), (300, 1), (400, 0)],
    };
    let mut d = -3i64;
    let mut s = 0i64;
    let mut inst = t.instant(d, s);
    while d < 410 {
        assert_eq!(t.locate(inst), (d as i128, s));
        assert_eq!(t.instant(d, s), inst);
        // Skip the boring middle of each day.
        let skip = if s == 10 { 86_300 } else { 1 };
        s += skip;
        inst += skip as i128;
        if s >= t.day_len(d) {
            s = 0;
            d += 1;
        }
    }
    assert_eq!(t.day_len(99), 86_401);
    assert_eq!(t.day_len(199), 86_399);
}
