//! Driving `momentous::iso8601` and observing it at its API boundary.

use crate::cal::*;
use crate::leap::Table;
use crate::model::*;
use crate::mon::*;
use crate::rng::Rng;
use momentous::iso8601::{load_chronology, Chronology, DateTime, DateTimeBuilder, DateTimeWithCarry};
use std::path::{Path, PathBuf};

pub const SYSTEM_TZDIR: &str = "/usr/share/zoneinfo";

/// A loaded chronology and the leap-second table it must obey.
pub struct Env {
    pub chr: Chronology,
    pub table: Table,
    pub name: String,
}

pub struct World {
    pub envs: Vec<Env>,
}

pub struct TableDir {
    pub dir: PathBuf,
    pub table: Table,
    pub name: String,
}

/// Write a time-zone database directory whose `right/` zones all have this leap table.
pub fn write_tzdir(dir: &Path, table: &Table, rng: &mut Rng) -> Vec<String> {
    let right = dir.join("right");
    std::fs::create_dir_all(right.join("Mock")).expect("scratch dir");
    std::fs::write(right.join("UTC"), table.tzif(0, "UTC", &[], None)).expect("scratch file");
    let mut zones = vec!["UTC".to_string()];
    for (name, off) in [("Mock/East", 3600 * 14), ("Mock/West", -3600 * 12), ("Mock/Odd", 20_700)] {
        let mut ts: Vec<(i32, u8)> = (0..rng.below(20))
            .map(|_| (rng.range(i32::MIN as i64, i32::MAX as i64) as i32, rng.below(2) as u8))
            .collect();
        ts.sort();
        ts.dedup_by_key(|t| t.0);
        std::fs::write(right.join(name), table.tzif(off, "MCK", &ts, Some(off + 3600))).expect("scratch file");
        zones.push(name.to_string());
    }
    zones
}

pub fn make_dirs(scratch: &str, seed: u64, n: u64) -> Vec<TableDir> {
    let mut out = vec![TableDir {
        dir: SYSTEM_TZDIR.into(),
        table: Table::read(&Path::new(SYSTEM_TZDIR).join("right/UTC")),
        name: "system".into(),
    }];
    for k in 0..n {
        let mut rng = Rng::new(&[seed, 0x7AB1E, k]);
        let table = Table::random(&mut rng, k);
        let dir = Path::new(scratch).join(format!("tz{k}"));
        write_tzdir(&dir, &table, &mut rng);
        out.push(TableDir {
            dir,
            table,
            name: format!("synthetic-{k} {:?}", ""),
        });
    }
    out
}

pub fn use_tzdir(dir: &Path) {
    std::env::set_var("TZDIR", dir);
}

/// One world per thread, each with chronologies of its own for the same tables. Single-threaded, because it
/// changes the environment. Leaves TZDIR at the system's database.
pub fn make_worlds(args: &Args, tables: u64) -> Vec<World> {
    let dirs = make_dirs(&args.scratch, args.seed, tables);
    let mut worlds: Vec<World> = (0..args.threads).map(|_| World { envs: vec![] }).collect();
    for (i, d) in dirs.iter().enumerate() {
        use_tzdir(&d.dir);
        for w in worlds.iter_mut() {
            let zone = if i == 0 || i % 3 == 0 {
                "UTC"
            } else if i % 3 == 1 {
                "Mock/East"
            } else {
                "Mock/West"
            };
            w.envs.push(Env {
                chr: load_chronology(zone),
                table: d.table.clone(),
                name: d.name.clone(),
            });
        }
    }
    use_tzdir(Path::new(SYSTEM_TZDIR));
    worlds
}

impl World {
    pub fn pick<'a>(&'a self, rng: &mut Rng) -> &'a Env {
        if rng.chance(1, 4) {
            &self.envs[0]
        } else {
            rng.pick(&self.envs)
        }
    }
}

impl Env {
    pub fn show(&self) -> String {
        if self.name == "system" {
            "system leap table".into()
        } else {
            format!("leap table {:?}", self.table.entries)
        }
    }
}

/// Raw builder components, given up to a precision.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Raw {
    pub y: u16,
    pub mo: u8,
    pub d: u8,
    pub h: u8,
    pub mi: u8,
    pub s: u8,
    pub ms: u16,
    pub us: u16,
    pub ns: u16,
    pub prec: u8,
}

impl Raw {
    pub fn of(m: &M) -> Raw {
        let f = m.fields();
        Raw {
            y: f.y as u16,
            mo: f.mo as u8,
            d: f.d as u8,
            h: f.h as u8,
            mi: f.mi as u8,
            s: f.s as u8,
            ms: (m.ns / 1_000_000) as u16,
            us: (m.ns / 1000 % 1000) as u16,
            ns: (m.ns % 1000) as u16,
            prec: m.prec,
        }
    }

    pub fn set(&self, b: &mut DateTimeBuilder) {
        b.year(self.y);
        let p = self.prec;
        if p >= MONTH {
            b.month(self.mo);
        }
        if p >= DAY {
            b.day(self.d);
        }
        if p >= HOUR {
            b.hour(self.h);
        }
        if p >= MINUTE {
            b.minute(self.mi);
        }
        if p >= SECOND {
            b.second(self.s);
        }
        if p >= 6 {
            b.millisecond(self.ms);
        }
        if p >= 7 {
            b.microsecond(self.us);
        }
        if p >= 8 {
            b.nanosecond(self.ns);
        }
    }

    pub fn builder(&self, chr: Option<&Chronology>) -> DateTimeBuilder {
        let mut b = DateTimeBuilder::new();
        if let Some(c) = chr {
            b.chronology(c);
        }
        self.set(&mut b);
        b
    }

    /// What the builder must do with these components: the date-time, or an error that is only allowed to
    /// be "out of bounds" / "invalid".
    pub fn expected(&self, t: &Table) -> Result<M, ErrKind> {
        let p = self.prec;
        let mo = if p >= MONTH { self.mo } else { 1 } as i64;
        let d = if p >= DAY { self.d } else { 1 } as i64;
        let h = if p >= HOUR { self.h } else { 0 } as i64;
        let mi = if p >= MINUTE { self.mi } else { 0 } as i64;
        let s = if p >= SECOND { self.s } else { 0 } as i64;
        let ms = if p >= 6 { self.ms } else { 0 } as u32;
        let us = if p >= 7 { self.us } else { 0 } as u32;
        let ns = if p >= 8 { self.ns } else { 0 } as u32;
        let y = self.y as i64;
        let date_ok = (1..=12).contains(&mo) && d >= 1 && d <= month_len(y, mo);
        let minute_ok = h < 24 && mi < 60;
        let mut rest_ok = date_ok && minute_ok && ms < 1000 && us < 1000 && ns < 1000;
        let mut day = 0;
        if date_ok && minute_ok {
            day = days_from_civil(y, mo, d);
            let len = if h == 23 && mi == 59 && y <= 9999 {
                t.day_len(day) - 86_340
            } else {
                60
            };
            rest_ok &= s < len;
        }
        match (y <= 9999, rest_ok) {
            (true, true) => Ok(M {
                day,
                sod: h * 3600 + mi * 60 + s,
                ns: ms * 1_000_000 + us * 1000 + ns,
                prec: p,
            }),
            (true, false) => Err(ErrKind::Invalid),
            (false, true) => Err(ErrKind::OutOfBounds),
            (false, false) => Err(ErrKind::Either),
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum ErrKind {
    Invalid,
    OutOfBounds,
    Either,
}

pub fn fields_of(dt: &DateTime) -> Fields {
    Fields {
        y: dt.year() as i64,
        mo: dt.month() as i64,
        d: dt.day() as i64,
        h: dt.hour() as i64,
        mi: dt.minute() as i64,
        s: dt.second() as i64,
    }
}

/// Build the date-time of a model value, which for precisions coarser than a second may lie off the grid the
/// builder reaches and is then reached by adding seconds.
pub fn build(chr: &Chronology, t: &Table, m: &M) -> Result<DateTime, String> {
    let c = m.canonical();
    let dt = match catch_pure(|| Raw::of(&c).builder(Some(chr)).checked_build().map_err(|e| format!("{e:?}"))) {
        Ok(Ok(dt)) => dt,
        Ok(Err(e)) => return Err(format!("the builder rejects {}: {e}", c.show())),
        Err(p) => return Err(format!("the builder panics on {}: {} at {}", c.show(), p.msg, p.loc)),
    };
    if c == *m {
        return Ok(dt);
    }
    let diff = t.instant(m.day, m.sod) - t.instant(c.day, c.sod);
    match catch_pure(|| dt.checked_add_seconds(diff as i64)) {
        Ok(Some(dt)) => Ok(dt),
        Ok(None) => Err(format!("{} + {diff} seconds is out of bounds", c.show())),
        Err(p) => Err(format!("{} + {diff} seconds panics: {} at {}", c.show(), p.msg, p.loc)),
    }
}

/// Everything observable of a date-time must be that of the model value.
pub fn observe(env: &Env, dt: &DateTime, m: &M) -> Result<(), String> {
    let f = match catch_pure(|| fields_of(dt)) {
        Ok(f) => f,
        Err(p) => return Err(format!("reading components panics: {} at {}", p.msg, p.loc)),
    };
    let e = m.fields();
    if f != e {
        return Err(format!(
            "reads {:04}-{:02}-{:02}T{:02}:{:02}:{:02}, expected {}",
            f.y, f.mo, f.d, f.h, f.mi, f.s, m.show()
        ));
    }
    let same = build(&env.chr, &env.table, m)?;
    match catch_pure(|| (same == *dt, *dt == same, *dt != same)) {
        Ok((true, true, false)) => Ok(()),
        Ok(eqs) => Err(format!(
            "has the components of {} but differs from it in precision or sub-second part (== gives {eqs:?}): {dt:?}",
            m.show()
        )),
        Err(p) => Err(format!("comparing panics: {} at {}", p.msg, p.loc)),
    }
}

pub enum Out {
    Carry(DateTimeWithCarry),
    Plain(DateTime),
}

pub fn checked(dt: &DateTime, op: Op) -> Result<Option<Out>, Panicked> {
    catch_pure(|| match op {
        Op::Years(n) => dt.checked_add_years(n).map(Out::Carry),
        Op::Months(n) => dt.checked_add_months(n).map(Out::Carry),
        Op::Days(n) => dt.checked_add_days(n).map(Out::Carry),
        Op::Hours(n) => dt.checked_add_hours(n).map(Out::Carry),
        Op::Minutes(n) => dt.checked_add_minutes(n).map(Out::Carry),
        Op::Seconds(n) => dt.checked_add_seconds(n).map(Out::Plain),
    })
}

pub fn unchecked(dt: &DateTime, op: Op) -> Result<Out, Panicked> {
    catch_pure(|| match op {
        Op::Years(n) => Out::Carry(dt.add_years(n)),
        Op::Months(n) => Out::Carry(dt.add_months(n)),
        Op::Days(n) => Out::Carry(dt.add_days(n)),
        Op::Hours(n) => Out::Carry(dt.add_hours(n)),
        Op::Minutes(n) => Out::Carry(dt.add_minutes(n)),
        Op::Seconds(n) => Out::Plain(dt.add_seconds(n)),
    })
}

impl Out {
    /// The (clipped) date-time and its carry in days and seconds.
    pub fn parts(self) -> (DateTime, i64, i64) {
        match self {
            Out::Carry(c) => {
                let (d, s) = (c.days_carry() as i64, c.seconds_carry() as i64);
                (c.drop_carry(), d, s)
            }
            Out::Plain(dt) => (dt, 0, 0),
        }
    }
}

/// The value returned by an addition against what it must be.
pub fn observe_result(env: &Env, out: Out, r: &R) -> Result<DateTime, String> {
    let (dt, days, seconds) = match catch_pure(|| out.parts()) {
        Ok(x) => x,
        Err(p) => return Err(format!("reading the carry panics: {} at {}", p.msg, p.loc)),
    };
    if (days, seconds) != (r.days, r.seconds) {
        return Err(format!(
            "reports a carry of {days} days and {seconds} seconds, expected {} days and {} seconds with result {} (got {dt:?})",
            r.days,
            r.seconds,
            r.m.show()
        ));
    }
    observe(env, &dt, &r.m)?;
    Ok(dt)
}

pub fn describe(env: &Env, m: &M, op: Op) -> String {
    format!("{} + {} {} [{}]", m.show(), op.amount(), op.name(), env.show())
}

/// One addition: judged in full when the model says it is in range. Returns the result for further use.
pub fn step(t: &mut Tally, env: &Env, m: &M, dt: &DateTime, op: Op, also_unchecked: bool) -> Option<(DateTime, M)> {
    let expected = apply(&env.table, m, op);
    let Some(r) = expected else {
        t.count("out-of-range targets skipped");
        return None;
    };
    let got = checked(dt, op);
    let res = match got {
        Err(p) => Err(format!("panics: {} at {}", p.msg, p.loc)),
        Ok(None) => Err(format!("is reported out of bounds, expected {}", r.m.show())),
        Ok(Some(out)) => observe_result(env, out, &r),
    };
    if also_unchecked {
        let un = match unchecked(dt, op) {
            Err(p) => Err(format!("(unchecked) panics: {} at {}", p.msg, p.loc)),
            Ok(out) => observe_result(env, out, &r).map_err(|e| format!("(unchecked) {e}")),
        };
        if let Err(e) = un {
            t.violation("addition", format!("{} {e}", describe(env, m, op)));
        }
    }
    match res {
        Ok(dt) => Some((dt, r.m)),
        Err(e) => {
            t.violation("addition", format!("{} {e}", describe(env, m, op)));
            None
        }
    }
}
