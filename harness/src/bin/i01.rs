//! Monitor for I01.
#![allow(unused_imports)]

use harness::all_types;
use harness::big::*;
use harness::dt::{make_dirs, use_tzdir, write_tzdir, SYSTEM_TZDIR};
use harness::leap::Table;
use harness::mon::*;
use harness::rng::*;
use harness::ticks::*;
use momentous::{Duration, Instant, InstantOutOfRange, Scale};
use std::cmp::Ordering;
use std::path::Path;
use std::time::{SystemTime, UNIX_EPOCH};

fn main() {
    install_hook();
    run(&Args::parse(), work)
}

pub fn work(a: &Args) -> Tally {
    self_check(&mut Rng::new(&[a.seed]));
    i01(a)
}

#[derive(Clone, Copy)]
struct SysCase {
    t: TypeInfo,
    s: u32,
    f: fn(SystemTime) -> Result<Option<Big>, Panicked>,
}

fn sys_obs<T: Num, S: Scale>(st: SystemTime) -> Result<Option<Big>, Panicked>
where
    Instant<T, S>: TryFrom<SystemTime>,
{
    catch(|| <Instant<T, S> as TryFrom<SystemTime>>::try_from(st).ok().map(|i| i.ticks_since_epoch().big()))
}

/// A system time from floor seconds and nanoseconds, if the platform can represent it.
pub fn system_time(secs: i64, ns: u32) -> Option<SystemTime> {
    let base = if secs >= 0 {
        UNIX_EPOCH.checked_add(std::time::Duration::new(secs as u64, 0))?
    } else {
        UNIX_EPOCH.checked_sub(std::time::Duration::new(secs.unsigned_abs(), 0))?
    };
    base.checked_add(std::time::Duration::new(0, ns))
}

fn i01(a: &Args) -> Tally {
    let mut cases: Vec<SysCase> = Vec::new();
    macro_rules! sy {
        ($v:ident, $t:ty, $($s:ty),*) => { $(
            $v.push(SysCase { t: info::<$t>(), s: <$s>::TICKS_PER_SECOND, f: sys_obs::<$t, $s> });
        )* };
    }
    macro_rules! sys_for {
        ($t:ident, $v:ident) => { sy!($v, $t, S1, S2, S5, S10, S100, S250, S512, S1000, S1M, S250M, S500M, SNs, S3, S7, S24, S30, S60, S32K, S44K, S90K, S3G, S4G, SPRIME, SMAX); };
    }
    all_types!(sys_for, cases);
    let dirs = make_dirs(&a.scratch, a.seed, 9);
    let mut total = Tally::new(0);
    let per_dir = a.n(4_000, 120_000);
    for (di, dir) in dirs.iter().enumerate() {
        use_tzdir(&dir.dir);
        let table: &Table = &dir.table;
        let part = shards((0..a.threads).collect(), |t, _w, shard| {
            let mut rng = Rng::new(&[a.seed, hash_str("I01"), di as u64, shard]);
            for _ in 0..per_dir {
                let secs: i64 = match rng.below(12) {
                    0..=4 => {
                        // At the leap seconds.
                        let e = rng.pick(&table.entries);
                        e.0 * 86_400 + rng.range(-3, 3) + *rng.pick(&[0, 0, 0, 86_400, -86_400, 43_200])
                    }
                    5 => rng.range(-5, 5) + *rng.pick(&[0i64, i32::MAX as i64, i32::MIN as i64, u32::MAX as i64, 86_400, -86_400]),
                    6 => rng.range(-100_000_000_000, 100_000_000_000),
                    7 => rng.range(0, 2_300_000_000),
                    8 => rng.log_signed(63),
                    9 => *rng.pick(&[i64::MAX, i64::MAX - 1, i64::MIN, i64::MIN + 1, i64::MAX / 86_400 * 86_400, (i32::MAX as i64 + 1) * 86_400, (i32::MIN as i64 - 1) * 86_400 - 1])
                        - if rng.chance(1, 2) { 0 } else { 1 } * rng.range(0, 2).min(0),
                    10 => {
                        // A day number that wraps onto one with leap seconds when squeezed into 32 bits.
                        let e = rng.pick(&table.entries);
                        (e.0 + (1i64 << 32) * rng.range(-3, 3)) * 86_400 + rng.range(-2, 2)
                    }
                    _ => {
                        let t0 = *rng.pick(&[table.entries[0].0, table.entries[table.entries.len() - 1].0]) * 86_400;
                        t0 + rng.range(-200_000, 200_000)
                    }
                };
                let ns = match rng.below(6) {
                    0 => 0,
                    1 => 999_999_999,
                    2 => 1,
                    3 => *rng.pick(&[500_000_000, 499_999_999, 1000, 999_999, 1_000_000, 1_953_125, 1_953_124]),
                    _ => rng.below(1_000_000_000) as u32,
                };
                let Some(st) = system_time(secs, ns) else {
                    t.count("times the platform cannot represent");
                    continue;
                };
                // A deleted second never happened: the clock cannot read it.
                let day = secs.div_euclid(86_400);
                if secs.rem_euclid(86_400) >= table.day_len(day) {
                    t.count("readings inside a deleted second skipped");
                    continue;
                }
                let leaps = table.before_day(day);
                let elapsed_ns = big(secs as i128 + leaps as i128).mul(big(1_000_000_000)).add(big(ns as i128));
                // A few tick types and scales per time; nanoseconds in i128 always.
                for k in 0..5 {
                    let c = if k == 0 { cases.iter().find(|c| c.t.name == "i128" && c.s == 1_000_000_000).unwrap() } else { rng.pick(&cases) };
                    // Half of the time, step onto the edge between two ticks of this scale.
                    let (mut st, mut ns, mut elapsed_ns) = (st, ns, elapsed_ns);
                    if rng.chance(1, 2) {
                        let tick = (ns as u64 * c.s as u64 / 1_000_000_000).saturating_add(rng.below(2));
                        let edge = (tick * 1_000_000_000).div_ceil(c.s as u64) as i64 - rng.below(2) as i64;
                        if (0..1_000_000_000).contains(&edge) {
                            if let Some(moved) = system_time(secs, edge as u32) {
                                elapsed_ns = elapsed_ns.sub(big(ns as i128)).add(big(edge as i128));
                                (st, ns) = (moved, edge as u32);
                                t.count("at the edge between two ticks");
                            }
                        }
                    }
                    if 1_000_000_000 % c.s != 0 {
                        t.count("ticks that are not a whole number of nanoseconds");
                    }
                    let ticks = elapsed_ns.mul(Big::from_u128(c.s as u128)).div_floor(big(1_000_000_000)).0;
                    let want = if c.t.fits(&ticks) { Some(ticks) } else { None };
                    t.count(if want.is_some() { "converted" } else { "out of the tick type" });
                    if secs < 0 {
                        t.count("before 1970");
                        if ns != 0 {
                            t.count("before 1970 with a sub-second part");
                        }
                    }
                    if leaps != 0 {
                        t.count("with leap seconds counted");
                    }
                    t.eval(key(&[&elapsed_ns], hash_all(&[di as u64, c.s as u64, hash_str(c.t.name)])), leaps != 0 || secs < 0);
                    let ctx = || format!("unix time {secs} s + {ns} ns to {} ticks of 1/{} s [leap table {:?}]", c.t.name, c.s, table.entries);
                    match (c.f)(st) {
                        Ok(g) if g == want => {}
                        Ok(g) => t.violation("conversion", format!("{}: {:?}, expected {:?}", ctx(), g.map(|g| show(&g)), want.map(|w| show(&w)))),
                        Err(p) => t.violation("conversion", format!("{}: panics: {} at {}", ctx(), p.msg, p.loc)),
                    }
                    t.sample(|| format!("{} = {:?}", ctx(), want.map(|w| show(&w))));
                }
                if t.enough() {
                    return;
                }
            }
        });
        total.merge(part);
        total.count("databases");
    }
    // Every leap second of many more tables, at the exact boundary.
    let rounds = a.n(40, 2_000);
    for round in 0..rounds {
        let mut rng = Rng::new(&[a.seed, 0x1012, round]);
        let table = Table::random(&mut rng, round);
        let dir = Path::new(&a.scratch).join("i01");
        write_tzdir(&dir, &table, &mut rng);
        use_tzdir(&dir);
        for e in &table.entries {
            for secs in e.0 * 86_400 - 2..=e.0 * 86_400 + 1 {
                let day = secs.div_euclid(86_400);
                if secs.rem_euclid(86_400) >= table.day_len(day) {
                    continue;
                }
                let want = (secs + table.before_day(day)) as i128;
                total.eval(key(&[&big(want)], hash_all(&[7, round])), true);
                match sys_obs::<i64, S1>(system_time(secs, 0).unwrap()) {
                    Ok(Some(g)) if g == big(want) => total.count("boundaries of random tables"),
                    r => total.violation("conversion", format!("unix time {secs}: {r:?}, expected {want} [leap table {:?}]", table.entries)),
                }
            }
        }
    }
    use_tzdir(Path::new(SYSTEM_TZDIR));
    total
}
