//! Monitors for the calendar date-time properties (B*, A*, L*).

use harness::cal::*;
use harness::dt::*;
use harness::leap::Table;
use harness::model::*;
use harness::mon::*;
use harness::rng::*;
use momentous::iso8601::{load_chronology, Chronology, DateTime, DateTimeBuilder, DateTimeWithCarry};
use momentous::InstantNs128;
use std::collections::HashMap;
use std::os::unix::ffi::OsStrExt;
use std::path::Path;
use std::sync::Arc;
use std::time::{Duration, SystemTime, UNIX_EPOCH};

fn main() {
    install_hook();
    run(&Args::parse(), work)
}

pub fn work(a: &Args) -> Tally {
    model_self_check();
    match a.prop.as_str() {
        "B01" => b01(a),
        "B02" => b02(a),
        "B03" => b03(a),
        "B04" => b04(a),
        "T01" => t01(a),
        "E01" => e01(a),
        "A01" => arith(a, &[5], 4_000_000),
        "A02" => arith(a, &[2], 4_000_000),
        "A03" => arith(a, &[1], 4_000_000),
        "A04" => arith(a, &[0], 4_000_000),
        "A05" => arith(a, &[3, 4, 4], 4_000_000),
        "A06" => a06(a),
        "A07" => a07(a),
        "A08" => a08(a),
        "L01" => l01(a),
        "L02" => l02(a),
        "L03" => l03(a),
        p => panic!("unknown property {p}"),
    }
}

fn model_self_check() {
    assert_eq!(cal_days(), 3_652_425);
    harness::model::self_check();
}

fn cal_days() -> u64 {
    harness::cal::self_check()
}

fn rng_for(a: &Args, shard: u64) -> Rng {
    Rng::new(&[a.seed, hash_str(&a.prop), shard])
}

// ---------------------------------------------------------------------------------------------------------
// B01
// ---------------------------------------------------------------------------------------------------------

fn judge_build(t: &mut Tally, chr: Option<&Chronology>, table: &Table, raw: &Raw, with_panicking: bool) {
    let expected = raw.expected(table);
    let b = raw.builder(chr);
    let got = catch(|| b.checked_build().map_err(|e| format!("{e:?}")));
    t.eval(
        hash_all(&[
            raw.y as u64 | (raw.mo as u64) << 16 | (raw.d as u64) << 24 | (raw.h as u64) << 32 | (raw.mi as u64) << 40,
            raw.s as u64 | (raw.ms as u64) << 16 | (raw.us as u64) << 32 | (raw.ns as u64) << 48,
            raw.prec as u64,
        ]),
        true,
    );
    let bad = match (&got, &expected) {
        (Err(p), _) => Some(format!("checked building panics: {} at {}", p.msg, p.loc)),
        (Ok(Ok(_)), Ok(_)) => None,
        (Ok(Ok(dt)), Err(e)) => Some(format!("builds {dt:?}, expected the error {e:?}")),
        (Ok(Err(e)), Ok(m)) => Some(format!("is rejected ({e}), expected {}", m.show())),
        (Ok(Err(e)), Err(k)) => {
            let want = match k {
                ErrKind::Invalid => Some("invalid datetime"),
                ErrKind::OutOfBounds => Some("datetime out of bounds"),
                ErrKind::Either => None,
            };
            match want {
                Some(w) if w != e => Some(format!("is rejected with {e:?}, expected {w:?}")),
                _ => None,
            }
        }
    };
    if let Some(bad) = bad {
        t.violation("build", format!("{raw:?} [{:?}] {bad}", table.entries));
    }
    match &expected {
        Ok(_) => t.count("accepted"),
        Err(ErrKind::Invalid) => t.count("rejected as invalid"),
        Err(ErrKind::OutOfBounds) => t.count("rejected as out of bounds"),
        Err(ErrKind::Either) => t.count("rejected, either error"),
    }
    if with_panicking {
        t.count("unchecked builds");
        match (catch(|| b.build()), &expected, &got) {
            (Ok(dt), Ok(_), Ok(Ok(c))) if dt == *c || chr.is_none() => {}
            (Err(p), Err(k), _) => {
                let want: &[&str] = match k {
                    ErrKind::Invalid => &["invalid datetime"],
                    ErrKind::OutOfBounds => &["datetime out of bounds"],
                    ErrKind::Either => &["invalid datetime", "datetime out of bounds"],
                };
                if !want.contains(&p.msg.as_str()) {
                    t.violation("unchecked build", format!("{raw:?} panics with {:?}, expected {want:?}", p.msg));
                }
            }
            (r, _, _) => t.violation(
                "unchecked build",
                format!("{raw:?} [{:?}] unchecked building gives {r:?}, expected {expected:?}", table.entries),
            ),
        }
    }
}

fn b01(a: &Args) -> Tally {
    let worlds = make_worlds(a, 13);
    let threads = a.threads;
    let n_rand = a.n(4_000_000, 60_000_000);
    let n_days = a.n(60, 400);
    let mut total = shards(worlds, |t, w, shard| {
        let mut rng = rng_for(a, shard);
        // Every date of the range, and every impossible month and day next to it.
        let env = &w.envs[(a.seed % w.envs.len() as u64) as usize];
        for y in (shard..10_003).step_by(threads as usize) {
            for mo in 0..=13u8 {
                for d in 0..=32u8 {
                    let raw = Raw { y: y as u16, mo, d, h: 0, mi: 0, s: 0, ms: 0, us: 0, ns: 0, prec: DAY };
                    judge_build(t, Some(&env.chr), &env.table, &raw, false);
                }
                if y % 4 == 0 {
                    for d in [33, 64, 127, 128, 129, 255] {
                        let raw = Raw { y: y as u16, mo, d, h: 0, mi: 0, s: 0, ms: 0, us: 0, ns: 0, prec: DAY };
                        judge_build(t, Some(&env.chr), &env.table, &raw, false);
                    }
                }
                let raw = Raw { y: y as u16, mo, d: 0, h: 0, mi: 0, s: 0, ms: 0, us: 0, ns: 0, prec: MONTH };
                judge_build(t, Some(&env.chr), &env.table, &raw, false);
            }
            let raw = Raw { y: y as u16, mo: 0, d: 0, h: 0, mi: 0, s: 0, ms: 0, us: 0, ns: 0, prec: YEAR };
            judge_build(t, Some(&env.chr), &env.table, &raw, false);
        }
        for y in (9_990 + shard..=65_535).step_by(threads as usize) {
            let raw = Raw { y: y as u16, mo: 2, d: 28 + (y % 3) as u8, h: 0, mi: 0, s: 0, ms: 0, us: 0, ns: 0, prec: (y % 3) as u8 };
            judge_build(t, Some(&env.chr), &env.table, &raw, false);
        }
        t.count("full date sweeps");
        // The last minutes of days around every leap second of every table, second by second.
        for (i, env) in w.envs.iter().enumerate() {
            for (j, e) in env.table.entries.iter().enumerate() {
                if (i + j) as u64 % threads != shard {
                    continue;
                }
                for day in e.0 - 3..=e.0 + 1 {
                    let (y, mo, d) = civil_from_days(day);
                    for (h, mi) in [(23, 59), (23, 58), (22, 59), (0, 0), (0, 59), (12, 30)] {
                        for s in 0..=70u8 {
                            let raw = Raw { y: y as u16, mo: mo as u8, d: d as u8, h, mi, s, ms: 0, us: 0, ns: 0, prec: SECOND };
                            judge_build(t, Some(&env.chr), &env.table, &raw, s > 55 && s < 64);
                        }
                        t.count("minutes swept second by second near a leap entry");
                    }
                }
            }
        }
        // Whole days: every hour, minute and second value in and just out of range.
        for _ in 0..n_days / threads + 1 {
            let env = w.pick(&mut rng);
            let day = gen_day(&mut rng, &env.table);
            let (y, mo, d) = civil_from_days(day);
            for h in 0..=25u8 {
                for mi in 0..=61u8 {
                    for s in [0u8, 1, 30, 57, 58, 59, 60, 61, 62, 127, 128, 255] {
                        let raw = Raw { y: y as u16, mo: mo as u8, d: d as u8, h, mi, s, ms: 0, us: 0, ns: 0, prec: SECOND };
                        judge_build(t, Some(&env.chr), &env.table, &raw, false);
                    }
                }
            }
        }
        // Random components at every precision, a few of them out of range.
        for i in 0..n_rand {
            let env = w.pick(&mut rng);
            let m = gen_m(&mut rng, &env.table);
            let mut raw = Raw::of(&m);
            raw.prec = rng.below(9) as u8;
            for _ in 0..rng.below(3) {
                let edge8 = *rng.pick(&[0u8, 1, 2, 12, 13, 23, 24, 25, 28, 29, 30, 31, 32, 58, 59, 60, 61, 62, 99, 127, 128, 188, 254, 255]);
                let edge16 = *rng.pick(&[0u16, 1, 999, 1000, 1001, 1023, 1024, 4095, 9999, 10_000, 32_767, 32_768, 65_535]);
                match rng.below(9) {
                    0 => raw.y = if rng.chance(1, 2) { edge16 } else { rng.u64() as u16 },
                    1 => raw.mo = edge8,
                    2 => raw.d = edge8,
                    3 => raw.h = edge8,
                    4 => raw.mi = edge8,
                    5 => raw.s = edge8,
                    6 => raw.ms = edge16,
                    7 => raw.us = edge16,
                    _ => raw.ns = edge16,
                }
            }
            judge_build(t, Some(&env.chr), &env.table, &raw, i % 16 == 0);
            t.sample(|| format!("{raw:?} -> {:?}", raw.expected(&env.table)));
            if t.enough() {
                return;
            }
        }
    });
    // Builders without a chronology, under two databases.
    for dir in make_dirs(&a.scratch, a.seed, 2) {
        use_tzdir(&dir.dir);
        let mut rng = rng_for(a, 99);
        for _ in 0..a.n(2000, 40_000) {
            let raw = Raw { prec: rng.below(9) as u8, ..Raw::of(&gen_m(&mut rng, &dir.table)) };
            judge_build(&mut total, None, &dir.table, &raw, false);
            total.count("builds with the default chronology");
        }
        use_tzdir(Path::new(SYSTEM_TZDIR));
    }
    total
}

// ---------------------------------------------------------------------------------------------------------
// B02
// ---------------------------------------------------------------------------------------------------------

const COMPS: u8 = 9;

fn set_component(b: &mut DateTimeBuilder, raw: &Raw, c: u8) {
    match c {
        0 => b.year(raw.y),
        1 => b.month(raw.mo),
        2 => b.day(raw.d),
        3 => b.hour(raw.h),
        4 => b.minute(raw.mi),
        5 => b.second(raw.s),
        6 => b.millisecond(raw.ms),
        7 => b.microsecond(raw.us),
        _ => b.nanosecond(raw.ns),
    };
}

fn merge_component(into: &mut Raw, raw: &Raw, c: u8) {
    match c {
        0 => into.y = raw.y,
        1 => into.mo = raw.mo,
        2 => into.d = raw.d,
        3 => into.h = raw.h,
        4 => into.mi = raw.mi,
        5 => into.s = raw.s,
        6 => into.ms = raw.ms,
        7 => into.us = raw.us,
        _ => into.ns = raw.ns,
    };
}

/// B04: builders that lack a component coarser than one given.
fn b04(a: &Args) -> Tally {
    let worlds = make_worlds(a, 8);
    let n = a.n(400_000, 12_000_000);
    shards(worlds, |t, w, shard| {
        let mut rng = rng_for(a, shard);
        for _ in 0..n {
            let env = w.pick(&mut rng);
            let mut target = gen_m(&mut rng, &env.table);
            if rng.chance(1, 2) {
                // Defaults would do: nothing but the lack itself is wrong.
                target = M { day: days_from_civil(rng.range(0, 9999), 1, 1), sod: 0, ns: 0, prec: target.prec };
            }
            let target = Raw { prec: 8, ..Raw::of(&target) };
            let finest = rng.below(9) as u8;
            let mut mask = 0u16;
            match rng.below(12) {
                // All but one.
                0..=3 if finest > 0 => mask = ((1 << (finest + 1)) - 1) & !(1 << rng.below(finest as u64)),
                // One alone.
                4..=6 if finest > 0 => mask = 1 << finest,
                0..=10 => mask = rng.below(1 << COMPS) as u16,
                // None at all.
                _ => {}
            }
            let top = 16 - mask.leading_zeros() as u8;
            if mask == (1u16 << top) - 1 && mask != 0 {
                t.count("nothing missing after all");
                continue;
            }
            let mut b = if rng.chance(1, 2) { DateTimeBuilder::new() } else { DateTime::builder() };
            let mut todo: Vec<u8> = (0..COMPS as u8).filter(|c| mask >> c & 1 == 1).collect();
            rng.shuffle(&mut todo);
            let chronology_first = rng.chance(1, 2);
            if chronology_first {
                b.chronology(&env.chr);
            }
            for c in &todo {
                if rng.chance(1, 6) {
                    set_component(&mut b, &Raw { y: 1, mo: 1, d: 1, h: 0, mi: 0, s: 0, ms: 0, us: 0, ns: 0, prec: 8 }, *c);
                }
                set_component(&mut b, &target, *c);
            }
            if rng.chance(1, 8) {
                b.offset_hour(0);
                b.offset_minute(0);
            }
            if !chronology_first {
                b.chronology(&env.chr);
            }
            let missing: Vec<u8> = (0..top.max(1)).filter(|c| mask >> c & 1 == 0).collect();
            let ctx = || format!("components {todo:?} (0 is the year, 8 the nanosecond) of {target:?}, without {missing:?} [{}]", env.show());
            t.eval(hash_all(&[hash_str(&format!("{target:?}")), mask as u64]), true);
            for _ in 0..1 + rng.below(2) {
                match catch(|| b.checked_build()) {
                    Ok(Ok(dt)) => t.violation("guessed", format!("{}: builds {dt:?}", ctx())),
                    Ok(Err(_)) => t.count("refused with an error"),
                    Err(_) => t.count("refused with a panic"),
                }
            }
            if let Ok(dt) = catch(|| b.build()) {
                t.violation("guessed", format!("{}: unchecked, builds {dt:?}", ctx()));
            }
            if mask == 0 {
                t.count("builders without any component");
            } else if mask & 1 == 0 {
                t.count("builders without a year");
            } else {
                t.count("builders with a gap");
            }
            // What was missing can be given afterwards.
            for &c in &missing {
                set_component(&mut b, &target, c);
            }
            let whole = Raw { prec: top.max(1) - 1, ..target };
            match (catch(|| b.checked_build().ok()), whole.expected(&env.table)) {
                (Ok(Some(dt)), Ok(m)) => {
                    if let Err(e) = observe(env, &dt, &m) {
                        t.violation("completed", format!("{}, then completed: {e}", ctx()));
                    }
                    t.count("completed afterwards");
                }
                (Ok(None), Err(_)) => {}
                (r, e) => t.violation("completed", format!("{}, then completed: {:?}, expected {e:?}", ctx(), r.map_err(|p| p.msg))),
            }
            t.sample(ctx);
            if t.enough() {
                return;
            }
        }
    })
}

fn b02(a: &Args) -> Tally {
    let worlds = make_worlds(a, 8);
    let n = a.n(500_000, 12_000_000);
    let mut total = shards(worlds, |t, w, shard| {
        let mut rng = rng_for(a, shard);
        for _ in 0..n {
            let env = w.pick(&mut rng);
            let other = w.pick(&mut rng);
            let mut b = if rng.chance(1, 2) { DateTimeBuilder::new() } else { DateTime::builder() };
            let mut last = Raw { y: 0, mo: 0, d: 0, h: 0, mi: 0, s: 0, ms: 0, us: 0, ns: 0, prec: 0 };
            let mut given = [false; COMPS as usize];
            let mut trace = String::new();
            let mut builds = 0;
            let mut calls = 0;
            if rng.chance(1, 3) {
                b.chronology(&other.chr);
            }
            b.chronology(&env.chr);
            // Several rounds: each sets components of one target (in random order, some twice, some first
            // to a wrong value), then builds.
            let rounds = rng.range(1, 4);
            let mut prec: Option<u8> = None;
            let mut earlier: Vec<(DateTime, M)> = Vec::new();
            for round in 0..rounds {
                let mut target = gen_m(&mut rng, &env.table);
                if let Some(p) = prec {
                    target.prec = target.prec.max(p);
                }
                let target = Raw::of(&target);
                let mut todo: Vec<u8> = (0..=target.prec).collect();
                // In later rounds keep a few of the earlier values when that still names a real date-time.
                rng.shuffle(&mut todo);
                for c in todo {
                    if round > 0 && given[c as usize] && rng.chance(1, 5) {
                        continue;
                    }
                    if rng.chance(1, 4) {
                        let noise = Raw {
                            y: rng.below(12_000) as u16,
                            mo: rng.below(15) as u8,
                            d: rng.below(34) as u8,
                            h: rng.below(30) as u8,
                            mi: rng.below(70) as u8,
                            s: rng.below(70) as u8,
                            ms: rng.below(1200) as u16,
                            us: rng.below(1200) as u16,
                            ns: rng.below(1200) as u16,
                            prec: 0,
                        };
                        set_component(&mut b, &noise, c);
                        calls += 1;
                        trace.push_str(&format!("set {c}:{noise:?}; "));
                    }
                    if rng.chance(1, 12) {
                        b.chronology(&other.chr);
                        b.chronology(&env.chr);
                    }
                    set_component(&mut b, &target, c);
                    merge_component(&mut last, &target, c);
                    given[c as usize] = true;
                    calls += 1;
                    trace.push_str(&format!("set {c}; "));
                    prec = Some(prec.map_or(c, |p| p.max(c)));
                }
                last.prec = prec.unwrap();
                if given[..=last.prec as usize].iter().any(|g| !g) {
                    continue;
                }
                trace.push_str(&format!("build {last:?}; "));
                let expected = last.expected(&env.table);
                let repeat = 1 + rng.below(2);
                for _ in 0..repeat {
                    builds += 1;
                    match (catch(|| b.checked_build().ok()), &expected) {
                        (Ok(Some(dt)), Ok(m)) => {
                            if let Err(e) = observe(env, &dt, m) {
                                t.violation("read back", format!("{trace} {e} [{}]", env.show()));
                            }
                            if calls > 9 {
                                t.count("read back after overwritten values");
                            }
                            earlier.push((dt, *m));
                        }
                        (Ok(None), Err(_)) => t.count("rejected builds inside a history"),
                        (Ok(r), e) => t.violation(
                            "read back",
                            format!("{trace} gives {r:?}, expected {e:?} [{}]", env.show()),
                        ),
                        (Err(p), e) => t.violation(
                            "read back",
                            format!("{trace} panics {} at {}, expected {e:?}", p.msg, p.loc),
                        ),
                    }
                }
            }
            // Later calls on the builder left what it built before untouched.
            for (dt, m) in &earlier {
                if let Err(e) = observe(env, dt, m) {
                    t.violation("earlier build", format!("{trace} {e}"));
                }
            }
            t.add("builds", builds);
            t.add("setter calls", calls as u64);
            t.eval(hash_str(&trace), builds > 1 || calls > 1);
            t.sample(|| trace.clone());
            if t.enough() {
                return;
            }
        }
    });
    // Every second of ordinary, lengthened and shortened days reads back.
    let worlds = make_worlds(a, 8);
    let more = shards(worlds, |t, w, shard| {
        let mut rng = rng_for(a, shard + 1000);
        for k in 0..a.n(6, 60) {
            let env = w.pick(&mut rng);
            let day = if k % 3 == 0 { gen_day(&mut rng, &env.table) } else { rng.pick(&env.table.entries).0 - 1 };
            for sod in 0..env.table.day_len(day) {
                let m = M { day, sod, ns: 0, prec: SECOND };
                let dt = match build(&env.chr, &env.table, &m) {
                    Ok(dt) => dt,
                    Err(e) => {
                        t.violation("read back", e);
                        continue;
                    }
                };
                t.eval(m.key(), true);
                if fields_of(&dt) != m.fields() {
                    t.violation("read back", format!("{} reads {:?}", m.show(), fields_of(&dt)));
                }
            }
            t.count("days read back second by second");
        }
        // And so does every date.
        for day in (MIN_DAY + shard as i64..=MAX_DAY).step_by(a.threads as usize) {
            let env = &w.envs[0];
            let m = M { day, sod: 0, ns: 0, prec: DAY };
            match build(&env.chr, &env.table, &m) {
                Ok(dt) => {
                    if fields_of(&dt) != m.fields() {
                        t.violation("read back", format!("{} reads {:?}", m.show(), fields_of(&dt)));
                    }
                }
                Err(e) => t.violation("read back", e),
            }
            t.eval(m.key(), true);
        }
    });
    total.merge(more);
    total
}

// ---------------------------------------------------------------------------------------------------------
// B03
// ---------------------------------------------------------------------------------------------------------

/// Reach `m` along a random detour of additions instead of building it. None if the detour leaves the range.
fn detour(rng: &mut Rng, env: &Env, m: &M, t: &mut Tally) -> Option<DateTime> {
    let mut start = gen_m(rng, &env.table);
    start.prec = m.prec;
    start.ns = m.ns;
    let mut cur = start.canonical();
    cur.ns = m.ns;
    let mut dt = match build(&env.chr, &env.table, &cur) {
        Ok(dt) => dt,
        Err(e) => {
            t.violation("build", e);
            return None;
        }
    };
    for _ in 0..rng.below(3) {
        let op = {
            let unit = rng.below(6) as u8;
            gen_op(rng, &env.table, &cur, unit)
        };
        if let Some((d, c)) = step(t, env, &cur, &dt, op, false) {
            dt = d;
            cur = c;
        }
    }
    let diff = env.table.instant(m.day, m.sod) - env.table.instant(cur.day, cur.sod);
    let (d, c) = step(t, env, &cur, &dt, Op::Seconds(diff as i64), false)?;
    assert_eq!(c, *m);
    Some(d)
}

/// A value that is the same as `m1` or, mostly, differs from it in one place; and which way it differs.
fn near(rng: &mut Rng, env: &Env, m1: &M) -> (M, u64) {
    let m1 = *m1;
    let mut m2 = m1;
    let what = rng.below(12);
    match what {
        0..=1 => {}
        2 => m2.day = (m1.day + *rng.pick(&[1, -1, 365, 366, 1461, 36_524, 146_097, -146_097, 146_097 * 16, 2 * 146_097])).clamp(MIN_DAY, MAX_DAY),
        3 => m2.sod = (m1.sod + *rng.pick(&[1, -1, 60, 3600, 65_536, -65_536])).clamp(0, 86_398),
        4..=6 => m2.ns = (m1.ns ^ (1 << rng.below(30))).min(999_999_999),
        7 => m2.ns = gen_ns(rng),
        8 => m2.prec = rng.below(9) as u8,
        9 => {
            // Equal components, different precision.
            m2.ns = 0;
            m2.prec = rng.range(5, 8) as u8;
        }
        10 => {
            let day = gen_day(rng, &env.table);
            m2.day = day;
            m2.sod = m1.sod.min(env.table.day_len(day) - 1);
        }
        _ => m2 = gen_m(rng, &env.table),
    }
    m2.sod = m2.sod.min(env.table.day_len(m2.day) - 1);
    let m2 = m2.canonical();
    (m2, what)
}

fn b03(a: &Args) -> Tally {
    let worlds = make_worlds(a, 8);
    let n = a.n(3_000_000, 60_000_000);
    shards(worlds, |t, w, shard| {
        let mut rng = rng_for(a, shard);
        for _ in 0..n {
            let env = w.pick(&mut rng);
            let m1 = gen_m(&mut rng, &env.table);
            let (m2, what) = near(&mut rng, env, &m1);
            let d1 = match build(&env.chr, &env.table, &m1) {
                Ok(d) => d,
                Err(e) => {
                    t.violation("build", e);
                    continue;
                }
            };
            let d2 = if rng.chance(1, 2) {
                match build(&env.chr, &env.table, &m2) {
                    Ok(d) => d,
                    Err(e) => {
                        t.violation("build", e);
                        continue;
                    }
                }
            } else {
                match detour(&mut rng, env, &m2, t) {
                    Some(d) => {
                        t.count("one side reached by additions");
                        d
                    }
                    None => continue,
                }
            };
            let want = m1 == m2;
            t.count(if want { "equal pairs" } else { "unequal pairs" });
            if !want && m1.fields() == m2.fields() {
                t.count("pairs differing only in precision or sub-second part");
            }
            let got = catch_pure(|| (d1 == d2, d2 == d1, d1 != d2, d1.clone() == d1, d1 == d1.clone()));
            match got {
                Ok(g) if g == (want, want, !want, true, true) => {}
                Ok(g) => t.violation(
                    "equality",
                    format!("{} vs {}: (==, ==, !=, clone) = {g:?} [{}]", m1.show(), m2.show(), env.show()),
                ),
                Err(p) => t.violation("equality", format!("panics {} at {}", p.msg, p.loc)),
            }
            // Assigning a clone over another value, also one of another chronology.
            let over = {
                let other = w.pick(&mut rng);
                let mut m5 = gen_m(&mut rng, &other.table);
                m5.prec = rng.below(9) as u8;
                m5 = m5.canonical();
                if rng.chance(1, 2) { build(&other.chr, &other.table, &m5).ok() } else { None }
            };
            match catch_pure(|| {
                let mut x = over.unwrap_or_else(|| d2.clone());
                x.clone_from(&d1);
                (x == d1, x == d2, x)
            }) {
                Ok((same, as_d2, x)) => {
                    t.count("clones assigned over another date-time");
                    if !same || as_d2 != want {
                        t.violation("equality", format!("{} assigned over another value: equal to it {same}, to {} {as_d2} [{}]", m1.show(), m2.show(), env.show()));
                    } else if let Err(e) = observe(env, &x, &m1) {
                        t.violation("equality", format!("{} assigned over another value {e}", m1.show()));
                    }
                }
                Err(p) => t.violation("equality", format!("assigning a clone panics {} at {}", p.msg, p.loc)),
            }
            t.eval(hash_all(&[m1.key(), m2.key()]), what != 11);
            t.sample(|| format!("{} vs {} equal: {want}", m1.show(), m2.show()));
            // Arithmetic keeps precision and sub-second part: `step` compares with a rebuilt value, and here
            // with values that differ in exactly those.
            let op = {
                let unit = rng.below(6) as u8;
                gen_op(&mut rng, &env.table, &m1, unit)
            };
            if let Some((d3, m3)) = step(t, env, &m1, &d1, op, false) {
                t.count("additions whose precision and sub-second part were compared");
                let mut m4 = m3;
                if m3.prec >= 6 && rng.chance(2, 3) {
                    let unit = [1_000_000, 1000, 1][m3.prec as usize - 6];
                    m4.ns = (m3.ns + unit * (1 + rng.below(3) as u32)) % 1_000_000_000;
                } else {
                    // Another precision that can still represent the same components.
                    m4.prec = if m3.prec == 8 { 5 } else { m3.prec + 1 };
                    if m4.prec == 5 {
                        m4.ns = 0;
                    }
                }
                if m4 != m3 {
                    match build(&env.chr, &env.table, &m4) {
                        Ok(d4) if d4 == d3 => t.violation(
                            "equality",
                            format!("{} equals {} [{}]", describe(env, &m1, op), m4.show(), env.show()),
                        ),
                        Ok(_) => {}
                        Err(e) => t.violation("build", e),
                    }
                }
            }
            if t.enough() {
                return;
            }
        }
    })
}

// ---------------------------------------------------------------------------------------------------------
// T01
// ---------------------------------------------------------------------------------------------------------

/// The debug text of equal date-times is the same and of unequal ones (of one chronology) different.
fn t01(a: &Args) -> Tally {
    let worlds = make_worlds(a, 6);
    let n = a.n(1_000_000, 20_000_000);
    shards(worlds, |t, w, shard| {
        let mut rng = rng_for(a, shard);
        // Every text seen for the system table's chronology, and the date-time it stood for.
        let mut seen: HashMap<String, M> = HashMap::new();
        for i in 0..n {
            let env = if i % 2 == 0 { &w.envs[0] } else { w.pick(&mut rng) };
            let m1 = gen_m(&mut rng, &env.table);
            let (m2, _) = near(&mut rng, env, &m1);
            let d1 = match build(&env.chr, &env.table, &m1) {
                Ok(d) => d,
                Err(e) => {
                    t.violation("build", e);
                    continue;
                }
            };
            let d2 = if rng.chance(3, 4) {
                match build(&env.chr, &env.table, &m2) {
                    Ok(d) => Some(d),
                    Err(e) => {
                        t.violation("build", e);
                        None
                    }
                }
            } else {
                detour(&mut rng, env, &m2, t).inspect(|_| t.count("one side reached by additions"))
            };
            let Some(d2) = d2 else { continue };
            let want = m1 == m2;
            t.eval(hash_all(&[m1.key(), m2.key()]), true);
            t.count(if want { "equal pairs" } else { "unequal pairs" });
            if !want && m1.fields() == m2.fields() {
                t.count("pairs differing only in precision or sub-second part");
            }
            let texts = catch_pure(|| (format!("{d1:?}"), format!("{d2:?}"), format!("{:?}", d1.clone())));
            let (x, y, z) = match texts {
                Ok(texts) => texts,
                Err(p) => {
                    t.violation("text", format!("printing {} or {} panics: {} at {}", m1.show(), m2.show(), p.msg, p.loc));
                    continue;
                }
            };
            if (x == y) != want || x != z {
                t.violation("text", format!("{} prints as {x}, {} as {y} and a clone of the first as {z} [{}]", m1.show(), m2.show(), env.show()));
            }
            t.sample(|| format!("{} prints as {x}", m1.show()));
            // The same for a result with its carry.
            let op = {
                let unit = rng.below(5) as u8;
                gen_op(&mut rng, &env.table, &m1, unit)
            };
            let op2 = match (rng.below(3), op) {
                (0, Op::Months(k)) => Op::Months(k.wrapping_add(1)),
                (0, Op::Days(k)) => Op::Days(k.wrapping_add(1)),
                _ => op,
            };
            if let (Some(r1), Some(r2)) = (apply(&env.table, &m1, op), apply(&env.table, &m2, op2)) {
                if let (Ok(Some(Out::Carry(c1))), Ok(Some(Out::Carry(c2)))) = (checked(&d1, op), checked(&d2, op2)) {
                    let want = r1.m == r2.m && r1.days == r2.days && r1.seconds == r2.seconds;
                    if r1.days + r1.seconds > 0 {
                        t.count("results with a carry printed");
                    }
                    if r1.m == r2.m && !want {
                        t.count("results differing only in the carry");
                    }
                    match catch_pure(|| (format!("{c1:?}"), format!("{c2:?}"))) {
                        Ok((x, y)) if (x == y) == want => {}
                        Ok((x, y)) => t.violation(
                            "text",
                            format!("{} prints as {x} and {} as {y}", describe(env, &m1, op), describe(env, &m2, op2)),
                        ),
                        Err(p) => t.violation("text", format!("printing {} panics: {} at {}", describe(env, &m1, op), p.msg, p.loc)),
                    }
                }
            }
            if std::ptr::eq(env, &w.envs[0]) && seen.len() < 200_000 {
                match seen.get(&x) {
                    Some(m) if *m != m1 => t.violation("text", format!("{} and {} both print as {x}", m.show(), m1.show())),
                    Some(_) => t.count("texts seen again"),
                    None => {
                        seen.insert(x, m1);
                    }
                }
            }
            if t.enough() {
                return;
            }
        }
        t.add("different texts kept", seen.len() as u64);
    })
}

// ---------------------------------------------------------------------------------------------------------
// E01
// ---------------------------------------------------------------------------------------------------------

/// Tables that differ from the first in one respect each, some of them in none.
fn variants(rng: &mut Rng, base: &Table) -> Vec<(Table, &'static str)> {
    let e = &base.entries;
    let n = e.len();
    let mut out = vec![(base.clone(), "the table"), (base.clone(), "the table in another file")];
    let mut put = |entries: Vec<(i64, i64)>, what| {
        let ordered = entries.windows(2).all(|w| w[0].0 + 28 <= w[1].0);
        if ordered && !entries.is_empty() && entries.len() <= 50 && entries[0].0 >= 1 && entries[entries.len() - 1].0 <= 24_852 {
            out.push((Table { entries }, what));
        }
    };
    let i = rng.below(n as u64) as usize;
    for (at, by, what) in [(i, 1, "one entry a day later"), (i, -1, "one entry a day earlier"), (n - 1, 1, "the last entry a day later"), (0, -1, "the first entry a day earlier"), (i, rng.range(2, 300), "one entry later")] {
        let mut x = e.clone();
        x[at].0 += by;
        put(x, what);
    }
    for (at, what) in [(i, "one change reversed"), (n - 1, "the last change reversed")] {
        let mut x = e.clone();
        x[at].1 = -x[at].1;
        put(x, what);
    }
    for at in 1..n {
        if e[at].1 != e[at - 1].1 {
            // The days, their number and the total are the same.
            let mut x = e.clone();
            x.swap(at, at - 1);
            let (a, b) = (x[at].0, x[at - 1].0);
            x[at].0 = a.max(b);
            x[at - 1].0 = a.min(b);
            put(x, "two changes in the other order");
            break;
        }
    }
    let mut x = e.clone();
    x.pop();
    put(x, "without the last entry");
    let mut x = e.clone();
    x.remove(0);
    put(x, "without the first entry");
    let mut x = e.clone();
    x.push((e[n - 1].0 + rng.range(28, 200), 1));
    put(x, "one entry more");
    let mut x = e.clone();
    x.push((e[n - 1].0 + rng.range(28, 200), 0));
    put(x, "an expiry entry more");
    out
}

/// The changes a table makes; entries that change nothing do not count.
fn timeline(t: &Table) -> Vec<(i64, i64)> {
    t.entries.iter().copied().filter(|e| e.1 != 0).collect()
}

struct Group {
    envs: Vec<Env>,
    /// Which load each is (a clone is of the same load).
    load: Vec<usize>,
}

fn equality_groups(a: &Args, n: u64, salt: u64) -> Vec<Group> {
    let mut groups = Vec::new();
    for g in 0..n {
        let mut rng = Rng::new(&[a.seed, 0xE01, salt, g]);
        let base = if g == 0 { Table::read(&Path::new(SYSTEM_TZDIR).join("right/UTC")) } else { Table::random(&mut rng, g) };
        let (mut envs, mut load): (Vec<Env>, Vec<usize>) = (Vec::new(), Vec::new());
        for (i, (table, what)) in variants(&mut rng, &base).into_iter().enumerate() {
            let dir = Path::new(&a.scratch).join(format!("eq{salt}-{g}-{i}"));
            let zones = write_tzdir(&dir, &table, &mut rng);
            use_tzdir(&dir);
            for zone in ["UTC", zones[1 + i % (zones.len() - 1)].as_str()] {
                let chr = load_chronology(zone);
                let l = load.last().map_or(0, |l| l + 1);
                if rng.chance(1, 3) {
                    let copy = match (envs.last(), rng.chance(1, 2)) {
                        (Some(e), true) => {
                            let mut over: Chronology = e.chr.clone();
                            over.clone_from(&chr);
                            over
                        }
                        _ => chr.clone(),
                    };
                    envs.push(Env { chr: copy, table: table.clone(), name: format!("{what}, {zone}, a clone") });
                    load.push(l);
                }
                envs.push(Env { chr, table: table.clone(), name: format!("{what}, {zone}") });
                load.push(l);
            }
        }
        groups.push(Group { envs, load });
    }
    use_tzdir(Path::new(SYSTEM_TZDIR));
    groups
}

/// Judge an equality matrix: reflexive, symmetric, transitive, and `!=` its negation.
fn judge_matrix(t: &mut Tally, eq: &[Vec<(bool, bool)>], name: &dyn Fn(usize) -> String) {
    let n = eq.len();
    for i in 0..n {
        if !eq[i][i].0 {
            t.violation("equivalence", format!("{} is not equal to itself", name(i)));
        }
        for j in 0..n {
            if eq[i][j].0 == eq[i][j].1 {
                t.violation("equivalence", format!("{} and {}: == gives {} and != gives {}", name(i), name(j), eq[i][j].0, eq[i][j].1));
            }
            if eq[i][j].0 != eq[j][i].0 {
                t.violation("equivalence", format!("{} and {}: == gives {} one way and {} the other", name(i), name(j), eq[i][j].0, eq[j][i].0));
            }
            if eq[i][j].0 {
                if let Some(k) = (0..n).find(|&k| eq[i][k].0 != eq[j][k].0) {
                    t.violation("equivalence", format!("{} and {} are equal, but only one of them equals {}", name(i), name(j), name(k)));
                }
            }
        }
    }
}

fn judge_chronologies(t: &mut Tally, g: &Group) {
    let n = g.envs.len();
    let name = |i: usize| format!("the chronology of {} ({})", g.envs[i].show(), g.envs[i].name);
    let mut eq = vec![vec![(false, true); n]; n];
    for i in 0..n {
        for j in 0..n {
            match catch_pure(|| (g.envs[i].chr == g.envs[j].chr, g.envs[i].chr != g.envs[j].chr)) {
                Ok(e) => eq[i][j] = e,
                Err(p) => return t.violation("equality", format!("comparing chronologies panics: {} at {}", p.msg, p.loc)),
            }
            t.eval(hash_all(&[hash_str("chronologies"), i as u64, j as u64, hash_str(&g.envs[i].name), hash_str(&g.envs[j].name)]), true);
            let same = timeline(&g.envs[i].table) == timeline(&g.envs[j].table);
            if eq[i][j].0 && !same {
                t.violation("interchangeable", format!("{} equals {}", name(i), name(j)));
            }
            if g.load[i] == g.load[j] {
                t.count("chronologies compared with clones");
                if !eq[i][j].0 {
                    t.violation("clone", format!("{} does not equal {}, and both are clones of one", name(i), name(j)));
                }
            }
            if !same {
                t.count("chronologies of different tables compared");
            }
        }
    }
    judge_matrix(t, &eq, &name);
}

/// Equality of date-times across chronologies: an equivalence, under which values are interchangeable.
fn e01(a: &Args) -> Tally {
    let n = a.n(40_000, 600_000);
    let worlds: Vec<Vec<Group>> = (0..a.threads).map(|s| equality_groups(a, if a.thorough { 12 } else { 5 }, s)).collect();
    let mut total = shards(worlds, |t, groups, shard| {
        let mut rng = rng_for(a, shard);
        for g in groups.iter() {
            judge_chronologies(t, g);
        }
        for _ in 0..n {
            let g = rng.pick(groups);
            // A few values, in several chronologies each.
            let mut pool: Vec<(usize, M, DateTime)> = Vec::new();
            let first = rng.below(g.envs.len() as u64) as usize;
            let m1 = gen_m(&mut rng, &g.envs[first].table);
            let (m2, _) = near(&mut rng, &g.envs[first], &m1);
            for _ in 0..9 {
                let e = if rng.chance(1, 3) { first } else { rng.below(g.envs.len() as u64) as usize };
                let env = &g.envs[e];
                let m = if rng.chance(2, 3) { m1 } else { m2 };
                if m.sod >= env.table.day_len(m.day) {
                    continue;
                }
                let dt = if rng.chance(3, 4) {
                    match build(&env.chr, &env.table, &m) {
                        Ok(d) => Some(d),
                        Err(e) => {
                            t.violation("build", e);
                            None
                        }
                    }
                } else {
                    detour(&mut rng, env, &m, t)
                };
                if let Some(dt) = dt {
                    pool.push((e, m, dt));
                }
            }
            let k = pool.len();
            let name = |i: usize| format!("{} [{}, {}]", pool[i].1.show(), g.envs[pool[i].0].show(), g.envs[pool[i].0].name);
            let mut eq = vec![vec![(false, true); k]; k];
            for i in 0..k {
                for j in 0..k {
                    match catch_pure(|| (pool[i].2 == pool[j].2, pool[i].2 != pool[j].2)) {
                        Ok(e) => eq[i][j] = e,
                        Err(p) => t.violation("equality", format!("comparing {} with {} panics: {} at {}", name(i), name(j), p.msg, p.loc)),
                    }
                    let (ei, ej) = (pool[i].0, pool[j].0);
                    let same_value = pool[i].1 == pool[j].1;
                    let same_table = timeline(&g.envs[ei].table) == timeline(&g.envs[ej].table);
                    t.eval(hash_all(&[pool[i].1.key(), pool[j].1.key(), shard, ei as u64, ej as u64]), same_value && ei != ej);
                    if same_value && !same_table {
                        t.count("same components under different tables");
                    }
                    if same_value && same_table && g.load[ei] != g.load[ej] {
                        t.count("same components under one table loaded twice");
                    }
                    if eq[i][j].0 && !(same_value && same_table) {
                        let how = if !same_value {
                            "although their components or precision differ".to_string()
                        } else {
                            // What the difference of the tables leads to.
                            let (ta, tb) = (&g.envs[ei].table, &g.envs[ej].table);
                            let goal = ta.entries.iter().chain(&tb.entries).map(|e| e.0 + 1).max().unwrap();
                            let far = Op::Seconds((ta.instant(goal, 0) - ta.instant(pool[i].1.day, pool[i].1.sod)) as i64);
                            let show = |d: &DateTime| checked(d, far).ok().flatten().map(|o| format!("{:?}", o.parts().0));
                            format!("although adding {} seconds gives {:?} and {:?}", far.amount(), show(&pool[i].2), show(&pool[j].2))
                        };
                        t.violation("interchangeable", format!("{} equals {}, {how}", name(i), name(j)));
                    }
                    if same_value && g.load[ei] == g.load[ej] {
                        t.count("same components under one chronology");
                        if !eq[i][j].0 {
                            t.violation("equality", format!("{} does not equal {}, and they share a chronology", name(i), name(j)));
                        }
                    }
                }
            }
            judge_matrix(t, &eq, &name);
            // Equal values behave alike, and adding nothing changes nothing.
            for i in 0..k {
                let env = &g.envs[pool[i].0];
                let zero = match rng.below(6) {
                    0 => Op::Years(0),
                    1 => Op::Months(0),
                    2 => Op::Days(0),
                    3 => Op::Hours(0),
                    4 => Op::Minutes(0),
                    _ => Op::Seconds(0),
                };
                match checked(&pool[i].2, zero) {
                    Ok(Some(out)) => {
                        let (d, days, seconds) = out.parts();
                        t.count("additions of nothing");
                        if !(d == pool[i].2 && pool[i].2 == d) || days != 0 || seconds != 0 {
                            t.violation("nothing", format!("{} gives {d:?}, carry {days} d {seconds} s, which is not equal", describe(env, &pool[i].1, zero)));
                        }
                    }
                    Ok(None) => t.violation("nothing", format!("{} is refused", describe(env, &pool[i].1, zero))),
                    Err(p) => t.violation("nothing", format!("{} panics: {} at {}", describe(env, &pool[i].1, zero), p.msg, p.loc)),
                }
                let Some(j) = (0..k).find(|&j| j != i && eq[i][j].0) else { continue };
                let unit = rng.below(6) as u8;
                let op = gen_op(&mut rng, &env.table, &pool[i].1, unit);
                let see = |d: &DateTime| checked(d, op).map(|o| o.map(|o| o.parts())).map_err(|p| p.msg);
                let (x, y) = (see(&pool[i].2), see(&pool[j].2));
                t.count("operations on two equal values compared");
                let alike = match (&x, &y) {
                    (Ok(Some(x)), Ok(Some(y))) => x.0 == y.0 && y.0 == x.0 && x.1 == y.1 && x.2 == y.2 && format!("{:?}", x.0) == format!("{:?}", y.0),
                    (Ok(None), Ok(None)) => true,
                    (Err(x), Err(y)) => x == y,
                    _ => false,
                };
                if !alike {
                    t.violation("interchangeable", format!("{} equals {}, but {} {} gives {x:?} and {y:?}", name(i), name(j), op.name(), op.amount()));
                }
            }
            t.sample(|| format!("{} values of {} and {} in {} chronologies", k, m1.show(), m2.show(), g.envs.len()));
            if t.enough() {
                return;
            }
        }
    });
    e01_churn(a, &mut total);
    total
}

/// Date-times of chronologies that come and go: they stay equal to themselves and to nothing loaded since.
fn e01_churn(a: &Args, total: &mut Tally) {
    struct Kept {
        load: u64,
        table: usize,
        m: M,
        dt: DateTime,
    }
    let mut rng = Rng::new(&[a.seed, 0xE01C]);
    let dirs = make_dirs(&a.scratch, a.seed ^ 0xE01, 4);
    let noon = |d: i64, ns: u32| M { day: d, sod: 43_200, ns, prec: 8 };
    let ms: Vec<M> = vec![noon(0, 0), noon(0, 1), noon(20_000, 0), noon(20_000, 999_999_999)];
    let mut kept: Vec<Kept> = Vec::new();
    // The first ones stay to the end.
    let old = 20;
    for load in 0..a.n(80_000, 500_000) {
        let table = rng.below(dirs.len() as u64) as usize;
        use_tzdir(&dirs[table].dir);
        let m = *rng.pick(&ms);
        let dt = catch(|| load_chronology("UTC")).map_err(|p| p.msg).and_then(|c| build(&c, &dirs[table].table, &m));
        let dt = match dt {
            Ok(dt) => dt,
            Err(e) => return total.violation("build", e),
        };
        for k in kept.iter() {
            total.eval(hash_all(&[m.key(), k.m.key(), table as u64, k.table as u64]), true);
            total.count("date-times of chronologies that come and go compared");
            let eq = (dt == k.dt, k.dt == dt);
            let may = m == k.m && timeline(&dirs[table].table) == timeline(&dirs[k.table].table);
            if eq.0 != eq.1 || (eq.0 && !may) {
                total.violation(
                    "interchangeable",
                    format!("load {load}: {} [{:?}] equals {} [{:?}] of load {}: {eq:?}", m.show(), dirs[table].table.entries, k.m.show(), dirs[k.table].table.entries, k.load),
                );
            }
        }
        for k in kept.iter() {
            if !(k.dt == k.dt.clone()) {
                total.violation("equivalence", format!("{} of load {} is not equal to its clone after load {load}", k.m.show(), k.load));
            }
        }
        if load < 20 || rng.chance(1, 2) {
            kept.push(Kept { load, table, m, dt });
            if kept.len() > 40 {
                let k = old + rng.below((kept.len() - old) as u64) as usize;
                kept.swap_remove(k);
            }
        }
        if total.enough() {
            break;
        }
    }
    use_tzdir(Path::new(SYSTEM_TZDIR));
}

// ---------------------------------------------------------------------------------------------------------
// A01 - A05
// ---------------------------------------------------------------------------------------------------------

fn arith(a: &Args, units: &[u8], quick: u64) -> Tally {
    let worlds = make_worlds(a, 13);
    let n = a.n(quick, quick * 15);
    let mut total = shards(worlds, |t, w, shard| {
        let mut rng = rng_for(a, shard);
        let mut i = 0;
        while i < n {
            let env = w.pick(&mut rng);
            let m = gen_m(&mut rng, &env.table);
            let dt = match build(&env.chr, &env.table, &m) {
                Ok(d) => d,
                Err(e) => {
                    t.violation("build", e);
                    i += 1;
                    continue;
                }
            };
            for _ in 0..4 {
                i += 1;
                let unit = *rng.pick(units);
                let op = gen_op(&mut rng, &env.table, &m, unit);
                judge_step(t, env, &m, &dt, op, i % 8 == 0);
                if unit >= 3 && unit < 5 && rng.chance(1, 6) {
                    // Adding n hours is adding 60 n minutes.
                    if let Op::Hours(h) = op {
                        judge_step(t, env, &m, &dt, Op::Minutes(h as i64 * 60), false);
                    }
                }
            }
            if t.enough() {
                return;
            }
        }
    });
    // Exhaustive passes that random amounts cannot replace.
    let worlds = make_worlds(a, 13);
    let full = a.thorough;
    let extra = shards(worlds, |t, w, shard| {
        for (i, env) in w.envs.iter().enumerate() {
            let last = env.table.entries.len() - 1;
            for (j, e) in env.table.entries.iter().enumerate() {
                if !full && j != 0 && j != last && (i + j + a.seed as usize) % 3 != 0 {
                    continue;
                }
                if (i + j) as u64 % a.threads != shard {
                    continue;
                }
                sweep_leap(t, env, e.0 - 1, units);
            }
        }
        let env = &w.envs[0];
        match units[0] {
            0 | 1 => {
                // Every month end (and 29 February) of the range, one unit and a period either way.
                for y in (shard as i64..10_000).step_by(a.threads as usize) {
                    for mo in 1..=12 {
                        let len = month_len(y, mo);
                        for d in [1, 28, len] {
                            let m = M { day: days_from_civil(y, mo, d), sod: 1, ns: 0, prec: SECOND };
                            let Ok(dt) = build(&env.chr, &env.table, &m) else { continue };
                            for n in [1i16, -1, 3, -3, 4, -4, 12, -12, 100, -100, 400, -400] {
                                let op = if units[0] == 0 { Op::Years(n) } else { Op::Months(n as i32) };
                                judge_step(t, env, &m, &dt, op, false);
                            }
                        }
                    }
                }
                t.count("sweeps over every month of the range");
            }
            _ => {
                // Every day of the range, one day forward and back in this unit.
                for day in (MIN_DAY + shard as i64..=MAX_DAY).step_by(a.threads as usize) {
                    let m = M { day, sod: 43_210, ns: 0, prec: SECOND };
                    let Ok(dt) = build(&env.chr, &env.table, &m) else { continue };
                    for k in [1i64, -1] {
                        let op = match units[0] {
                            2 => Op::Days(k as i32),
                            3 => Op::Hours(k as i32 * 24),
                            _ => Op::Seconds(k * 86_400),
                        };
                        judge_step(t, env, &m, &dt, op, false);
                    }
                }
                t.count("sweeps over every day of the range");
            }
        }
    });
    total.merge(extra);
    total
}

/// `step` with the bookkeeping of A01 - A05.
fn judge_step(t: &mut Tally, env: &Env, m: &M, dt: &DateTime, op: Op, unchecked: bool) {
    let Some(r) = apply(&env.table, m, op) else {
        t.count("out-of-range targets skipped");
        return;
    };
    t.eval(hash_all(&[m.key(), op.key(), hash_str(&env.name)]), op.amount() != 0);
    if r.days > 0 {
        t.count("results with days carry");
    }
    if r.seconds > 0 {
        t.count("results with seconds carry");
    }
    let (lo, hi) = (m.day.min(r.m.day), m.day.max(r.m.day));
    if lo != hi {
        t.count("moved to another day");
        let n = env.table.entries.partition_point(|e| e.0 <= hi) - env.table.entries.partition_point(|e| e.0 <= lo);
        if n > 0 {
            t.count("moved across leap entries");
        }
    }
    if r.m.sod >= 86_400 {
        t.count("landed on an inserted second");
    }
    if env.table.day_len(r.m.day) < 86_400 {
        t.count("landed on a shortened day");
    }
    if lo < 0 {
        t.count("involved days before 1970");
    }
    t.sample(|| format!("{} = {} carry {}d {}s", describe(env, m, op), r.m.show(), r.days, r.seconds));
    step(t, env, m, dt, op, unchecked);
}

/// Around one leap entry: from each second near the end of the day, to each place near other ends of days.
fn sweep_leap(t: &mut Tally, env: &Env, day: i64, units: &[u8]) {
    let table = &env.table;
    let len = table.day_len(day);
    let others: Vec<i64> = table.entries.iter().map(|e| e.0 - 1).collect();
    let pick = [0, others.len() / 2, others.len() - 1];
    for from in [day - 1, day, day + 1, day + 40] {
        for sod in [0, 59, 60, 86_339, 86_340, 86_397, 86_398, 86_399, 86_400, len - 1] {
            if from < MIN_DAY || from > MAX_DAY || sod >= table.day_len(from) {
                continue;
            }
            let m = M { day: from, sod, ns: 123_456_789, prec: 8 };
            let dt = match build(&env.chr, table, &m) {
                Ok(d) => d,
                Err(e) => {
                    t.violation("build", e);
                    continue;
                }
            };
            for &u in units {
                let mut ops: Vec<Op> = Vec::new();
                match u {
                    5 => {
                        for k in -6..=6 {
                            ops.push(Op::Seconds(k));
                            ops.push(Op::Seconds((table.instant(day, 86_399) - table.instant(from, sod)) as i64 + k));
                            ops.push(Op::Seconds(86_400 * k + k));
                            for p in pick {
                                ops.push(Op::Seconds((table.instant(others[p], 86_399) - table.instant(from, sod)) as i64 + k));
                            }
                        }
                    }
                    2 => {
                        for k in -3..=3 {
                            ops.push(Op::Days(k));
                            ops.push(Op::Days((day - from) as i32 + k));
                            for p in pick {
                                ops.push(Op::Days((others[p] - from) as i32 + k));
                            }
                        }
                    }
                    1 | 0 => {
                        let (y, mo, _) = civil_from_days(from);
                        for p in pick {
                            let (oy, om, _) = civil_from_days(others[p]);
                            for k in -1..=1 {
                                ops.push(if u == 0 {
                                    Op::Years((oy - y + k) as i16)
                                } else {
                                    Op::Months(((oy - y) * 12 + om - mo + k) as i32)
                                });
                            }
                        }
                        for k in -14..=14 {
                            ops.push(if u == 0 { Op::Years(k) } else { Op::Months(k as i32) });
                        }
                    }
                    _ => {
                        let label = (sod / 60).min(1439);
                        for p in pick {
                            for k in -2..=2 {
                                let n = (others[p] - from) * 1440 + 1439 - label + k;
                                ops.push(if u == 3 { Op::Hours((n / 60) as i32) } else { Op::Minutes(n) });
                            }
                        }
                        for k in -3..=3 {
                            ops.push(if u == 3 { Op::Hours(k) } else { Op::Minutes(k as i64) });
                            ops.push(if u == 3 { Op::Hours(24 * k) } else { Op::Minutes(1440 * k as i64) });
                        }
                    }
                }
                for op in ops {
                    judge_step(t, env, &m, &dt, op, false);
                }
            }
        }
    }
    t.count("leap entries swept");
}

// ---------------------------------------------------------------------------------------------------------
// A06
// ---------------------------------------------------------------------------------------------------------

fn judge_carry(t: &mut Tally, env: &Env, m: &M, dt: &DateTime, op: Op, last: &mut Option<DateTimeWithCarry>) {
    let Some(r) = apply(&env.table, m, op) else {
        t.count("out-of-range targets skipped");
        return;
    };
    let clipped = r.days != 0 || r.seconds != 0;
    let ctx = || describe(env, m, op);
    let c = match checked(dt, op) {
        Ok(Some(Out::Carry(c))) => c,
        Ok(_) => {
            t.violation("carry", format!("{} is reported out of bounds, expected {}", ctx(), r.m.show()));
            return;
        }
        Err(p) => {
            t.violation("carry", format!("{} panics: {} at {}", ctx(), p.msg, p.loc));
            return;
        }
    };
    t.eval(hash_all(&[m.key(), op.key(), hash_str(&env.name)]), clipped);
    t.count(match (r.days > 0, r.seconds > 0) {
        (true, true) => "carry of days and seconds",
        (true, false) => "carry of days only",
        (false, true) => "carry of seconds only",
        _ => "no carry",
    });
    // A clone, or one assigned over another value with another carry.
    let copy = match last.take().filter(|_| t.evals % 3 == 0) {
        Some(mut over) => {
            t.count("results with carry assigned over others");
            over.clone_from(&c);
            over
        }
        None => c.clone(),
    };
    *last = Some(copy.clone());
    let c = if t.evals % 6 == 0 { copy.clone() } else { c };
    if c.has_carry() != clipped || (c.days_carry() as i64, c.seconds_carry() as i64) != (r.days, r.seconds) {
        t.violation(
            "carry",
            format!(
                "{}: has_carry {} days {} seconds {}, expected {} days and {} seconds",
                ctx(),
                c.has_carry(),
                c.days_carry(),
                c.seconds_carry(),
                r.days,
                r.seconds
            ),
        );
        return;
    }
    t.sample(|| format!("{}: clipped to {} carry {}d {}s", ctx(), r.m.show(), r.days, r.seconds));
    // Applying.
    let want = apply_carry(&env.table, &r);
    match (catch_pure(|| c.checked_apply_carry()), &want) {
        (Ok(Some(d)), Some(w)) => {
            if let Err(e) = observe(env, &d, w) {
                t.violation("apply", format!("{} then applying the carry {e}", ctx()));
            }
        }
        (Ok(None), None) => t.count("applying the carry leaves the range"),
        (Ok(x), w) => t.violation("apply", format!("{} then applying the carry gives {x:?}, expected {w:?}", ctx())),
        (Err(p), _) => t.violation("apply", format!("{} then applying the carry panics: {} at {}", ctx(), p.msg, p.loc)),
    }
    match (catch_pure(|| c.apply_carry()), &want) {
        (Ok(d), Some(w)) => {
            if let Err(e) = observe(env, &d, w) {
                t.violation("apply", format!("{} then (unchecked) applying the carry {e}", ctx()));
            }
        }
        (Err(_), None) => {}
        (x, w) => t.violation(
            "apply",
            format!("{} then (unchecked) applying the carry gives {x:?}, expected {w:?}", ctx()),
        ),
    }
    // Dropping, from the original and from a copy taken before.
    for (which, c) in [("", c), ("a clone of ", copy.clone())] {
        match catch_pure(|| c.drop_carry()) {
            Ok(d) => {
                if let Err(e) = observe(env, &d, &r.m) {
                    t.violation("drop", format!("{}, dropping {which}the carry {e}", ctx()));
                }
            }
            Err(p) => t.violation("drop", format!("{}, dropping {which}the carry panics: {}", ctx(), p.msg)),
        }
    }
    // Unwrapping: panics are slow, so only a share of the clipped ones.
    if !clipped || t.evals % 4 == 0 {
        match (catch_pure(|| copy.unwrap()), clipped) {
            (Ok(d), false) => {
                if let Err(e) = observe(env, &d, &r.m) {
                    t.violation("unwrap", format!("{}, unwrapping {e}", ctx()));
                }
            }
            (Err(_), true) => t.count("unwrapping a carry panicked as it must"),
            (Ok(d), true) => t.violation("unwrap", format!("{}: unwrapping drops the carry silently: {d:?}", ctx())),
            (Err(p), false) => t.violation("unwrap", format!("{}: unwrapping panics without a carry: {}", ctx(), p.msg)),
        }
    }
}

fn a06(a: &Args) -> Tally {
    let worlds = make_worlds(a, 13);
    let n = a.n(3_000_000, 60_000_000);
    shards(worlds, |t, w, shard| {
        let mut rng = rng_for(a, shard);
        let mut i = 0;
        let mut last = None;
        while i < n {
            let env = w.pick(&mut rng);
            let mut m = gen_m(&mut rng, &env.table);
            if rng.chance(1, 2) {
                // Start where something is bound to be clipped: a leap second or a month end.
                let e = rng.pick(&env.table.entries);
                m.prec = rng.range(5, 8) as u8;
                m.day = e.0 - 1;
                m.sod = env.table.day_len(m.day) - 1 - rng.below(2) as i64;
                if rng.chance(1, 3) {
                    // Also the 31st of a month with a following shorter one when possible.
                    m.day = gen_day(&mut rng, &env.table);
                    m.sod = env.table.day_len(m.day) - 1;
                }
                m = m.canonical();
            }
            let dt = match build(&env.chr, &env.table, &m) {
                Ok(d) => d,
                Err(e) => {
                    t.violation("build", e);
                    i += 1;
                    continue;
                }
            };
            for _ in 0..4 {
                i += 1;
                let unit = rng.below(5) as u8;
                let op = gen_op(&mut rng, &env.table, &m, unit);
                judge_carry(t, env, &m, &dt, op, &mut last);
            }
            // To the last day of the range, where an applied carry has nowhere to go.
            if m.sod >= 86_399 {
                judge_carry(t, env, &m, &dt, Op::Days((MAX_DAY - m.day) as i32), &mut last);
                let (y, mo, d) = civil_from_days(m.day);
                if (mo, d) == (12, 31) {
                    judge_carry(t, env, &m, &dt, Op::Years((9999 - y) as i16), &mut last);
                    judge_carry(t, env, &m, &dt, Op::Months(((9999 - y) * 12) as i32), &mut last);
                }
                judge_carry(t, env, &m, &dt, Op::Minutes((MAX_DAY - m.day) * 1440), &mut last);
            }
            // Onto a day whose length is changed by way of a shorter month: seconds may be clipped twice.
            let e = rng.pick(&env.table.entries).0 - 1;
            let back = rng.range(0, 3);
            let clipped_day = e - back;
            let (y, mo, d) = civil_from_days(clipped_day);
            if d == month_len(y, mo) && (MIN_DAY..=MAX_DAY).contains(&clipped_day) {
                let k = (y * 12 + mo - 1) + if rng.chance(1, 2) { -rng.range(-30, 30) } else { 12 * rng.range(-60, 60) };
                let (sy, sm) = (k.div_euclid(12), k.rem_euclid(12) + 1);
                if (0..=9999).contains(&sy) && month_len(sy, sm) >= d + back {
                    let day = days_from_civil(sy, sm, d + back);
                    let m = M { day, sod: env.table.day_len(day) - 1 - rng.below(2) as i64, ns: 5, prec: 8 };
                    if let Ok(dt) = build(&env.chr, &env.table, &m) {
                        i += 1;
                        t.count("clipped on the way to a changed day");
                        judge_carry(t, env, &m, &dt, Op::Months(((y * 12 + mo - 1) - k) as i32), &mut last);
                        if sm == mo {
                            judge_carry(t, env, &m, &dt, Op::Years((y - sy) as i16), &mut last);
                        }
                    }
                }
            }
            if t.enough() {
                return;
            }
        }
    })
}

// ---------------------------------------------------------------------------------------------------------
// A07
// ---------------------------------------------------------------------------------------------------------

fn judge_range(t: &mut Tally, env: &Env, m: &M, dt: &DateTime, op: Op, unchecked_too: bool) {
    let expected = apply(&env.table, m, op);
    t.eval(hash_all(&[m.key(), op.key(), hash_str(&env.name)]), expected.is_none() || op.amount().unsigned_abs() > 1000);
    t.count(if expected.is_some() { "targets in range" } else { "targets out of range" });
    let ctx = || describe(env, m, op);
    let mut first: Option<(DateTime, i64, i64)> = None;
    match (checked(dt, op), &expected) {
        (Ok(None), None) => {}
        (Ok(Some(out)), Some(r)) => {
            // Value checks belong to A01 - A05, except that a wrapped result must not pass for a sum.
            let (d, days, secs) = out.parts();
            let f = fields_of(&d);
            let e = r.m.fields();
            if (f.y, f.mo, f.d) != (e.y, e.mo, e.d) {
                t.violation("range", format!("{} gives {d:?}, expected {}", ctx(), r.m.show()));
            }
            first = Some((d, days, secs));
        }
        (Ok(None), Some(r)) => t.violation("range", format!("{} is reported out of bounds, expected {}", ctx(), r.m.show())),
        (Ok(Some(out)), None) => {
            let (d, _, _) = out.parts();
            t.violation("range", format!("{} gives {d:?}, expected out of bounds", ctx()));
        }
        (Err(p), _) => t.violation("range", format!("{} panics: {} at {}", ctx(), p.msg, p.loc)),
    }
    t.sample(|| format!("{} -> {}", ctx(), expected.map_or("out of bounds".into(), |r| r.m.show())));
    if unchecked_too {
        t.count("unchecked twins compared");
        match (unchecked(dt, op), &expected) {
            (Err(_), None) => {}
            (Ok(out), Some(_)) => {
                let got = out.parts();
                if let Some(first) = first {
                    if got.0 != first.0 || (got.1, got.2) != (first.1, first.2) {
                        t.violation("unchecked", format!("{}: unchecked gives {got:?}, checked gave {first:?}", ctx()));
                    }
                }
            }
            (Ok(out), None) => {
                let got = out.parts();
                t.violation("unchecked", format!("{}: unchecked gives {got:?}, expected a panic", ctx()));
            }
            (Err(p), Some(r)) => t.violation("unchecked", format!("{}: unchecked panics ({} at {}), expected {}", ctx(), p.msg, p.loc, r.m.show())),
        }
    }
}

fn a07(a: &Args) -> Tally {
    let worlds = make_worlds(a, 8);
    let n = a.n(3_000_000, 80_000_000);
    let thorough = a.thorough;
    shards(worlds, |t, w, shard| {
        let mut rng = rng_for(a, shard);
        for i in 0..n {
            let env = w.pick(&mut rng);
            let mut m = gen_m(&mut rng, &env.table);
            if rng.chance(1, 5) {
                // From the two ends of the range.
                m.day = *rng.pick(&[MIN_DAY, MIN_DAY, MAX_DAY, MAX_DAY, MIN_DAY + 59, MIN_DAY + 365, MAX_DAY - 365]);
                m.sod = *rng.pick(&[0, 1, 86_399, 86_340, 43_200]);
                m = m.canonical();
            }
            let dt = match build(&env.chr, &env.table, &m) {
                Ok(d) => d,
                Err(e) => {
                    t.violation("build", e);
                    continue;
                }
            };
            let unit = rng.below(6) as u8;
            let op = gen_op(&mut rng, &env.table, &m, unit);
            judge_range(t, env, &m, &dt, op, i % 8 == 0);
            if t.enough() {
                return;
            }
        }
        // Every i16 year count, from a few years; every month count within and just beyond the range.
        let env = &w.envs[0];
        let starts: Vec<i64> = if thorough { (0..10_000).step_by(97).chain([9998, 9999]).collect() } else { vec![0, 1970, 2000, 9999] };
        for (k, y) in starts.iter().enumerate() {
            let m = M { day: days_from_civil(*y, if k % 2 == 0 { 1 } else { 12 }, 31), sod: 86_399, ns: 1, prec: 8 };
            let Ok(dt) = build(&env.chr, &env.table, &m) else { continue };
            for n in (i16::MIN as i64 + shard as i64..=i16::MAX as i64).step_by(a.threads as usize) {
                judge_range(t, env, &m, &dt, Op::Years(n as i16), n % 257 == 0);
            }
            for n in (-121_000 + shard as i64..=121_000).step_by(a.threads as usize) {
                judge_range(t, env, &m, &dt, Op::Months(n as i32), n % 1009 == 0);
            }
            t.count("full sweeps of i16 years and of months");
        }
        // A grid over each argument type: all amounts k * 2^j + small.
        let m = M { day: 11_016, sod: 86_399, ns: 999_999_999, prec: 8 };
        let Ok(dt) = build(&env.chr, &env.table, &m) else { return };
        for unit in 0..6u8 {
            let bits = [15, 31, 31, 31, 63, 63][unit as usize];
            for j in 0..=bits {
                for k in [1i128, 3, 5, 7, 9, 15] {
                    for d in -2i128..=2 {
                        for sign in [1i128, -1] {
                            if (k as u64 + j as u64 + unit as u64) % a.threads != shard {
                                continue;
                            }
                            let n = (sign * k << j) + d;
                            let op = match unit {
                                0 => i16::try_from(n).map(Op::Years).ok(),
                                1 => i32::try_from(n).map(Op::Months).ok(),
                                2 => i32::try_from(n).map(Op::Days).ok(),
                                3 => i32::try_from(n).map(Op::Hours).ok(),
                                4 => i64::try_from(n).map(Op::Minutes).ok(),
                                _ => i64::try_from(n).map(Op::Seconds).ok(),
                            };
                            if let Some(op) = op {
                                judge_range(t, env, &m, &dt, op, true);
                            }
                        }
                    }
                }
            }
        }
        // Amounts that would look like a modest one if the minutes, hours, days, months, years or cycles they come to were
        // cut to fewer bits: from either side of the table, all the way to both ends of the range.
        let mut nth = 0u64;
        for env in w.envs.iter().take(if thorough { 13 } else { 3 }) {
            for day in [MIN_DAY, -719_000, -1, 730, 11_016, 25_567, 1_000_000, MAX_DAY] {
                let m = M { day, sod: 43_199, ns: 5, prec: 8 }.canonical();
                let Ok(dt) = build(&env.chr, &env.table, &m) else { continue };
                for unit in 0..6u8 {
                    let multiples: &[i128] = match unit {
                        0 => &[1, 4, 100, 400],
                        1 => &[1, 12, 1200, 4800],
                        2 => &[1, 1461, 36_524, 146_097],
                        3 => &[1, 24, 24 * 146_097],
                        4 => &[1, 60, 1440, 1440 * 146_097],
                        _ => &[1, 60, 3600, 86_400, 86_400 * 146_097],
                    };
                    let per_day: i128 = [0, 0, 1, 24, 1440, 86_400][unit as usize];
                    for multiple in multiples {
                        for j in [7u32, 8, 15, 16, 23, 24, 31, 32, 33, 39, 40, 47, 48, 55, 56, 62, 63] {
                            for k in [1i128, -1, 2, -2, 3, -3] {
                                for base in [0, 1, -1, 400 * per_day, -400 * per_day, (10_957 - day as i128) * per_day] {
                                    nth += 1;
                                    if nth % a.threads != shard {
                                        continue;
                                    }
                                    let n = base + (k << j) * multiple;
                                    let op = match unit {
                                        0 => i16::try_from(n).map(Op::Years).ok(),
                                        1 => i32::try_from(n).map(Op::Months).ok(),
                                        2 => i32::try_from(n).map(Op::Days).ok(),
                                        3 => i32::try_from(n).map(Op::Hours).ok(),
                                        4 => i64::try_from(n).map(Op::Minutes).ok(),
                                        _ => i64::try_from(n).map(Op::Seconds).ok(),
                                    };
                                    if let Some(op) = op {
                                        judge_range(t, env, &m, &dt, op, nth % 64 == 0);
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
        t.count("grids of amounts that alias modest ones");
    })
}

// ---------------------------------------------------------------------------------------------------------
// A08
// ---------------------------------------------------------------------------------------------------------

/// The date-time must be one that exists, judged from what it shows alone.
fn exists(env: &Env, dt: &DateTime, prec: u8, ns: u32) -> Result<M, String> {
    let f = catch_pure(|| fields_of(dt)).map_err(|p| format!("reading components panics: {} at {}", p.msg, p.loc))?;
    let raw = Raw {
        y: f.y as u16,
        mo: f.mo as u8,
        d: f.d as u8,
        h: f.h as u8,
        mi: f.mi as u8,
        s: f.s as u8,
        ms: (ns / 1_000_000) as u16,
        us: (ns / 1000 % 1000) as u16,
        ns: (ns % 1000) as u16,
        prec: prec.max(SECOND),
    };
    let m = raw
        .expected(&env.table)
        .map_err(|e| format!("shows {f:?}, which does not exist ({e:?})"))?;
    match catch_pure(|| raw.builder(Some(&env.chr)).checked_build().map_err(|e| format!("{e:?}"))) {
        Ok(Ok(again)) => {
            if prec >= SECOND && again != *dt {
                return Err(format!("differs from the date-time rebuilt from its components: {dt:?} vs {again:?}"));
            }
        }
        Ok(Err(e)) => return Err(format!("shows {f:?}, which the builder rejects ({e})")),
        Err(p) => return Err(format!("shows {f:?}, on which the builder panics: {} at {}", p.msg, p.loc)),
    }
    Ok(M { prec, ..m })
}

fn a08(a: &Args) -> Tally {
    let worlds = make_worlds(a, 13);
    let n = a.n(800_000, 16_000_000);
    shards(worlds, |t, w, shard| {
        let mut rng = rng_for(a, shard);
        for _ in 0..n {
            let env = w.pick(&mut rng);
            let m0 = gen_m(&mut rng, &env.table);
            let mut dt = match build(&env.chr, &env.table, &m0) {
                Ok(d) => d,
                Err(e) => {
                    t.violation("build", e);
                    continue;
                }
            };
            let mut m = m0;
            let mut trace = m0.show();
            let len = rng.range(2, 24);
            let mut done = 0;
            let mut carries = 0;
            for _ in 0..len {
                let unit = rng.below(6) as u8;
                let op = gen_op(&mut rng, &env.table, &m, unit);
                // Operations may fail or panic out of range (A07); a walk just stays where it was.
                let out = match checked(&dt, op) {
                    Ok(Some(out)) => out,
                    _ => continue,
                };
                done += 1;
                trace.push_str(&format!(" +{} {}", op.amount(), op.name()));
                let next = match out {
                    Out::Plain(d) => d,
                    Out::Carry(c) => {
                        if c.has_carry() {
                            carries += 1;
                        }
                        let c = if rng.chance(1, 4) { c.clone() } else { c };
                        match rng.below(3) {
                            0 => match catch_pure(|| c.checked_apply_carry()) {
                                Ok(Some(d)) => {
                                    trace.push_str(" applied");
                                    d
                                }
                                _ => continue,
                            },
                            1 => {
                                trace.push_str(" dropped");
                                c.drop_carry()
                            }
                            _ => {
                                if c.has_carry() {
                                    match catch_pure(|| c.apply_carry()) {
                                        Ok(d) => {
                                            trace.push_str(" applied!");
                                            d
                                        }
                                        Err(_) => continue,
                                    }
                                } else {
                                    match catch_pure(|| c.unwrap()) {
                                        Ok(d) => d,
                                        Err(_) => continue,
                                    }
                                }
                            }
                        }
                    }
                };
                let next = match rng.below(8) {
                    0 => next.clone(),
                    1 => {
                        let mut over = dt.clone();
                        over.clone_from(&next);
                        over
                    }
                    _ => next,
                };
                match exists(env, &next, m.prec, m.ns) {
                    Ok(mm) => {
                        m = mm;
                        dt = next;
                    }
                    Err(e) => {
                        t.violation("existence", format!("{trace}: {e} [{}]", env.show()));
                        break;
                    }
                }
                if m.sod >= 86_400 {
                    t.count("visited an inserted second");
                }
                if env.table.day_len(m.day) < 86_400 && m.sod >= 86_395 {
                    t.count("visited the end of a shortened day");
                }
            }
            t.add("steps", done);
            t.add("steps with carry", carries);
            t.eval(hash_str(&trace), done >= 2);
            t.sample(|| trace.clone());
            if t.enough() {
                return;
            }
        }
    })
}

// ---------------------------------------------------------------------------------------------------------
// L01
// ---------------------------------------------------------------------------------------------------------

fn accepts(chr: Option<&Chronology>, day: i64, s: u8) -> Result<bool, String> {
    let (y, mo, d) = civil_from_days(day);
    let raw = Raw { y: y as u16, mo: mo as u8, d: d as u8, h: 23, mi: 59, s, ms: 0, us: 0, ns: 0, prec: SECOND };
    catch(|| raw.builder(chr).checked_build().is_ok()).map_err(|p| format!("builder panics: {} at {}", p.msg, p.loc))
}

/// Every listed day and its neighbours, second by second; sampled other days; long jumps over all entries.
fn judge_timeline(t: &mut Tally, rng: &mut Rng, env: &Env, label: &str) {
    let table = &env.table;
    let ctx = format!("{label} [{}]", env.show());
    let mut days: Vec<i64> = Vec::new();
    for e in &table.entries {
        days.extend([e.0 - 2, e.0 - 1, e.0]);
    }
    for _ in 0..40 {
        days.push(gen_day(rng, table));
    }
    days.extend([MIN_DAY, MIN_DAY + 1, -1, 0, 1, MAX_DAY - 1, MAX_DAY]);
    for (i, &day) in days.iter().enumerate() {
        let len = table.day_len(day);
        let (y, mo, d) = civil_from_days(day);
        // Which seconds the builder says the day ends with.
        for s in 56..=63u8 {
            let want = 86_340 + (s as i64) < len;
            match accepts(Some(&env.chr), day, s) {
                Ok(got) if got == want => {}
                Ok(got) => t.violation("builder", format!("{ctx}: {y:04}-{mo:02}-{d:02}T23:59:{s:02} accepted: {got}, but the day has {len} seconds")),
                Err(e) => t.violation("builder", format!("{ctx}: {e}")),
            }
        }
        // The same, by stepping through the end of the day one second at a time, both ways.
        let first = M { day, sod: 86_395, ns: 0, prec: SECOND };
        let Ok(start) = build(&env.chr, table, &first) else {
            t.violation("builder", format!("{ctx}: rejects {}", first.show()));
            continue;
        };
        let mut cur = start.clone();
        let mut m = first;
        let mut labels = Vec::new();
        for _ in 0..10 {
            labels.push(fields_of(&cur));
            match apply(table, &m, Op::Seconds(1)) {
                None => {
                    if !matches!(checked(&cur, Op::Seconds(1)), Ok(None)) {
                        t.violation("stepping", format!("{ctx}: stepping past {} is not out of bounds", m.show()));
                    }
                    break;
                }
                Some(r) => match checked(&cur, Op::Seconds(1)) {
                    Ok(Some(out)) => {
                        if let Err(e) = out_matches(env, out, &r, &mut cur) {
                            t.violation("stepping", format!("{ctx}: one second after {} {e}", m.show()));
                            break;
                        }
                        m = r.m;
                    }
                    _ => {
                        t.violation("stepping", format!("{ctx}: cannot step one second past {}", m.show()));
                        break;
                    }
                },
            }
            t.count("seconds stepped through at ends of days");
        }
        // And back again, through the same labels.
        if m.day <= MAX_DAY && !(day == MAX_DAY) {
            for want in labels.iter().rev() {
                match checked(&cur, Op::Seconds(-1)) {
                    Ok(Some(out)) => {
                        let (d, _, _) = out.parts();
                        if fields_of(&d) != *want {
                            t.violation("stepping", format!("{ctx}: one second before {cur:?} reads {:?}, expected {want:?}", fields_of(&d)));
                            break;
                        }
                        cur = d;
                    }
                    _ => {
                        t.violation("stepping", format!("{ctx}: cannot step back from {cur:?}"));
                        break;
                    }
                }
            }
        }
        t.eval(hash_all(&[day as u64, hash_str(&format!("{:?}", table.entries))]), true);
        if len != 86_400 {
            t.count("lengthened or shortened days observed");
        }
        // Elapsed time to a day far away counts exactly the entries between.
        if i % 3 == 0 {
            let other = *rng.pick(&days);
            let secs = (table.day_start(other) - table.day_start(day)) as i64;
            let from = M { day, sod: 0, ns: 0, prec: SECOND };
            if let Ok(dt) = build(&env.chr, table, &from) {
                step(t, env, &from, &dt, Op::Seconds(secs), false);
                t.count("day-to-day distances");
            }
        }
    }
}

fn out_matches(env: &Env, out: Out, r: &R, cur: &mut DateTime) -> Result<(), String> {
    *cur = observe_result(env, out, r)?;
    Ok(())
}

fn l01(a: &Args) -> Tally {
    let home = std::env::current_dir().expect("a working directory");
    let mut total = Tally::new(0);
    // One database after another: changing the environment needs a single thread, judging does not.
    let rounds = a.n(60, 3_000);
    for round in 0..rounds {
        let mut worlds: Vec<Vec<(Env, String)>> = (0..a.threads).map(|_| Vec::new()).collect();
        for k in 0..a.threads {
            let mut rng = Rng::new(&[a.seed, 0x101, round, k]);
            let table = Table::random(&mut rng, round * a.threads + k);
            let dir = Path::new(&a.scratch).join("l01").join(format!("{k}"));
            let zones = write_tzdir(&dir, &table, &mut rng);
            use_tzdir(&dir);
            for z in zones {
                let chr = match catch(|| load_chronology(&z)) {
                    Ok(c) => c,
                    Err(p) => {
                        total.violation("loading", format!("loading {z} with {:?} panics: {} at {}", table.entries, p.msg, p.loc));
                        continue;
                    }
                };
                total.count("chronologies loaded");
                worlds[k as usize].push((Env { chr, table: table.clone(), name: format!("t{k}") }, z));
            }
            // A builder without a chronology uses the same table.
            for e in &table.entries {
                for day in [e.0 - 1, e.0, e.0 - 2] {
                    for s in [58, 59, 60, 61] {
                        let want = 86_340 + (s as i64) < table.day_len(day);
                        match accepts(None, day, s) {
                            Ok(got) if got == want => total.count("seconds tried on the default chronology"),
                            r => total.violation("default chronology", format!("second {s} of day {day}: {r:?}, expected {want} [{:?}]", table.entries)),
                        }
                    }
                }
            }
        }
        total.add("tables", a.threads);
        total.sample(|| format!("table {:?}", worlds[0].first().map(|w| w.0.table.entries.clone())));
        let part = shards(worlds, |t, w, shard| {
            let mut rng = Rng::new(&[a.seed, 0x102, round, shard]);
            for (env, zone) in w.iter() {
                judge_timeline(t, &mut rng, env, zone);
            }
        });
        total.merge(part);
        if total.enough() {
            return total;
        }
    }
    // A database in a directory of any name.
    for (k, name) in [&b"plain"[..], b"two words", b"\xF6ster", b"\xC3\xB6ster", b"a\xFF\xFEb", b"x/../y", b"-", b"\x01"].into_iter().enumerate() {
        let mut rng = Rng::new(&[a.seed, 0x104, k as u64]);
        let table = Table::random(&mut rng, k as u64);
        let dir = Path::new(&a.scratch).join("l01n").join(std::ffi::OsStr::from_bytes(name));
        std::fs::create_dir_all(Path::new(&a.scratch).join("l01n/x")).expect("scratch dir");
        write_tzdir(&dir, &table, &mut rng);
        use_tzdir(&dir);
        match catch(|| load_chronology("UTC")) {
            Ok(chr) => {
                let env = Env { chr, table, name: format!("{dir:?}") };
                judge_timeline(&mut total, &mut rng, &env, "UTC");
                total.count("unusual directory names");
            }
            Err(p) => total.violation("loading", format!("the database in {dir:?} cannot be loaded: {} at {}", p.msg, p.loc)),
        }
    }
    // The same name for one database after another: a link that is moved, a relative name in another directory, a
    // file that changes in place and looks the same from outside.
    let base = Path::new(&a.scratch).join("l01s");
    for round in 0..a.n(40, 1_000) {
        let mut rng = Rng::new(&[a.seed, 0x105, round]);
        let link = base.join("current");
        let _ = std::fs::remove_file(&link);
        let table = Table::random(&mut rng, round);
        let others = [table.clone(), table.moved(1), table.moved(-1), Table::random(&mut rng, round + 5)];
        for (i, table) in others.iter().enumerate() {
            let dir = base.join(format!("{i}/db"));
            write_tzdir(&dir, table, &mut rng);
            let _ = std::fs::remove_file(&link);
            std::os::unix::fs::symlink(&dir, &link).expect("scratch link");
            let same = base.join("same");
            write_tzdir(&same, table, &mut Rng::new(&[1]));
            for zone in ["UTC", "Mock/East"] {
                let f = std::fs::File::options().write(true).open(same.join("right").join(zone)).expect("scratch file");
                f.set_modified(UNIX_EPOCH + Duration::from_secs(1_600_000_000)).expect("scratch file time");
            }
            std::env::set_current_dir(base.join(format!("{i}"))).expect("scratch dir");
            let mut names = vec![(link.as_path(), "a link"), (Path::new("db"), "a relative name"), (same.as_path(), "a file rewritten in place"), (Path::new("./db/../db/"), "a relative name")];
            if round % 2 == 0 {
                // One of them alone, time after time.
                names = vec![names[round as usize / 2 % 4]];
            }
            for (dir, what) in names {
                use_tzdir(dir);
                let zone = if rng.chance(1, 2) { "UTC" } else { "Mock/East" };
                match catch(|| load_chronology(zone)) {
                    Ok(chr) => {
                        if let Err(e) = follows(&chr, table, &[]) {
                            total.violation("same name", format!("{what} ({dir:?}, zone {zone}) that named another database before: {e}"));
                        }
                        total.count("databases behind a name that named another");
                    }
                    Err(p) => total.violation("loading", format!("the database behind {what} {dir:?} cannot be loaded: {} at {}", p.msg, p.loc)),
                }
                let e = rng.pick(&table.entries).0;
                for s in [59, 60] {
                    let want = 86_340 + (s as i64) < table.day_len(e - 1);
                    match accepts(None, e - 1, s) {
                        Ok(g) if g == want => total.count("default builds behind a name that named another database"),
                        r => total.violation("same name", format!("{what} {dir:?}: second {s} of day {} gives {r:?}, expected {want}", e - 1)),
                    }
                }
            }
        }
        if total.enough() {
            return total;
        }
    }
    std::env::set_current_dir(&home).expect("the working directory");
    // The system's own database: by name, by default (also where the environment names no directory, as the C
    // library has it), and for every zone in it.
    let sys = Path::new(SYSTEM_TZDIR);
    let table = Table::read(&sys.join("right/UTC"));
    for how in 0..3 {
        let set = how == 0;
        match how {
            0 => use_tzdir(sys),
            1 => std::env::remove_var("TZDIR"),
            _ => use_tzdir(Path::new("")),
        }
        let mut rng = Rng::new(&[a.seed, 0x103, how]);
        for z in ["UTC", "Europe/Stockholm", "America/New_York", "Asia/Kathmandu", "Pacific/Apia"] {
            if !sys.join("right").join(z).exists() {
                continue;
            }
            match catch(|| load_chronology(z)) {
                Ok(chr) => {
                    let env = Env { chr, table: table.clone(), name: "system".into() };
                    judge_timeline(&mut total, &mut rng, &env, z);
                    total.count("system zones judged");
                }
                Err(p) => total.violation("loading", format!("loading {z} from the system database panics: {} at {}", p.msg, p.loc)),
            }
        }
        if !set {
            total.count("runs with TZDIR unset or empty");
        }
    }
    use_tzdir(sys);
    total
}

// ---------------------------------------------------------------------------------------------------------
// L02
// ---------------------------------------------------------------------------------------------------------

#[derive(Clone, Copy, Debug)]
enum Task {
    Add(usize, M, Op),
    Build(usize, M),
    DefaultBuild(M),
    Convert(i64, u32),
    Compare(i128, i128),
    /// An operation that is refused or panics, or nearly.
    Refuse(u8, usize, M, i64),
    Divide(i128, i128),
    Print(usize, M),
}

/// What a task gave, in a form that can be compared with what it gives another time.
#[derive(PartialEq, Eq)]
enum Outcome {
    None,
    /// Shown components, carry, and the date-times themselves (absent where separately loaded chronologies
    /// make date-times incomparable).
    Date(Fields, Option<DateTime>, i64, i64, Option<DateTime>),
    Num(i128),
    Text(String),
}

fn run_task(envs: &[(Chronology, Table)], starts: &[Option<DateTime>], i: usize, task: &Task) -> Outcome {
    let r = catch(|| match task {
        Task::Add(_, _, op) => {
            let dt = starts[i].as_ref().expect("built before");
            let out = match op {
                Op::Years(n) => dt.checked_add_years(*n).map(Out::Carry),
                Op::Months(n) => dt.checked_add_months(*n).map(Out::Carry),
                Op::Days(n) => dt.checked_add_days(*n).map(Out::Carry),
                Op::Hours(n) => dt.checked_add_hours(*n).map(Out::Carry),
                Op::Minutes(n) => dt.checked_add_minutes(*n).map(Out::Carry),
                Op::Seconds(n) => dt.checked_add_seconds(*n).map(Out::Plain),
            };
            match out {
                None => Outcome::None,
                Some(Out::Plain(d)) => Outcome::Date(fields_of(&d), Some(d), 0, 0, None),
                Some(Out::Carry(c)) => {
                    let applied = c.checked_apply_carry();
                    let (d, x, y) = Out::Carry(c).parts();
                    Outcome::Date(fields_of(&d), Some(d), x, y, applied)
                }
            }
        }
        Task::Build(e, m) => match Raw::of(m).builder(Some(&envs[*e].0)).checked_build() {
            Ok(d) => Outcome::Date(fields_of(&d), Some(d), 0, 0, None),
            Err(e) => Outcome::Text(format!("{e:?}")),
        },
        Task::DefaultBuild(m) => match Raw::of(m).builder(None).checked_build() {
            Ok(d) => Outcome::Date(fields_of(&d), None, 0, 0, None),
            Err(e) => Outcome::Text(format!("{e:?}")),
        },
        Task::Convert(s, ns) => {
            let st = if *s >= 0 {
                UNIX_EPOCH + Duration::new(*s as u64, *ns)
            } else {
                UNIX_EPOCH - Duration::new(s.unsigned_abs(), 0) + Duration::new(0, *ns)
            };
            match <InstantNs128 as TryFrom<SystemTime>>::try_from(st) {
                Ok(i) => Outcome::Num(i.ticks_since_epoch()),
                Err(_) => Outcome::None,
            }
        }
        Task::Compare(x, y) => {
            let (x, y) = (InstantNs128::from_ticks_since_epoch(*x), InstantNs128::from_ticks_since_epoch(*y));
            Outcome::Num((x < y) as i128 * 4 + (x == y) as i128 * 2 + (x > y) as i128)
        }
        Task::Refuse(kind, e, m, v) => refused(*kind, &envs[*e].0, m, *v),
        Task::Divide(x, y) => {
            let (x, y) = (DurNs::of(*x), DurNs::of(*y));
            let (q, r) = x.div_rem_floor(y);
            let (q2, r2) = x.div_rem_ceil(y);
            Outcome::Text(format!("{q} {r:?} {q2} {r2:?} {:?} {:?}", x.floor::<momentous_seconds::S>(), x.cmp(&y)))
        }
        Task::Print(e, m) => Outcome::Text(format!("{:?}", Raw::of(m).builder(Some(&envs[*e].0)).build())),
    });
    match r {
        Ok(o) => o,
        Err(_) => Outcome::Text("refused".into()),
    }
}

/// A scale of whole seconds and one that no other is a multiple of.
mod momentous_seconds {
    #[derive(Debug, Clone, Copy, Ord, PartialOrd, Eq, PartialEq, Hash)]
    pub struct S;
    impl momentous::Scale for S {
        const TICKS_PER_SECOND: u32 = 1;
    }
    #[derive(Debug, Clone, Copy, Ord, PartialOrd, Eq, PartialEq, Hash)]
    pub struct Odd;
    impl momentous::Scale for Odd {
        const TICKS_PER_SECOND: u32 = 44_100;
    }
}

struct DurNs;
impl DurNs {
    fn of(ticks: i128) -> momentous::Duration<i128, momentous::Nanoseconds> {
        InstantNs128::from_ticks_since_epoch(ticks).duration_since_epoch()
    }
}

fn refused(kind: u8, chr: &Chronology, m: &M, v: i64) -> Outcome {
    use momentous::Instant;
    let d = || Raw::of(m).builder(Some(chr)).build();
    match kind {
        0 => Outcome::Text(format!("{:?}", d().add_days((v as i32) | 0x4000_0000))),
        1 => Outcome::Text(format!("{:?}", d().add_months(v as i32 % 1000).unwrap())),
        2 => {
            let mut raw = Raw::of(m);
            raw.mo = raw.mo.wrapping_add(v as u8 % 16);
            Outcome::Text(format!("{:?}", raw.builder(Some(chr)).build()))
        }
        3 => Outcome::Text(format!("{:?}", DurNs::of(v as i128).div_rem_floor(DurNs::of(0)))),
        4 => match <Instant<i16, momentous_seconds::S> as TryFrom<SystemTime>>::try_from(UNIX_EPOCH + Duration::from_secs(v.unsigned_abs() % 100_000)) {
            Ok(i) => Outcome::Num(i.ticks_since_epoch() as i128),
            Err(_) => Outcome::None,
        },
        5 => {
            load_chronology("No/Such_Zone");
            Outcome::None
        }
        6 => Outcome::Text(format!("{:?}", InstantNs128::from_ticks_since_epoch(v as i128).floor::<momentous_seconds::Odd>())),
        7 => Outcome::Text(format!("{:?}", DurNs::of(i128::MAX / 3) * (v as i128 % 9))),
        8 => Outcome::Text(format!("{:?}", InstantNs128::max_value() + DurNs::of(v as i128))),
        9 => Outcome::Text(format!("{:?}", d().add_seconds(v.saturating_mul(1000)))),
        10 => Outcome::Text(format!("{:?}", DateTimeBuilder::new().chronology(chr).month(3).checked_build().is_ok())),
        _ => Outcome::Text(format!("{:?}", d().add_years(v as i16).apply_carry())),
    }
}

/// What the oracle says the outcome of the task is; compared on the first run, so that "the same" is also right.
fn expected_ok(envs: &[(Chronology, Table)], starts: &[Option<DateTime>], i: usize, task: &Task) -> Result<(), String> {
    match task {
        Task::Add(e, m, op) => {
            let dt = starts[i].as_ref().unwrap();
            let env = Env { chr: envs[*e].0.clone(), table: envs[*e].1.clone(), name: "x".into() };
            match (checked(dt, *op), apply(&env.table, m, *op)) {
                (Ok(None), None) => Ok(()),
                (Ok(Some(out)), Some(r)) => observe_result(&env, out, &r).map(|_| ()).map_err(|e| format!("{} {e}", describe(&env, m, *op))),
                (r, want) => Err(format!("{} gives {}, expected {want:?}", describe(&env, m, *op), match r { Ok(None) => "none".into(), Ok(_) => "a value".into(), Err(p) => format!("panic {}", p.msg) })),
            }
        }
        _ => Ok(()),
    }
}

/// Chronologies come and go: tables of the same size follow each other, so that one is likely to be stored where
/// another was, and every one of them is asked the same questions.
fn l02_churn(a: &Args, total: &mut Tally) {
    let mut rng = Rng::new(&[a.seed, 0x204]);
    let mut dirs = Vec::new();
    for k in 0..3 {
        let first = Table::random(&mut rng, [1, 4, 9][k]);
        for by in [0, 11, -17] {
            let table = first.moved(by);
            let dir = Path::new(&a.scratch).join(format!("churn{k}{by}"));
            write_tzdir(&dir, &table, &mut rng);
            dirs.push(TableDir { dir, table, name: "x".into() });
        }
    }
    // Questions about days that the tables disagree on.
    let mut questions: Vec<(M, Op)> = Vec::new();
    for d in &dirs {
        for e in &d.table.entries {
            for k in [-1i64, 0, 1] {
                let m = M { day: e.0 + k, sod: 86_340, ns: 0, prec: SECOND };
                let op = match rng.below(3) {
                    0 => Op::Seconds(rng.range(1, 100)),
                    1 => Op::Seconds(86_400 * rng.range(-400, 400)),
                    _ => Op::Minutes(rng.range(-3000, 3000)),
                };
                questions.push((m, op));
            }
        }
    }
    let loads = a.n(80_000, 400_000);
    let mut kept: Vec<(Chronology, usize)> = Vec::new();
    for i in 0..loads {
        // Mostly the next of the same size, sometimes any.
        let d = if rng.chance(7, 8) { ((i / 3 % 3) * 3 + i % 3) as usize } else { rng.below(dirs.len() as u64) as usize };
        use_tzdir(&dirs[d].dir);
        let chr = match catch(|| load_chronology("UTC")) {
            Ok(c) => c,
            Err(p) => {
                total.violation("churn", format!("loading panics: {} at {}", p.msg, p.loc));
                return;
            }
        };
        let env = Env { chr, table: dirs[d].table.clone(), name: "a table loaded after others were dropped".into() };
        let first = rng.below(questions.len() as u64) as usize;
        for j in 0..6 {
            // The last question of one chronology is the first of the next.
            let (m, op) = questions[(first / 64 * 64 + (if j == 0 { 0 } else { first + j })) % questions.len()];
            churn_ask(total, &env, &m, op);
        }
        let (m, op) = questions[((i / 64) as usize * 7) % questions.len()];
        churn_ask(total, &env, &m, op);
        // Some stay alive among those that go.
        if rng.chance(1, 40) {
            kept.push((env.chr.clone(), d));
            if kept.len() > 12 {
                let k = rng.below(kept.len() as u64) as usize;
                kept.swap_remove(k);
            }
        }
        if !kept.is_empty() && rng.chance(1, 8) {
            let (chr, d) = rng.pick(&kept);
            let env = Env { chr: chr.clone(), table: dirs[*d].table.clone(), name: "a table loaded earlier".into() };
            let (m, op) = questions[((i / 64) as usize * 7) % questions.len()];
            churn_ask(total, &env, &m, op);
        }
        total.count("chronologies loaded and dropped");
        if total.enough() {
            return;
        }
    }
    use_tzdir(Path::new(SYSTEM_TZDIR));
}

fn churn_ask(t: &mut Tally, env: &Env, m: &M, op: Op) {
    t.eval(hash_all(&[m.key(), op.key(), hash_str(&env.name)]), true);
    let dt = match build(&env.chr, &env.table, m) {
        Ok(d) => d,
        Err(e) => {
            t.violation("churn", format!("{e} under {}", env.show()));
            return;
        }
    };
    match (checked(&dt, op), apply(&env.table, m, op)) {
        (Ok(Some(out)), Some(r)) => {
            if let Err(e) = observe_result(env, out, &r) {
                t.violation("churn", format!("{} {e}, after other chronologies were dropped", describe(env, m, op)));
            }
        }
        (Ok(None), None) => {}
        (Ok(r), want) => t.violation(
            "churn",
            format!("{} gives {}, expected {want:?}", describe(env, m, op), if r.is_some() { "a value" } else { "none" }),
        ),
        (Err(p), _) => t.violation("churn", format!("{} panics: {} at {}", describe(env, m, op), p.msg, p.loc)),
    }
}

fn l02(a: &Args) -> Tally {
    let mut total = Tally::new(0);
    l02_churn(a, &mut total);
    let rounds = a.n(12, 400);
    let n = a.n(24_000, 80_000) as usize;
    let dirs = make_dirs(&a.scratch, a.seed, 8);
    for round in 0..rounds {
        let mut rng = Rng::new(&[a.seed, 0x202, round]);
        let mut envs: Vec<(Chronology, Table)> = Vec::new();
        for d in &dirs {
            use_tzdir(&d.dir);
            envs.push((load_chronology("UTC"), d.table.clone()));
        }
        // The default chronology of this round.
        let def = &dirs[round as usize % dirs.len()];
        use_tzdir(&def.dir);
        let tasks: Vec<Task> = (0..n)
            .map(|i| {
                let e = rng.below(envs.len() as u64) as usize;
                match rng.below(64) {
                    0..=51 => {
                        let m = gen_m(&mut rng, &envs[e].1);
                        let unit = rng.below(6) as u8;
                        Task::Add(e, m, gen_op(&mut rng, &envs[e].1, &m, unit))
                    }
                    52..=55 => {
                        let m = gen_m(&mut rng, &envs[e].1);
                        Task::Build(rng.below(envs.len() as u64) as usize, m)
                    }
                    56 => Task::DefaultBuild(gen_m(&mut rng, &def.table)),
                    57 => Task::Convert(rng.range(-10_000_000, 4_000_000_000), rng.below(1_000_000_000) as u32),
                    58 => {
                        let m = gen_m(&mut rng, &envs[e].1);
                        Task::Refuse(rng.below(12) as u8, e, m, rng.u64() as i64 >> rng.below(64))
                    }
                    59 => Task::Divide(rng.u64() as i128 >> rng.below(64), rng.u64() as i64 as i128 >> rng.below(64)),
                    60 => Task::Print(e, gen_m(&mut rng, &envs[e].1)),
                    _ => Task::Compare(rng.u64() as i128 * (i as i128 % 7), rng.u64() as i128 * (i as i128 % 5)),
                }
            })
            .collect();
        // Shared operands: the threads below all use these very date-times and chronologies.
        let starts: Vec<Option<DateTime>> = tasks
            .iter()
            .map(|t| match t {
                Task::Add(e, m, _) => build(&envs[*e].0, &envs[*e].1, m).ok(),
                _ => None,
            })
            .collect();
        let tasks: Vec<Task> = tasks
            .into_iter()
            .enumerate()
            .map(|(i, t)| match t {
                Task::Add(e, m, _) if starts[i].is_none() => Task::Build(e, m),
                t => t,
            })
            .collect();
        let before: Vec<Option<(DateTime, Fields)>> = starts.iter().map(|s| s.as_ref().map(|d| (d.clone(), fields_of(d)))).collect();
        // First run: one by one in order, checked against the oracle.
        let base: Vec<Outcome> = tasks
            .iter()
            .enumerate()
            .map(|(i, t)| run_task(&envs, &starts, i, t))
            .collect();
        for (i, task) in tasks.iter().enumerate() {
            if let Err(e) = expected_ok(&envs, &starts, i, task) {
                total.violation("reference run", e);
            }
            total.eval(hash_all(&[round, i as u64]), !matches!(task, Task::Compare(..)));
            if matches!(&base[i], Outcome::Text(t) if t == "refused") {
                total.count("operations that panicked among the others");
            }
        }
        total.sample(|| format!("{:?}", tasks[0]));
        // Grouped by chronology, backwards, shuffled: same results.
        let mut order: Vec<usize> = (0..tasks.len()).collect();
        for pass in 0..4 {
            match pass {
                0 => order.reverse(),
                1 => order.sort_by_key(|&i| match tasks[i] {
                    Task::Add(e, m, _) => (e, m.day),
                    _ => (0, 0),
                }),
                _ => rng.shuffle(&mut order),
            }
            for &i in &order {
                let h = run_task(&envs, &starts, i, &tasks[i]);
                total.count("repeated in another order");
                if h != base[i] {
                    total.violation("order", format!("{:?} gives another result in another order (pass {pass}, round {round})", tasks[i]));
                }
            }
        }
        // All threads at once, over the same operands in different orders, without a pause between them.
        let envs = Arc::new(envs);
        let barrier = std::sync::Barrier::new(a.threads as usize);
        let worlds: Vec<u64> = (0..a.threads).collect();
        let part = shards(worlds, |t, w, shard| {
            let mut rng = Rng::new(&[a.seed, 0x203, round, *w]);
            let mut order: Vec<usize> = (0..tasks.len()).collect();
            if shard % 2 == 0 {
                rng.shuffle(&mut order);
            } else {
                // The odd ones run the same sequence at the same time, to meet on the same operands.
                let k = rng.below(64) as usize;
                order.rotate_left(k);
            }
            barrier.wait();
            for &i in &order {
                let h = run_task(&envs, &starts, i, &tasks[i]);
                t.count("repeated concurrently");
                if h != base[i] {
                    t.violation("threads", format!("{:?} gives another result while other threads run (round {round})", tasks[i]));
                }
                if rng.chance(1, 512) {
                    std::thread::yield_now();
                }
            }
        });
        total.merge(part);
        // Operands are as they were.
        for (i, b) in before.iter().enumerate() {
            if let Some((copy, dig)) = b {
                let d = starts[i].as_ref().unwrap();
                if fields_of(d) != *dig || d != copy || fields_of(copy) != *dig {
                    total.violation("operands", format!("{:?} changed its operand", tasks[i]));
                }
                total.count("operands compared afterwards");
            }
        }
        // Loading other tables meanwhile does not disturb anything: default builds follow the database in
        // use, loaded chronologies keep theirs.
        for d in dirs.iter().rev() {
            use_tzdir(&d.dir);
            for _ in 0..20 {
                let e = rng.pick(&d.table.entries).0;
                for s in [59, 60] {
                    let want = 86_340 + (s as i64) < d.table.day_len(e - 1);
                    match accepts(None, e - 1, s) {
                        Ok(g) if g == want => total.count("default builds after switching databases"),
                        r => total.violation("database switch", format!("second {s} of day {} gives {r:?}, expected {want}", e - 1)),
                    }
                }
            }
            for _ in 0..200 {
                let i = rng.below(tasks.len() as u64) as usize;
                if !matches!(tasks[i], Task::DefaultBuild(_) | Task::Convert(..) | Task::Refuse(4, ..)) && run_task(&envs, &starts, i, &tasks[i]) != base[i] {
                    total.violation("database switch", format!("{:?} changed after switching databases", tasks[i]));
                }
            }
        }
        use_tzdir(Path::new(SYSTEM_TZDIR));
        if total.enough() {
            break;
        }
    }
    total
}

// ---------------------------------------------------------------------------------------------------------
// L03
// ---------------------------------------------------------------------------------------------------------

#[repr(C)]
struct Rlimit {
    cur: u64,
    max: u64,
}
extern "C" {
    fn getrlimit(what: i32, r: *mut Rlimit) -> i32;
    fn setrlimit(what: i32, r: *const Rlimit) -> i32;
}
const RLIMIT_NOFILE: i32 = 7;

/// Run `f` while the process can open no more files.
fn without_files<R>(f: impl FnOnce() -> R) -> R {
    let mut was = Rlimit { cur: 0, max: 0 };
    unsafe {
        assert_eq!(getrlimit(RLIMIT_NOFILE, &mut was), 0);
        assert_eq!(setrlimit(RLIMIT_NOFILE, &Rlimit { cur: 0, max: was.max }), 0);
    }
    let r = f();
    unsafe {
        assert_eq!(setrlimit(RLIMIT_NOFILE, &was), 0);
    }
    r
}

/// Whether a chronology's calendar is that of the table: the ends of every changed day (and of `also`), and
/// the distance across all of them.
fn follows(chr: &Chronology, table: &Table, also: &[i64]) -> Result<(), String> {
    for day in table.entries.iter().map(|e| e.0 - 1).chain(also.iter().copied()) {
        for s in [58u8, 59, 60, 61] {
            let want = 86_340 + (s as i64) < table.day_len(day);
            let got = accepts(Some(chr), day, s)?;
            if got != want {
                return Err(format!("second {s} of the last minute of day {day} accepted: {got}, but the day has {} seconds", table.day_len(day)));
            }
        }
    }
    let from = M { day: 0, sod: 0, ns: 0, prec: SECOND };
    let to = M { day: 30_000, sod: 1, ns: 0, prec: SECOND };
    let secs = (table.day_start(30_000) + 1 - table.day_start(0)) as i64;
    let start = build(chr, table, &from)?;
    match checked(&start, Op::Seconds(secs)) {
        Ok(Some(Out::Plain(d))) if fields_of(&d) == to.fields() => Ok(()),
        Ok(Some(Out::Plain(d))) => Err(format!("{} + {secs} s reads {:?}, expected {:?}", from.show(), fields_of(&d), to.fields())),
        Ok(_) => Err(format!("{} + {secs} s is out of range", from.show())),
        Err(p) => Err(format!("{} + {secs} s panics: {} at {}", from.show(), p.msg, p.loc)),
    }
}

/// The system time at 12:00 of a day, and the instant it is.
fn noon(table: &Table, day: i64) -> (SystemTime, i128) {
    let secs = day * 86_400 + 43_200;
    let st = if secs >= 0 { UNIX_EPOCH + Duration::new(secs as u64, 0) } else { UNIX_EPOCH - Duration::new(secs.unsigned_abs(), 0) };
    (st, (secs as i128 + table.before_day(day) as i128) * 1_000_000_000)
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Fault {
    Missing,
    MissingZone,
    NoRight,
    NoDirectory,
    Directory,
    Dangling,
    Loop,
    Empty,
    /// Cut off after this many bytes: the table, or only the zone.
    Cut(usize),
    CutZone(usize),
    Magic(usize),
    /// A count in the header that the file has no room for.
    Count(usize, u32),
    Junk,
    NoFiles,
}

/// Length of the 32-bit part of a zoneinfo file.
fn block(data: &[u8]) -> usize {
    let be = |at: usize| u32::from_be_bytes(data[at..at + 4].try_into().unwrap()) as usize;
    44 + be(20) + be(24) + be(28) * 8 + be(32) * 5 + be(36) * 6 + be(40)
}

fn l03(a: &Args) -> Tally {
    let mut t = Tally::new(0);
    let rounds = a.n(24, 1_500);
    for round in 0..rounds {
        let mut rng = Rng::new(&[a.seed, 0x301, round]);
        let table = Table::random(&mut rng, round);
        let dir = Path::new(&a.scratch).join("l03");
        let _ = std::fs::remove_dir_all(&dir);
        write_tzdir(&dir, &table, &mut rng);
        // A zone without leap seconds under the plain name, as systems have it, is no substitute.
        std::fs::write(dir.join("UTC"), Table { entries: vec![] }.tzif(0, "UTC", &[], None)).expect("scratch file");
        l03_faults(&mut t, &mut rng, a, &dir, &table, round);
        if t.enough() {
            return t;
        }
    }
    for round in 0..a.n(6, 200) {
        l03_replace(&mut t, a, round);
        if t.enough() {
            break;
        }
    }
    use_tzdir(Path::new(SYSTEM_TZDIR));
    t
}

fn l03_faults(t: &mut Tally, rng: &mut Rng, a: &Args, dir: &Path, table: &Table, round: u64) {
    use_tzdir(dir);
    let utc = dir.join("right/UTC");
    let east = dir.join("right/Mock/East");
    let (utc_data, east_data) = (std::fs::read(&utc).unwrap(), std::fs::read(&east).unwrap());
    let (utc_block, east_block) = (block(&utc_data), block(&east_data));
    let label = format!("[{:?}]", table.entries);
    let earlier = match catch(|| load_chronology("Mock/East")) {
        Ok(c) => c,
        Err(p) => return t.violation("loading", format!("an intact database {label} is refused: {} at {}", p.msg, p.loc)),
    };
    if rng.chance(1, 2) {
        // Something may have been kept from an intact load, or not.
        let _ = accepts(None, 0, 59);
    }
    use Fault::*;
    let mut faults = vec![Missing, MissingZone, NoRight, NoDirectory, Directory, Dangling, Loop, Empty, Junk, NoFiles];
    faults.extend((0..4).map(Magic));
    for at in (20..44).step_by(4) {
        for n in [u32::MAX, 1 << 31, 0x00FF_FFFF, 60_000, 0x100] {
            faults.push(Count(at, n));
        }
    }
    // Cut anywhere; the largest cuts leave the 32-bit part whole.
    let every = if a.thorough || round < 2 { 1 } else { 7 };
    let first = rng.below(every as u64) as usize;
    faults.extend((first..utc_data.len()).step_by(every).map(Cut));
    faults.extend((first..east_data.len()).step_by(every).map(CutZone));
    faults.extend([Cut(utc_block - 1), Cut(utc_block), CutZone(east_block - 1), CutZone(east_block)]);
    for k in (1..faults.len()).rev() {
        faults.swap(k, rng.below(k as u64 + 1) as usize);
    }
    let also: Vec<i64> = (0..4).map(|_| gen_day(rng, table)).collect();
    let open_files = || std::fs::read_dir("/proc/self/fd").map_or(0, |d| d.count());
    let (open, refused) = (open_files(), t.counter("loads refused"));
    for (i, fault) in faults.iter().copied().enumerate() {
        // Which of the two zones have their data whole, and then whether the rest of a file is missing.
        let (mut utc_ok, mut east_ok, mut rest) = (false, false, true);
        let put = |p: &Path, d: &[u8]| std::fs::write(p, d).expect("scratch file");
        match fault {
            Missing => std::fs::remove_file(&utc).unwrap(),
            MissingZone => {
                std::fs::remove_file(&east).unwrap();
                utc_ok = true;
            }
            NoRight => std::fs::rename(dir.join("right"), dir.join("left")).unwrap(),
            NoDirectory => use_tzdir(&dir.join("nowhere")),
            Directory => {
                std::fs::remove_file(&utc).unwrap();
                std::fs::create_dir(&utc).unwrap();
            }
            Dangling | Loop => {
                std::fs::remove_file(&utc).unwrap();
                std::os::unix::fs::symlink(if fault == Loop { utc.clone() } else { dir.join("gone") }, &utc).unwrap();
            }
            Empty => put(&utc, b""),
            Cut(n) => {
                put(&utc, &utc_data[..n]);
                utc_ok = n >= utc_block;
                east_ok = utc_ok;
                rest = false;
            }
            CutZone(n) => {
                put(&east, &east_data[..n]);
                utc_ok = true;
                east_ok = n >= east_block;
                rest = false;
            }
            Magic(n) => {
                let mut d = utc_data.clone();
                d[n] ^= 1 << rng.below(8);
                put(&utc, &d);
            }
            Count(at, n) => {
                let mut d = utc_data.clone();
                d[at..at + 4].copy_from_slice(&n.to_be_bytes());
                if block(&d) <= d.len() {
                    continue;
                }
                put(&utc, &d);
            }
            Junk => put(&utc, &(0..utc_data.len()).map(|_| rng.below(256) as u8).collect::<Vec<u8>>()),
            NoFiles => {}
        }
        let attempt = |f: &dyn Fn() -> Result<Chronology, Panicked>| if fault == NoFiles { without_files(f) } else { f() };
        for (zone, good) in [("UTC", utc_ok), ("Mock/East", east_ok)] {
            t.eval(hash_all(&[hash_str(&format!("{fault:?} {zone} {label}"))]), true);
            match (attempt(&|| catch(|| load_chronology(zone))), good) {
                (Ok(chr), true) => {
                    t.count("loads with the needed data whole");
                    if let Err(e) = follows(&chr, table, &also) {
                        t.violation("partial", format!("{zone} loaded from a database with {fault:?} {label}: {e}"));
                    }
                }
                (Ok(chr), false) => t.violation(
                    "not refused",
                    format!("{zone} is loaded from a database with {fault:?} {label} (and {})", match follows(&chr, table, &also) {
                        Ok(()) => "follows the intact table".into(),
                        Err(e) => e,
                    }),
                ),
                (Err(_), true) if !rest => t.count("loads refused for what follows the 32-bit data"),
                (Err(p), true) => t.violation("refused", format!("{zone} is refused with {fault:?}, which leaves what is needed whole {label}: {}", p.msg)),
                (Err(_), false) => t.count("loads refused"),
            }
        }
        // What loads the table by itself: right by the intact table, or refused.
        let e = rng.pick(&table.entries).0;
        if let Ok(got) = if fault == NoFiles { without_files(|| accepts(None, e - 1, 60)) } else { accepts(None, e - 1, 60) } {
            t.count("default chronologies that still answered");
            if got != (table.day_len(e - 1) > 86_400) {
                t.violation("default chronology", format!("a builder without a chronology accepts second 60 of day {}: {got}, with {fault:?} {label}", e - 1));
            }
        }
        let (st, want) = noon(table, e + 3);
        let convert = || catch(|| <InstantNs128 as TryFrom<SystemTime>>::try_from(st).ok().map(|i| i.ticks_since_epoch()));
        match if fault == NoFiles { without_files(convert) } else { convert() } {
            Ok(Some(got)) if got == want => t.count("conversions that still answered"),
            Ok(Some(got)) => t.violation("conversion", format!("{st:?} converts to {got}, expected {want} or a refusal, with {fault:?} {label}")),
            _ => t.count("conversions refused"),
        }
        // A chronology loaded before is untouched.
        if let Err(e) = follows(&earlier, table, &also[..1]) {
            t.violation("earlier", format!("a chronology loaded before {fault:?} {label}: {e}"));
        }
        // Repair, and everything works again.
        match fault {
            NoRight => std::fs::rename(dir.join("left"), dir.join("right")).unwrap(),
            NoDirectory => use_tzdir(dir),
            Directory => std::fs::remove_dir(&utc).unwrap(),
            Dangling | Loop => std::fs::remove_file(&utc).unwrap(),
            _ => {}
        }
        put(&utc, &utc_data);
        put(&east, &east_data);
        if i % 4 == 0 {
            for zone in ["UTC", "Mock/East"] {
                match catch(|| load_chronology(zone)) {
                    Ok(chr) => match follows(&chr, table, &also[..1]) {
                        Ok(()) => t.count("loads after a repair"),
                        Err(e) => t.violation("repaired", format!("{zone} loaded after {fault:?} was repaired {label}: {e}")),
                    },
                    Err(p) => t.violation("repaired", format!("{zone} is refused after {fault:?} was repaired {label}: {}", p.msg)),
                }
            }
            match catch(|| <InstantNs128 as TryFrom<SystemTime>>::try_from(st).ok().map(|i| i.ticks_since_epoch())) {
                Ok(Some(got)) if got == want => {}
                r => t.violation("repaired", format!("{st:?} converts to {r:?}, expected {want}, after {fault:?} was repaired {label}")),
            }
            match accepts(None, e - 1, 59) {
                Ok(got) if got == (table.day_len(e - 1) >= 86_400) => {}
                r => t.violation("repaired", format!("default chronology: second 59 of day {}: {r:?} after {fault:?} was repaired {label}", e - 1)),
            }
        }
        t.sample(|| format!("{fault:?} {label}"));
        if t.nviol > 40 || t.enough() {
            return;
        }
    }
    let (left, refused) = (open_files().saturating_sub(open), t.counter("loads refused") - refused);
    if left as u64 > refused / 8 {
        t.violation("open files", format!("{left} more files are open after {refused} refused loads {label}"));
    }
}

/// The database is replaced (by renaming files into place) while several threads load it.
fn l03_replace(t: &mut Tally, a: &Args, round: u64) {
    let mut rng = Rng::new(&[a.seed, 0x302, round]);
    let dir = Path::new(&a.scratch).join("l03r");
    let _ = std::fs::remove_dir_all(&dir);
    let (x, y) = (Table::random(&mut rng, 5 + round), Table::random(&mut rng, 40 + round));
    write_tzdir(&dir, &x, &mut rng);
    use_tzdir(&dir);
    let files = [x.tzif(0, "UTC", &[], None), y.tzif(0, "UTC", &[], None)];
    let done = std::sync::atomic::AtomicBool::new(false);
    let swaps = std::sync::atomic::AtomicU64::new(0);
    let parts: Vec<Tally> = std::thread::scope(|s| {
        let writer = s.spawn(|| {
            let mut k = 0;
            while !done.load(std::sync::atomic::Ordering::Relaxed) {
                k ^= 1;
                let tmp = dir.join("right/tmp");
                std::fs::write(&tmp, &files[k]).expect("scratch file");
                std::fs::rename(&tmp, dir.join("right/UTC")).expect("scratch file");
                swaps.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
            }
        });
        let loads = a.n(300, 2_000);
        let hs: Vec<_> = (0..a.threads.min(4))
            .map(|k| {
                let (x, y) = (&x, &y);
                s.spawn(move || {
                    let mut t = Tally::new(k);
                    for i in 0..loads {
                        let zone = if (i + k) % 2 == 0 { "UTC" } else { "Mock/West" };
                        let before = hash_all(&[a.seed, round, k, i]);
                        match catch(|| load_chronology(zone)) {
                            Ok(chr) => match (follows(&chr, x, &[]), follows(&chr, y, &[])) {
                                (Ok(()), _) => t.count("loads during replacement that gave the one table"),
                                (_, Ok(())) => t.count("loads during replacement that gave the other table"),
                                (Err(e), Err(f)) => t.violation("mixture", format!("{zone} loaded while the table was replaced follows neither {:?} ({e}) nor {:?} ({f})", x.entries, y.entries)),
                            },
                            Err(p) => t.violation("replacement", format!("{zone} is refused while the table is replaced: {} at {}", p.msg, p.loc)),
                        }
                        t.eval(before, true);
                        if t.nviol > 5 || t.enough() {
                            break;
                        }
                    }
                    t
                })
            })
            .collect();
        let parts = hs.into_iter().map(|h| h.join().expect("loader")).collect();
        done.store(true, std::sync::atomic::Ordering::Relaxed);
        writer.join().expect("writer");
        parts
    });
    for p in parts {
        t.merge(p);
    }
    t.add("replacements of the table", swaps.load(std::sync::atomic::Ordering::Relaxed));
}
