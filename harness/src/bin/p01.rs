//! Monitor for P01: no operation's cost grows with the size of its arguments.
//!
//! Every call is timed on its thread's own processor clock, which other load on the machine does not advance.

use harness::big::*;
use harness::dt::{checked, describe, make_worlds, unchecked, Env, Out};
use harness::model::*;
use harness::mon::*;
use harness::rng::*;
use harness::ticks::*;
use momentous::iso8601::DateTime;
use momentous::{Duration, Instant, Scale};
use std::time::{SystemTime, UNIX_EPOCH};

/// A call takes microseconds at most (reading the leap-second table, for a system time, a hundred); walking through
/// the days of the calendar takes several milliseconds.
const LIMIT_NS: u64 = 5_000_000;

fn main() {
    install_hook();
    let args = Args::parse();
    run(&args, |a| {
        harness::big::self_check(&mut Rng::new(&[a.seed]));
        p01(a)
    });
}

/// Time one call; if it is slow, time it again, and let the fastest count.
fn timed<R>(t: &mut Tally, kind: &'static str, ctx: impl Fn() -> String, f: impl Fn() -> R) -> Option<R> {
    let one = || {
        let before = watch::thread_cpu_ns();
        let r = catch(&f);
        (watch::thread_cpu_ns() - before, r)
    };
    let (mut ns, r) = one();
    let mut again = 0;
    // A fault of the moment does not last seconds.
    let began = watch::thread_cpu_ns();
    while ns > LIMIT_NS && again < 6 && (again < 2 || watch::thread_cpu_ns() - began < 1_000_000_000) {
        ns = ns.min(one().0);
        again += 1;
    }
    t.count(kind);
    if r.is_err() {
        t.count("calls that panic");
    }
    if again > 0 {
        t.count("calls timed again");
    }
    if ns > LIMIT_NS {
        t.violation("cost", format!("{}: takes {} us of processor time at best", ctx(), ns / 1000));
    }
    r.ok()
}

fn hostile(rng: &mut Rng, bits: u32) -> i64 {
    let (min, max) = (-(1i128 << (bits - 1)), (1i128 << (bits - 1)) - 1);
    let v = match rng.below(6) {
        0 => max - rng.below(3) as i128,
        1 => min + rng.below(3) as i128,
        2 => (max / 2) + rng.range(-2, 2) as i128,
        3 => (min / 2) + rng.range(-2, 2) as i128,
        _ => rng.log_signed(bits - 1) as i128,
    };
    v.clamp(min, max) as i64
}

fn hostile_op(rng: &mut Rng) -> Op {
    match rng.below(6) {
        0 => Op::Years(hostile(rng, 16) as i16),
        1 => Op::Months(hostile(rng, 32) as i32),
        2 => Op::Days(hostile(rng, 32) as i32),
        3 => Op::Hours(hostile(rng, 32) as i32),
        4 => Op::Minutes(hostile(rng, 64)),
        _ => Op::Seconds(hostile(rng, 64)),
    }
}

fn dates(t: &mut Tally, rng: &mut Rng, env: &Env) {
    let m = gen_m(rng, &env.table);
    let raw = harness::dt::Raw::of(&m);
    let build = || raw.builder(Some(&env.chr)).checked_build().ok();
    let Some(Some(dt)) = timed(t, "date-times built", || format!("building {}", m.show()), build) else {
        t.violation("build", format!("{} cannot be built [{}]", m.show(), env.show()));
        return;
    };
    let odd = harness::dt::Raw {
        y: *rng.pick(&[u16::MAX, 10_000, 9_999, 0, 32_768]),
        mo: *rng.pick(&[u8::MAX, 0, 13, 12, 2]),
        d: *rng.pick(&[u8::MAX, 0, 31, 32]),
        h: *rng.pick(&[u8::MAX, 24, 23]),
        mi: *rng.pick(&[u8::MAX, 60, 59]),
        s: *rng.pick(&[u8::MAX, 60, 61, 59]),
        ms: *rng.pick(&[u16::MAX, 1000, 999]),
        us: *rng.pick(&[u16::MAX, 1000, 999]),
        ns: *rng.pick(&[u16::MAX, 1000, 999]),
        prec: rng.below(9) as u8,
    };
    timed(t, "unusual components given to a builder", || format!("building {odd:?}"), || {
        odd.builder(Some(&env.chr)).checked_build().is_ok()
    });
    for _ in 0..4 {
        let op = if rng.chance(3, 4) {
            hostile_op(rng)
        } else {
            let unit = rng.below(6) as u8;
            gen_op(rng, &env.table, &m, unit)
        };
        t.eval(hash_all(&[m.key(), op.key()]), true);
        let ctx = || describe(env, &m, op);
        let out = timed(t, "checked additions", ctx, || checked(&dt, op).ok().flatten());
        if let Some(Some(Out::Carry(c))) = out {
            timed(t, "carries applied", ctx, || c.checked_apply_carry().is_some());
        }
        if rng.chance(1, 8) {
            timed(t, "unchecked additions", ctx, || unchecked(&dt, op).is_ok());
        }
        t.sample(ctx);
    }
    timed(t, "comparisons and reads", || format!("reading {}", m.show()), || {
        let text = format!("{dt:?}");
        (dt == dt.clone(), dt.year(), dt.month(), dt.day(), dt.hour(), dt.minute(), dt.second(), text.len())
    });
}

fn apply(dt: &DateTime, op: Op) -> bool {
    let dt = std::hint::black_box(dt);
    match std::hint::black_box(op) {
        Op::Years(n) => dt.checked_add_years(n).is_some(),
        Op::Months(n) => dt.checked_add_months(n).is_some(),
        Op::Days(n) => dt.checked_add_days(n).is_some(),
        Op::Hours(n) => dt.checked_add_hours(n).is_some(),
        Op::Minutes(n) => dt.checked_add_minutes(n).is_some(),
        Op::Seconds(n) => dt.checked_add_seconds(n).is_some(),
    }
}

/// Processor time of one of 16 calls in a row.
fn batch(f: &dyn Fn()) -> u64 {
    let before = watch::thread_cpu_ns();
    for _ in 0..16 {
        f();
    }
    (watch::thread_cpu_ns() - before) / 16
}

/// A call may take this many times what the same call takes with small arguments,
const RATIO: u64 = 15;
/// and this much more.
const SLACK_NS: u64 = if cfg!(debug_assertions) { 3_000 } else { 1_500 };

/// The same call with small and with large arguments: the time must not grow.
fn growth(t: &mut Tally, kind: &'static str, ctx: &dyn Fn() -> String, small: &dyn Fn(), large: &dyn Fn()) {
    // Calls that panic are another matter, and timed by themselves.
    if catch(small).is_err() || catch(large).is_err() {
        t.count("pairs not timed: the call panics");
        return;
    }
    t.count(kind);
    let mut base = (0..3).map(|_| batch(small)).min().unwrap();
    let mut cost = batch(large);
    let slow = |base: u64, cost: u64| cost > RATIO * base + SLACK_NS;
    let mut again = 0;
    while slow(base, cost) && again < 100 {
        cost = cost.min(batch(large));
        again += 1;
    }
    if slow(base, cost) {
        // The small call may have been lucky, but not this often.
        for _ in 0..100 {
            base = base.max((0..3).map(|_| batch(small)).min().unwrap());
        }
    }
    if again > 0 {
        t.count("pairs timed again");
    }
    if slow(base, cost) {
        t.violation("growth", format!("{}: takes {cost} ns of processor time at best, and with small arguments {base} ns", ctx()));
    }
}

fn spans(t: &mut Tally, rng: &mut Rng, env: &Env) {
    let m = gen_m(rng, &env.table);
    let mut raw = harness::dt::Raw::of(&m);
    let up = rng.chance(1, 2);
    if raw.prec >= 1 || rng.chance(1, 2) {
        // Near one end of the range, with all of it ahead.
        raw.y = if up { rng.below(60) as u16 } else { 9_999 - rng.below(60) as u16 };
    }
    let Ok(dt) = raw.builder(Some(&env.chr)).checked_build() else {
        t.count("no such date there");
        return;
    };
    let years = if up { 9_998 - raw.y as i64 } else { 1 - raw.y as i64 };
    let years = match rng.below(3) {
        0 => years,
        1 => years - years / 50,
        _ => years.signum() * rng.range(1, years.abs().max(2)),
    };
    let one = if up { 1i64 } else { -1 };
    let (small, large) = match rng.below(6) {
        0 => (Op::Years(one as i16), Op::Years(years as i16)),
        1 => (Op::Months(one as i32), Op::Months((years * 12 + rng.range(-5, 5)) as i32)),
        2 => (Op::Days(one as i32), Op::Days((years * 365 + rng.range(-5, 5)) as i32)),
        3 => (Op::Hours(one as i32), Op::Hours((years * 365 * 24 + rng.range(-5, 5)) as i32)),
        4 => (Op::Minutes(one), Op::Minutes(years * 365 * 1440 + rng.range(-5, 5))),
        _ => (Op::Seconds(one), Op::Seconds(years * 365 * 86_400 + rng.range(-5, 5))),
    };
    t.eval(hash_all(&[m.key(), raw.y as u64, large.key()]), true);
    let ctx = || format!("{large:?} added to {raw:?} [{}]", env.show());
    growth(t, "additions, near and far", &ctx, &|| { apply(&dt, small); }, &|| { apply(&dt, large); });
    if let Ok(Some(far)) = catch(|| match large {
        Op::Months(n) => dt.checked_add_months(n).map(|x| x.drop_carry()),
        _ => dt.checked_add_days((years * 365) as i32).map(|x| x.drop_carry()),
    }) {
        let read = |d: &DateTime| {
            let d = std::hint::black_box(d);
            std::hint::black_box((d.year(), d.month(), d.day(), d.hour(), d.minute(), d.second(), *d == d.clone()));
        };
        let near = harness::dt::Raw { y: 1999, mo: 3, d: 1, h: 0, mi: 0, s: 0, ms: 0, us: 0, ns: 0, prec: 5 };
        let Ok(near_dt) = near.builder(Some(&env.chr)).checked_build() else { return };
        growth(t, "reads, near and far", &|| format!("reading {far:?}"), &|| read(&near_dt), &|| read(&far));
        growth(t, "texts, near and far", &|| format!("printing {far:?}"), &|| { std::hint::black_box(format!("{near_dt:?}")); }, &|| { std::hint::black_box(format!("{far:?}")); });
        let build = |r: &harness::dt::Raw| {
            std::hint::black_box(std::hint::black_box(r).builder(Some(&env.chr)).checked_build().is_ok());
        };
        growth(t, "builds, near and far", &|| format!("building {raw:?}"), &|| build(&near), &|| build(&raw));
    }
}

fn ticks<T: Num, S: Scale, C: Scale>(t: &mut Tally, rng: &mut Rng)
where
    Instant<T, S>: PartialOrd<Instant<T, C>> + TryFrom<SystemTime>,
{
    let inf = info::<T>();
    let (a, b) = (gen_ticks(rng, &inf, S::TICKS_PER_SECOND), gen_ticks(rng, &inf, C::TICKS_PER_SECOND));
    let (x, y) = (T::from_raw(bits(&a)), T::from_raw(bits(&b)));
    let ctx = || {
        format!("{} ticks of 1/{} s and {} ticks of 1/{} s in {}", show(&a), S::TICKS_PER_SECOND, show(&b), C::TICKS_PER_SECOND, T::NAME)
    };
    t.eval(key(&[&a, &b], hash_str(T::NAME)), true);
    let (i, j) = (Instant::<T, S>::from_ticks_since_epoch(x), Instant::<T, C>::from_ticks_since_epoch(y));
    let (d, e): (Duration<T, S>, Duration<T, C>) = (i.duration_since_epoch(), j.duration_since_epoch());
    if rng.chance(1, 8) {
        let i1 = Instant::<T, S1>::from_ticks_since_epoch(T::from_raw(1));
        let d1: Duration<T, S1> = i1.duration_since_epoch();
        use std::hint::black_box as bb;
        growth(t, "instants compared, near and far", &ctx, &|| { bb(bb(&Instant::<i64, S10>::from_ticks_since_epoch(1)) < bb(&Instant::<i64, S2>::from_ticks_since_epoch(2))); }, &|| { bb(bb(&i) < bb(&j)); });
        if S::TICKS_PER_SECOND % C::TICKS_PER_SECOND == 0 {
            growth(t, "instants floored, near and far", &ctx, &|| { bb(bb(&i1).floor::<S1>()); }, &|| { bb(bb(&i).floor::<C>()); });
            growth(t, "instants split, near and far", &ctx, &|| { bb(bb(&i1).split::<S1>()); }, &|| { bb(bb(&i).split::<C>()); });
            growth(t, "instants extended, near and far", &ctx, &|| { bb(bb(&i1).extend::<i128, S1>()); }, &|| { bb(bb(&j).extend::<i128, S>()); });
            growth(t, "durations floored, near and far", &ctx, &|| { bb(bb(&d1).floor::<S1>()); }, &|| { bb(bb(&d).floor::<C>()); });
            growth(t, "durations extended, near and far", &ctx, &|| { bb(bb(&d1).extend::<S1>()); }, &|| { bb(bb(&e).extend::<S>()); });
        }
        growth(t, "instants added, near and far", &ctx, &|| { bb(bb(&i1).checked_add(bb(d1))); }, &|| { bb(bb(&i).checked_add(bb(d))); });
    }
    timed(t, "instants compared", ctx, || (i == j, i < j, i.partial_cmp(&j)));
    timed(t, "instants rescaled", ctx, || (i.floor::<C>(), i.split::<C>().1, j.extend::<i128, S>()));
    timed(t, "instants added", ctx, || (i.checked_add(d), i - i));
    timed(t, "durations divided", ctx, || d.div_rem_floor(e));
    timed(t, "durations divided rounding up", ctx, || d.div_rem_ceil(e));
    timed(t, "durations rescaled", ctx, || (d.floor::<C>(), e.extend::<S>()));
    let secs = hostile(rng, 64);
    let st = if secs >= 0 {
        UNIX_EPOCH.checked_add(std::time::Duration::new(secs as u64, rng.below(1_000_000_000) as u32))
    } else {
        UNIX_EPOCH.checked_sub(std::time::Duration::new(secs.unsigned_abs(), rng.below(1_000_000_000) as u32))
    };
    if let Some(st) = st {
        timed(t, "system times converted", || format!("{st:?} to {} ticks of 1/{} s", T::NAME, S::TICKS_PER_SECOND), || {
            <Instant<T, S> as TryFrom<SystemTime>>::try_from(st).is_ok()
        });
    }
}

fn p01(a: &Args) -> Tally {
    let worlds = make_worlds(a, 4);
    let n = a.n(25_000, 4_000_000);
    shards(worlds, |t, w, shard| {
        let mut rng = Rng::new(&[a.seed, hash_str("P01"), shard]);
        for _ in 0..n {
            let env = w.pick(&mut rng);
            dates(t, &mut rng, env);
            if rng.chance(1, 4) {
                spans(t, &mut rng, env);
            }
            match rng.below(8) {
                0 => ticks::<i8, S10, S2>(t, &mut rng),
                1 => ticks::<u32, S1000, S1>(t, &mut rng),
                2 => ticks::<i64, SNs, S1>(t, &mut rng),
                3 => ticks::<u64, S4G, SNs>(t, &mut rng),
                4 => ticks::<i128, SNs, S1000>(t, &mut rng),
                5 => ticks::<u128, SMAX, S1>(t, &mut rng),
                6 => ticks::<i64, S90K, S44K>(t, &mut rng),
                _ => ticks::<i128, SPRIME, SMAX>(t, &mut rng),
            }
            if t.nviol >= 3 || t.enough() {
                return;
            }
        }
    })
}
