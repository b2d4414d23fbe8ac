//! Monitor for I04.
#![allow(unused_imports)]

use harness::all_types;
use harness::big::*;
use harness::dt::{make_dirs, use_tzdir, write_tzdir, SYSTEM_TZDIR};
use harness::leap::Table;
use harness::mon::*;
use harness::rng::*;
use harness::ticks::*;
use momentous::{Duration, Instant, InstantOutOfRange, Scale};
use std::cmp::Ordering;
use std::path::Path;
use std::time::{SystemTime, UNIX_EPOCH};

fn main() {
    install_hook();
    run(&Args::parse(), work)
}

pub fn work(a: &Args) -> Tally {
    self_check(&mut Rng::new(&[a.seed]));
    i04(a)
}

#[derive(Clone, Copy)]
struct RescaleCase {
    t: TypeInfo,
    fine: u32,
    coarse: u32,
    down: fn(u128) -> (Result<(Big, Big), Panicked>, Result<(Big, Big), Panicked>),
}

/// Observed: ticks of floor and of extending that back; ticks of the split instant and of the split remainder.
fn down<T: Num, F: Scale, C: Scale>(raw: u128) -> (Result<(Big, Big), Panicked>, Result<(Big, Big), Panicked>) {
    let x = Instant::<T, F>::from_ticks_since_epoch(T::from_raw(raw));
    let floor = catch_pure(|| {
        let f: Instant<T, C> = x.floor::<C>();
        let back = f.extend::<i128, F>().map_or(Big::zero(), |b| b.ticks_since_epoch().big());
        (f.ticks_since_epoch().big(), back)
    });
    let split = catch_pure(|| {
        let (s, r): (Instant<T, C>, Duration<T, F>) = x.split::<C>();
        let r = (Instant::<T, F>::epoch() + r).ticks_since_epoch();
        (s.ticks_since_epoch().big(), r.big())
    });
    // What is left of the instant itself.
    assert!(x.ticks_since_epoch() == T::from_raw(raw));
    (floor, split)
}

#[derive(Clone, Copy)]
struct ExtendCase {
    t1: TypeInfo,
    t2: TypeInfo,
    coarse: u32,
    fine: u32,
    up: fn(u128) -> Result<Option<(Big, Big, bool)>, Panicked>,
}

/// Observed: ticks of the extended instant, and flooring that back (in the wider type).
fn up<T1: Num, C: Scale, T2: Num, F: Scale>(raw: u128) -> Result<Option<(Big, Big, bool)>, Panicked>
where
    Instant<T1, C>: PartialEq<Instant<T2, F>>,
{
    let x = Instant::<T1, C>::from_ticks_since_epoch(T1::from_raw(raw));
    catch_pure(|| {
        x.extend::<T2, F>().map(|e| {
            let back: Instant<T2, C> = e.floor::<C>();
            (e.ticks_since_epoch().big(), back.ticks_since_epoch().big(), x == e)
        })
    })
}

/// What rescaling gives between scales that are not multiples of each other, None where it is refused: ticks of
/// floor, of the split instant and remainder, and of extending the other way.
type Odd = (Option<Big>, Option<(Big, Big)>, Option<Big>);

fn odd<T: Num, F: Scale, C: Scale>(raw: u128) -> Odd {
    let x = Instant::<T, F>::from_ticks_since_epoch(T::from_raw(raw));
    let y = Instant::<T, C>::from_ticks_since_epoch(T::from_raw(raw));
    (
        catch_pure(|| x.floor::<C>().ticks_since_epoch().big()).ok(),
        catch_pure(|| {
            let (s, r) = x.split::<C>();
            (s.ticks_since_epoch().big(), dticks(r).big())
        })
        .ok(),
        catch_pure(|| y.extend::<i128, F>().map(|e| e.ticks_since_epoch().big())).ok().flatten(),
    )
}

#[derive(Clone, Copy)]
struct OddCase {
    t: TypeInfo,
    fine: u32,
    coarse: u32,
    f: fn(u128) -> Odd,
}

fn i04(a: &Args) -> Tally {
    let mut downs: Vec<RescaleCase> = Vec::new();
    let mut ups: Vec<ExtendCase> = Vec::new();
    macro_rules! down_pairs {
        ($v:ident, $t:ty, $(($f:ty, $c:ty)),*) => { $(
            $v.push(RescaleCase { t: info::<$t>(), fine: <$f>::TICKS_PER_SECOND, coarse: <$c>::TICKS_PER_SECOND, down: down::<$t, $f, $c> });
        )* };
    }
    macro_rules! downs_for {
        ($t:ident, $v:ident) => {
            down_pairs!($v, $t, (S1, S1), (S2, S1), (S3, S1), (S100, S1), (S100, S10), (S10, S2), (S60, S3), (S250, S250), (S1000, S1),
                (S1000, S250), (S1M, S1000), (SNs, S1), (SNs, S1000), (SNs, S1M), (SNs, S512), (SNs, S250M), (S4G, SNs), (SMAX, S3),
                (SMAX, S1), (SMAX, SMAX));
        };
    }
    all_types!(downs_for, downs);
    macro_rules! up_pairs {
        ($v:ident, $t1:ty, $t2:ty, $(($c:ty, $f:ty)),*) => { $(
            $v.push(ExtendCase { t1: info::<$t1>(), t2: info::<$t2>(), coarse: <$c>::TICKS_PER_SECOND, fine: <$f>::TICKS_PER_SECOND, up: up::<$t1, $c, $t2, $f> });
        )* };
    }
    macro_rules! up_inner {
        ($t2:ident, $t1:ident, $v:ident) => {
            up_pairs!($v, $t1, $t2, (S1, S1), (S1, S100), (S2, S10), (S1000, S1M), (S1, SNs), (S3, SMAX));
        };
    }
    macro_rules! up_outer {
        ($t1:ident, $v:ident) => { all_types!(up_inner, $t1, $v); };
    }
    all_types!(up_outer, ups);
    let mut odds: Vec<OddCase> = Vec::new();
    macro_rules! odd_pairs {
        ($v:ident, $t:ty, $(($f:ty, $c:ty)),*) => { $(
            $v.push(OddCase { t: info::<$t>(), fine: <$f>::TICKS_PER_SECOND, coarse: <$c>::TICKS_PER_SECOND, f: odd::<$t, $f, $c> });
        )* };
    }
    macro_rules! odds_for {
        ($t:ident, $v:ident) => {
            odd_pairs!($v, $t, (S3, S2), (S5, S2), (S5, S3), (S100, S24), (S100, S60), (S48K, S44K), (SNs, S44K), (SNs, S90K), (S90K, S32K),
                (S4G, S3G), (SMAX, SNs), (SMAX, SPRIME));
        };
    }
    all_types!(odds_for, odds);
    let n = a.n(20_000, 1_000_000);
    let m = a.n(5_000, 300_000);
    let combos = (downs.len() + ups.len()) as u64;
    let i128_info = info::<i128>();
    let mut total = shards((0..a.threads).collect(), |t, _w, shard| {
        let mut rng = Rng::new(&[a.seed, hash_str("I04"), shard]);
        for (ci, c) in downs.iter().enumerate() {
            if ci as u64 % a.threads != shard {
                continue;
            }
            let ratio = c.fine / c.coarse;
            let f = Big::from_u128(ratio as u128);
            for i in 0..n {
                if i % 64 == 63 && t.enough() {
                    break;
                }
                let x = gen_ticks(&mut rng, &c.t, ratio);
                let (q, r) = x.div_floor(f);
                t.eval(key(&[&x], ci as u64), ratio > 1);
                if x.neg {
                    t.count("split before the epoch");
                }
                if !r.is_zero() {
                    t.count("split with a remainder");
                }
                let ctx = || format!("{} {} ticks of 1/{} s to 1/{} s", show(&x), c.t.name, c.fine, c.coarse);
                // The floored instant extended back into i128, when that can hold it.
                let back = q.mul(f);
                let back = if i128_info.fits(&back) && i128_info.fits(&q) { back } else { Big::zero() };
                let (floor, split) = (c.down)(bits(&x));
                match floor {
                    Ok(got) => {
                        if got.0 != q {
                            t.violation("floor", format!("{}: floor gives {}, expected {}", ctx(), show(&got.0), show(&q)));
                        } else if got.1 != back {
                            t.violation("extend", format!("{}: floor extended back gives {}, expected {}", ctx(), show(&got.1), show(&back)));
                        }
                    }
                    Err(p) => t.violation("floor", format!("{}: panics: {} at {}", ctx(), p.msg, p.loc)),
                }
                match (split, c.t.fits(&r)) {
                    (Ok(got), true) if got == (q, r) => {}
                    (Err(_), false) => t.count("splits refused for want of room for the remainder"),
                    (Err(p), true) => t.violation("split", format!("{}: split panics: {} at {}", ctx(), p.msg, p.loc)),
                    (Ok(got), _) => t.violation("split", format!("{}: split gives {} and {}, expected {} and {}", ctx(), show(&got.0), show(&got.1), show(&q), show(&r))),
                }
                t.sample(|| format!("{}: {} rest {}", ctx(), show(&q), show(&r)));
            }
            if t.enough() {
                return;
            }
        }
        for (ci, c) in ups.iter().enumerate() {
            if ci as u64 % a.threads != shard {
                continue;
            }
            let ratio = c.fine / c.coarse;
            let f = Big::from_u128(ratio as u128);
            for i in 0..m {
                if i % 64 == 63 && t.enough() {
                    break;
                }
                let mut x = gen_ticks(&mut rng, &c.t1, 1);
                if i % 2 == 0 {
                    // At the edge of what the target can hold.
                    let edge = if rng.chance(1, 2) { c.t2.max } else { c.t2.min };
                    let v = edge.div_floor(f).0.add(big(rng.range(-1, 2) as i128));
                    if c.t1.fits(&v) {
                        x = v;
                        t.count("extended at the edge of the target type");
                    }
                }
                let e = x.mul(f);
                let want = c.t2.fits(&x) && c.t2.fits(&e);
                t.count(if want { "extended exactly" } else { "extension refused" });
                t.eval(key(&[&x], 1_000_000 + ci as u64), true);
                let ctx = || format!("{} {} ticks of 1/{} s extended to {} ticks of 1/{} s", show(&x), c.t1.name, c.coarse, c.t2.name, c.fine);
                match ((c.up)(bits(&x)), want) {
                    (Ok(None), false) => {}
                    (Ok(Some(got)), true) if got == (e, x, true) => {}
                    (Ok(got), _) => t.violation(
                        "extend",
                        format!("{}: gives {:?}, expected {}", ctx(), got.map(|g| (show(&g.0), show(&g.1), g.2)), if want { show(&e) } else { "none".into() }),
                    ),
                    (Err(p), _) => t.violation("extend", format!("{}: panics: {} at {}", ctx(), p.msg, p.loc)),
                }
            }
            if t.enough() {
                return;
            }
        }
    });
    // Between scales that are not multiples of each other: refused, or right, but never wrong.
    let mut rng = Rng::new(&[a.seed, hash_str("I04 odd")]);
    for (ci, c) in odds.iter().enumerate() {
        let (fine, coarse) = (Big::from_u128(c.fine as u128), Big::from_u128(c.coarse as u128));
        for i in 0..a.n(30, 1_000) {
            let x = gen_ticks(&mut rng, &c.t, if i % 2 == 0 { c.fine / gcd(c.fine, c.coarse) } else { c.coarse });
            total.eval(key(&[&x], 2_000_000 + ci as u64), true);
            let got = (c.f)(bits(&x));
            let q = x.mul(coarse).div_floor(fine).0;
            let (e, rest) = x.mul(fine).div_floor(coarse);
            let checks = [
                ("floor", got.0.map(|g| g == q)),
                ("split", got.1.map(|(g, r)| g == q && g.mul(fine).add(r.mul(coarse)) == x.mul(coarse))),
                ("extend", got.2.map(|g| rest.is_zero() && g == e)),
            ];
            for (how, right) in checks {
                total.count(match right {
                    None => "rescalings between unrelated scales refused",
                    Some(_) => "rescalings between unrelated scales done",
                });
                if right == Some(false) {
                    total.violation(
                        "unrelated scales",
                        format!("{} {} ticks, 1/{} s and 1/{} s: {how} gives a wrong result instead of refusing ({got:?})", show(&x), c.t.name, c.fine, c.coarse),
                    );
                }
            }
        }
    }
    total.add("type and scale combinations", combos);
    total
}
