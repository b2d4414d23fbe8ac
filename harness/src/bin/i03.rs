//! Monitor for I03.
#![allow(unused_imports)]

use harness::all_types;
use harness::big::*;
use harness::dt::{make_dirs, use_tzdir, write_tzdir, SYSTEM_TZDIR};
use harness::leap::Table;
use harness::mon::*;
use harness::rng::*;
use harness::ticks::*;
use momentous::{Duration, Instant, InstantOutOfRange, Scale};
use std::cmp::Ordering;
use std::path::Path;
use std::time::{SystemTime, UNIX_EPOCH};

fn main() {
    install_hook();
    run(&Args::parse(), work)
}

pub fn work(a: &Args) -> Tally {
    self_check(&mut Rng::new(&[a.seed]));
    i03(a)
}

type CmpObs = (bool, bool, bool, bool, bool, bool, Option<Ordering>);

#[derive(Clone, Copy)]
struct CmpCase {
    t1: TypeInfo,
    s1: u32,
    t2: TypeInfo,
    s2: u32,
    f: fn(u128, u128) -> Result<CmpObs, Panicked>,
}

fn cmp_obs<T1: Num, S1: Scale, T2: Num, S2: Scale>(a: u128, b: u128) -> Result<CmpObs, Panicked>
where
    Instant<T1, S1>: PartialOrd<Instant<T2, S2>>,
{
    let x = Instant::<T1, S1>::from_ticks_since_epoch(T1::from_raw(a));
    let y = Instant::<T2, S2>::from_ticks_since_epoch(T2::from_raw(b));
    catch_pure(|| (x == y, x != y, x < y, x <= y, x > y, x >= y, x.partial_cmp(&y)))
}

fn cmp_case<T1: Num, S1: Scale, T2: Num, S2: Scale>() -> CmpCase
where
    Instant<T1, S1>: PartialOrd<Instant<T2, S2>>,
{
    CmpCase {
        t1: info::<T1>(),
        s1: S1::TICKS_PER_SECOND,
        t2: info::<T2>(),
        s2: S2::TICKS_PER_SECOND,
        f: cmp_obs::<T1, S1, T2, S2>,
    }
}

fn cmp_cases() -> Vec<CmpCase> {
    let mut v = Vec::new();
    macro_rules! scale_pairs {
        ($v:ident, $t1:ty, $t2:ty, $(($a:ty, $b:ty)),*) => { $( $v.push(cmp_case::<$t1, $a, $t2, $b>()); )* };
    }
    // All type pairs over a core of scale pairs.
    macro_rules! inner {
        ($t2:ident, $t1:ident, $v:ident) => {
            scale_pairs!($v, $t1, $t2, (S1, S1), (S1, S100), (S100, S1), (SNs, S1), (S1, SNs), (S2, S10), (S1M, S1000), (S24, S60), (SMAX, SNs));
        };
    }
    macro_rules! outer {
        ($t1:ident, $v:ident) => { all_types!(inner, $t1, $v); };
    }
    all_types!(outer, v);
    // All scale pairs over a core of type pairs.
    macro_rules! wide {
        ($v:ident, $(($t1:ty, $t2:ty)),*) => { $(
            scale_pairs!($v, $t1, $t2,
                (S1, S2), (S2, S1), (S1, S3), (S3, S1), (S3, SMAX), (SMAX, S3), (S1, SMAX), (SMAX, S1), (S5, SMAX), (SMAX, S5),
                (S1000, SNs), (SNs, S1000), (S1M, SNs), (SNs, S1M), (S1M, S4G), (S4G, S1M), (SNs, S4G), (S4G, SNs),
                (S60, S3), (S3, S60), (S250, S1000), (S1000, S250), (S512, SNs), (SNs, S512), (SMAX, SMAX), (S250M, SNs), (S500M, S250M),
                (S1000, S1M), (S1, S1000), (S1000, S1), (S1, S1M), (S1M, S1), (S10, S1000), (S5, S10),
                (S2, S3), (S3, S5), (S24, S1000), (S1000, S30), (S44K, S48K), (S48K, S44K), (S90K, SNs), (SNs, S90K), (S32K, S1000), (SNs, SMAX),
                (SMAX, SNs), (S4G, SMAX), (SMAX, SPRIME), (SPRIME, SMAX), (S3G, S4G), (S3, S2), (S7, SPRIME), (SPRIME, S60));
        )* };
    }
    wide!(v, (i64, i64), (i128, i128), (i64, u64), (u64, i128), (u128, i128), (i32, i64), (i64, i32), (u32, i32), (i32, u128), (i128, u8), (i8, i128));
    v
}

fn i03(a: &Args) -> Tally {
    let cases = cmp_cases();
    let n = a.n(1_200, 60_000);
    let combos = cases.len() as u64;
    let mut total = shards((0..a.threads).collect(), |t, _w, shard| {
        let mut rng = Rng::new(&[a.seed, hash_str("I03"), shard]);
        for (ci, c) in cases.iter().enumerate() {
            if ci as u64 % a.threads != shard {
                continue;
            }
            let g = gcd(c.s1, c.s2);
            for i in 0..n {
                if i % 64 == 63 && t.enough() {
                    break;
                }
                let x = gen_ticks(&mut rng, &c.t1, c.s1 / g);
                let mut y = gen_ticks(&mut rng, &c.t2, c.s2 / g);
                if i % 2 == 0 {
                    // The tick of the other scale nearest to x, give or take a little.
                    let (q, _) = x.mul(Big::from_u128(c.s2 as u128)).div_floor(Big::from_u128(c.s1 as u128));
                    let near = q.add(big(rng.range(-1, 1) as i128));
                    if c.t2.fits(&near) {
                        y = near;
                        t.count("pairs at or next to the same time");
                    }
                }
                let want = x.mul(Big::from_u128(c.s2 as u128)).cmp(&y.mul(Big::from_u128(c.s1 as u128)));
                let ok = (
                    want == Ordering::Equal,
                    want != Ordering::Equal,
                    want == Ordering::Less,
                    want != Ordering::Greater,
                    want == Ordering::Greater,
                    want != Ordering::Less,
                    Some(want),
                );
                if g != c.s1 && g != c.s2 {
                    t.count("scales that are not multiples of each other");
                }
                if !c.t1.fits(&Big::from_u128((c.s1 / g) as u128)) || !c.t2.fits(&Big::from_u128((c.s2 / g) as u128)) {
                    t.count("scale ratios beyond the tick type");
                }
                t.eval(key(&[&x, &y], ci as u64), c.s1 != c.s2 || c.t1.name != c.t2.name);
                t.count(match want {
                    Ordering::Less => "less",
                    Ordering::Equal => "equal",
                    Ordering::Greater => "greater",
                });
                let ctx = || {
                    format!("{} {} ticks of 1/{} s vs {} {} ticks of 1/{} s", show(&x), c.t1.name, c.s1, show(&y), c.t2.name, c.s2)
                };
                match (c.f)(bits(&x), bits(&y)) {
                    Ok(got) if got == ok => {}
                    Ok(got) => t.violation("comparison", format!("{}: (==,!=,<,<=,>,>=,cmp) = {got:?}, expected {ok:?}", ctx())),
                    Err(p) => t.violation("comparison", format!("{}: panics: {} at {}", ctx(), p.msg, p.loc)),
                }
                t.sample(|| format!("{}: {want:?}", ctx()));
            }
            if t.enough() {
                return;
            }
        }
    });
    total.add("type and scale combinations", combos);
    total
}
