//! Monitor for I05.
#![allow(unused_imports)]

use harness::all_types;
use harness::big::*;
use harness::dt::{make_dirs, use_tzdir, write_tzdir, SYSTEM_TZDIR};
use harness::leap::Table;
use harness::mon::*;
use harness::rng::*;
use harness::ticks::*;
use momentous::{Duration, Instant, InstantOutOfRange, Scale};
use std::cmp::Ordering;
use std::path::Path;
use std::time::{SystemTime, UNIX_EPOCH};

fn main() {
    install_hook();
    run(&Args::parse(), work)
}

pub fn work(a: &Args) -> Tally {
    self_check(&mut Rng::new(&[a.seed]));
    i05(a)
}


#[derive(Clone, Copy)]
struct ArithCase {
    t: TypeInfo,
    f: fn(u128, u128) -> [Result<Option<Big>, Panicked>; 3],
    ends: fn() -> Result<(Big, Big, Big), Panicked>,
}

/// checked_add, +, - of two tick values.
fn arith_obs<T: Num>(a: u128, b: u128) -> [Result<Option<Big>, Panicked>; 3] {
    type S = S1000;
    let (x, y) = (T::from_raw(a), T::from_raw(b));
    let i = Instant::<T, S>::from_ticks_since_epoch(x);
    let j = Instant::<T, S>::from_ticks_since_epoch(y);
    let d = j.duration_since_epoch();
    [
        catch_pure(|| i.checked_add(d).map(|r| r.ticks_since_epoch().big())),
        catch_pure(|| Some((i + d).ticks_since_epoch().big())),
        catch_pure(|| Some(dticks(i - j).big())),
    ]
}

fn ends_obs<T: Num>() -> Result<(Big, Big, Big), Panicked> {
    catch_pure(|| {
        (
            Instant::<T, S3>::min_value().ticks_since_epoch().big(),
            Instant::<T, S3>::max_value().ticks_since_epoch().big(),
            Instant::<T, S3>::epoch().ticks_since_epoch().big(),
        )
    })
}

#[derive(Clone, Copy)]
struct ConvCase {
    t1: TypeInfo,
    t2: TypeInfo,
    /// Instant::try_from, Instant::try_into, Duration::try_from(instant), Duration::try_into
    f: fn(u128) -> [Result<Option<Big>, Panicked>; 4],
}

fn conv_obs<T1: Num + TryInto<T2>, T2: Num>(a: u128) -> [Result<Option<Big>, Panicked>; 4] {
    type S = S1M;
    let i = Instant::<T1, S>::from_ticks_since_epoch(T1::from_raw(a));
    let d = i.duration_since_epoch();
    fn ok<R, T: Num>(r: Result<R, InstantOutOfRange>, f: impl Fn(R) -> T) -> Option<Big> {
        r.ok().map(|v| f(v).big())
    }
    [
        catch_pure(|| ok(Instant::<T2, S>::try_from(i), |v: Instant<T2, S>| v.ticks_since_epoch())),
        catch_pure(|| ok(i.try_into::<T2>(), |v| v.ticks_since_epoch())),
        catch_pure(|| ok(Duration::<T2, S>::try_from(i), |v: Duration<T2, S>| dticks(v))),
        catch_pure(|| ok(d.try_into::<T2>(), |v| dticks(v))),
    ]
}

#[derive(Clone, Copy)]
struct WidenCase {
    t1: TypeInfo,
    to: &'static str,
    f: fn(u128) -> [Result<Big, Panicked>; 2],
}

fn i05(a: &Args) -> Tally {
    let mut ariths: Vec<ArithCase> = Vec::new();
    macro_rules! ar {
        ($t:ident, $v:ident) => { $v.push(ArithCase { t: info::<$t>(), f: arith_obs::<$t>, ends: ends_obs::<$t> }); };
    }
    all_types!(ar, ariths);
    let mut convs: Vec<ConvCase> = Vec::new();
    macro_rules! cv {
        ($t2:ident, $t1:ident, $v:ident) => { $v.push(ConvCase { t1: info::<$t1>(), t2: info::<$t2>(), f: conv_obs::<$t1, $t2> }); };
    }
    macro_rules! cvo {
        ($t1:ident, $v:ident) => { all_types!(cv, $t1, $v); };
    }
    all_types!(cvo, convs);
    let mut widens: Vec<WidenCase> = Vec::new();
    // Infallible conversion (into) and widening, for the pairs that have them.
    macro_rules! into_pairs {
        ($v:ident, $($t1:ty => $($t2:ty),+);*) => { $($(
            $v.push(WidenCase { t1: info::<$t1>(), to: concat!("into ", stringify!($t2)), f: |raw| {
                let i = Instant::<$t1, S60>::from_ticks_since_epoch(<$t1 as Raw>::from_raw(raw));
                [
                    catch_pure(|| { let w: Instant<$t2, S60> = i.into::<$t2>(); w.ticks_since_epoch().big() }),
                    catch_pure(|| { let w: Duration<$t2, S60> = i.duration_since_epoch().into::<$t2>(); dticks(w).big() }),
                ]
            }});
        )+)* };
    }
    into_pairs!(widens,
        u8 => u8, u16, u32, u64, u128, i16, i32, i64, i128;
        u16 => u16, u32, u64, u128, i32, i64, i128;
        u32 => u32, u64, u128, i64, i128;
        u64 => u64, u128, i128; u128 => u128;
        i8 => i8, i16, i32, i64, i128; i16 => i16, i32, i64, i128; i32 => i32, i64, i128; i64 => i64, i128; i128 => i128);
    macro_rules! widen_pairs {
        ($v:ident, $($t1:ty => $($t2:ty),+);*) => { $($(
            $v.push(WidenCase { t1: info::<$t1>(), to: concat!("widened with ", stringify!($t2)), f: |raw| {
                let i = Instant::<$t1, S60>::from_ticks_since_epoch(<$t1 as Raw>::from_raw(raw));
                [
                    catch_pure(|| i.widen::<$t2>().ticks_since_epoch().big()),
                    catch_pure(|| dticks(i.duration_since_epoch().widen::<$t2>()).big()),
                ]
            }});
        )+)* };
    }
    widen_pairs!(widens,
        u8 => u8, u16, u32, u64, u128, i16, i32, i64, i128;
        u16 => u8, u16, u32, u64, u128, i32, i64, i128;
        u32 => u8, u16, u32, u64, u128, i64, i128;
        u64 => u8, u16, u32, u64, u128, i128;
        u128 => u8, u16, u32, u64, u128;
        i8 => i8, i16, i32, i64, i128; i16 => i8, i16, i32, i64, i128; i32 => i8, i16, i32, i64, i128;
        i64 => i8, i16, i32, i64, i128; i128 => i8, i16, i32, i64, i128);
    let n = a.n(60_000, 4_000_000);
    let m = a.n(4_000, 300_000);
    let small_types = a.thorough;
    let combos = (ariths.len() + convs.len() + widens.len()) as u64;
    let mut total = shards((0..a.threads).collect(), |t, _w, shard| {
        let mut rng = Rng::new(&[a.seed, hash_str("I05"), shard]);
        let judge_arith = |t: &mut Tally, c: &ArithCase, x: Big, y: Big| {
            let got = (c.f)(bits(&x), bits(&y));
            let sum = x.add(y);
            let diff = x.sub(y);
            t.eval(key(&[&x, &y], hash_str(c.t.name)), true);
            for (i, (g, want)) in got.iter().zip([sum, sum, diff]).enumerate() {
                let fits = c.t.fits(&want);
                let op = ["checked +", "+", "-"][i];
                t.count(if fits { "exact results" } else { "results that do not fit" });
                let good = match (g, fits) {
                    (Ok(Some(v)), true) => *v == want,
                    (Ok(None), false) => i == 0,
                    (Err(_), false) => i != 0,
                    _ => false,
                };
                if !good {
                    t.violation("arithmetic", format!("{} {op} {} in {}: {g:?}, expected {}", show(&x), show(&y), c.t.name, if fits { show(&want) } else { "a refusal".into() }));
                }
            }
        };
        for (ci, c) in ariths.iter().enumerate() {
            if shard == 0 {
                match (c.ends)() {
                    Ok(e) if e == (c.t.min, c.t.max, Big::zero()) => t.count("minimum, maximum and epoch"),
                    r => t.violation("ends", format!("{}: minimum, maximum, epoch = {r:?}", c.t.name)),
                }
            }
            if c.t.bits == 8 {
                // All pairs.
                for x in 0..256u128 {
                    if x as u64 % a.threads != shard {
                        continue;
                    }
                    for y in 0..256u128 {
                        let conv = |v: u128| if c.t.min.neg { (v as i8).big() } else { (v as u8).big() };
                        judge_arith(t, c, conv(x), conv(y));
                    }
                }
                t.count("exhausted 8-bit type (share of pairs)");
                continue;
            }
            if ci as u64 % a.threads != shard && !small_types {
                continue;
            }
            for i in 0..n {
                if i % 64 == 63 && t.enough() {
                    break;
                }
                let x = gen_ticks(&mut rng, &c.t, 1);
                let mut y = gen_ticks(&mut rng, &c.t, 1);
                if i % 3 == 0 {
                    // Sums and differences right at the ends of the type.
                    let end = if rng.chance(1, 2) { c.t.max } else { c.t.min };
                    let v = if rng.chance(1, 2) { end.sub(x) } else { x.sub(end) }.add(big(rng.range(-1, 1) as i128));
                    if c.t.fits(&v) {
                        y = v;
                    }
                }
                judge_arith(t, c, x, y);
            }
            if t.enough() {
                return;
            }
        }
        for (ci, c) in convs.iter().enumerate() {
            if ci as u64 % a.threads != shard {
                continue;
            }
            let all = c.t1.bits <= 16;
            let count = if all { 1u64 << c.t1.bits } else { m };
            for i in 0..count {
                if i % 64 == 63 && t.enough() {
                    break;
                }
                let x = if all {
                    c.t1.min.add(Big::from_u128(i as u128))
                } else if i % 2 == 0 {
                    let e = if rng.chance(1, 2) { c.t2.max } else { c.t2.min };
                    let v = e.add(big(rng.range(-2, 2) as i128));
                    if c.t1.fits(&v) { v } else { gen_ticks(&mut rng, &c.t1, 1) }
                } else {
                    gen_ticks(&mut rng, &c.t1, 1)
                };
                let fits = c.t2.fits(&x);
                t.count(if fits { "conversions that fit" } else { "conversions that do not fit" });
                t.eval(key(&[&x], 500 + ci as u64), true);
                for (k, g) in (c.f)(bits(&x)).iter().enumerate() {
                    let good = match g {
                        Ok(Some(v)) => fits && *v == x,
                        Ok(None) => !fits,
                        Err(_) => false,
                    };
                    if !good {
                        let how = ["instant try_from", "instant try_into", "duration try_from", "duration try_into"][k];
                        t.violation("conversion", format!("{how} of {} from {} to {}: {g:?}", show(&x), c.t1.name, c.t2.name));
                    }
                }
                t.sample(|| format!("{} from {} to {}: fits {fits}", show(&x), c.t1.name, c.t2.name));
            }
            if t.enough() {
                return;
            }
        }
        for (ci, c) in widens.iter().enumerate() {
            if ci as u64 % a.threads != shard {
                continue;
            }
            for i in 0..m {
                if i % 64 == 63 && t.enough() {
                    break;
                }
                let x = gen_ticks(&mut rng, &c.t1, 1);
                t.count("infallible conversions");
                t.eval(key(&[&x], 5000 + ci as u64), true);
                for (k, g) in (c.f)(bits(&x)).iter().enumerate() {
                    if !matches!(g, Ok(v) if *v == x) {
                        t.violation("conversion", format!("{} {} {} {}: {g:?}", ["instant", "duration"][k], show(&x), c.t1.name, c.to));
                    }
                }
            }
        }
    });
    total.add("type combinations", combos);
    total
}
