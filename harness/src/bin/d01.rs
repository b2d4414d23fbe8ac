//! Monitor for D01.
#![allow(unused_imports)]

use harness::all_types;
use harness::big::*;
use harness::dt::{make_dirs, use_tzdir, write_tzdir, SYSTEM_TZDIR};
use harness::leap::Table;
use harness::mon::*;
use harness::rng::*;
use harness::ticks::*;
use momentous::{Duration, Instant, InstantOutOfRange, Scale};
use std::cmp::Ordering;
use std::path::Path;
use std::time::{SystemTime, UNIX_EPOCH};

fn main() {
    install_hook();
    run(&Args::parse(), work)
}

pub fn work(a: &Args) -> Tally {
    self_check(&mut Rng::new(&[a.seed]));
    d01(a)
}

#[derive(Clone, Copy)]
struct DivCase {
    t: TypeInfo,
    s1: u32,
    s2: u32,
    f: fn(u128, u128) -> [Result<(Big, Big), Panicked>; 2],
}

fn div_obs<T: Num, S1: Scale, S2: Scale>(a: u128, b: u128) -> [Result<(Big, Big), Panicked>; 2] {
    let x = dur::<T, S1>(T::from_raw(a));
    let y = dur::<T, S2>(T::from_raw(b));
    [
        catch_pure(|| {
            let (q, r): (T, Duration<T, S1>) = x.div_rem_floor(y);
            (q.big(), dticks(r).big())
        }),
        catch_pure(|| {
            let (q, r): (T, Duration<T, S1>) = x.div_rem_ceil(y);
            (q.big(), dticks(r).big())
        }),
    ]
}

#[derive(Clone, Copy)]
struct DurScaleCase {
    t: TypeInfo,
    fine: u32,
    coarse: u32,
    down: fn(u128) -> Result<Big, Panicked>,
    up: fn(u128) -> Result<Option<Big>, Panicked>,
}

fn dur_down<T: Num, F: Scale, C: Scale>(raw: u128) -> Result<Big, Panicked> {
    let x = dur::<T, F>(T::from_raw(raw));
    catch_pure(|| dticks(x.floor::<C>()).big())
}

fn dur_up<T: Num, F: Scale, C: Scale>(raw: u128) -> Result<Option<Big>, Panicked> {
    let x = dur::<T, C>(T::from_raw(raw));
    catch_pure(|| x.extend::<F>().map(|d| dticks(d).big()))
}

#[derive(Clone, Copy)]
struct DurArithCase {
    t: TypeInfo,
    f: fn(u128, u128, u8) -> Result<Big, Panicked>,
}

fn dur_arith<T: Num>(a: u128, b: u128, op: u8) -> Result<Big, Panicked> {
    let x = dur::<T, S250>(T::from_raw(a));
    let y = dur::<T, S250>(T::from_raw(b));
    catch_pure(|| match op {
        0 => dticks(x + y).big(),
        1 => dticks(x - y).big(),
        _ => dticks(x * T::from_raw(b)).big(),
    })
}

/// Order and equality of durations of one type and scale, and the duration since the epoch itself.
fn d01(a: &Args) -> Tally {
    let mut divs: Vec<DivCase> = Vec::new();
    let mut scs: Vec<DurScaleCase> = Vec::new();
    let mut ars: Vec<DurArithCase> = Vec::new();
    macro_rules! dv {
        ($v:ident, $t:ty, $(($a:ty, $b:ty)),*) => { $(
            $v.push(DivCase { t: info::<$t>(), s1: <$a>::TICKS_PER_SECOND, s2: <$b>::TICKS_PER_SECOND, f: div_obs::<$t, $a, $b> });
        )* };
    }
    macro_rules! div_for {
        ($t:ident, $v:ident) => {
            dv!($v, $t, (S1, S1), (S2, S1), (S1, S2), (S3, S60), (S60, S3), (S10, S100), (S100, S10), (S1000, S1), (S1, S1000), (S1000, S1000),
                (S1M, S1000), (S1000, S1M), (SNs, S1), (S1, SNs), (SNs, S1000), (SNs, SNs), (S512, SNs), (SNs, S512), (S4G, SNs), (SMAX, S3), (SMAX, SMAX),
                (S3, S2), (S2, S3), (S24, S1000), (S48K, S44K), (S44K, S48K), (SNs, S90K), (S32K, SNs), (SMAX, SPRIME));
        };
    }
    all_types!(div_for, divs);
    macro_rules! sc {
        ($v:ident, $t:ty, $(($f:ty, $c:ty)),*) => { $(
            $v.push(DurScaleCase { t: info::<$t>(), fine: <$f>::TICKS_PER_SECOND, coarse: <$c>::TICKS_PER_SECOND, down: dur_down::<$t, $f, $c>, up: dur_up::<$t, $f, $c> });
        )* };
    }
    macro_rules! sc_for {
        ($t:ident, $v:ident) => {
            sc!($v, $t, (S1, S1), (S2, S1), (S100, S1), (S100, S10), (S10, S2), (S60, S3), (S1000, S1), (S1000, S250), (S1M, S1000), (SNs, S1),
                (SNs, S1000), (SNs, S512), (SNs, S250M), (S4G, SNs), (SMAX, S3), (SMAX, S1));
        };
    }
    all_types!(sc_for, scs);
    macro_rules! ar {
        ($t:ident, $v:ident) => { $v.push(DurArithCase { t: info::<$t>(), f: dur_arith::<$t> }); };
    }
    all_types!(ar, ars);
    let mut odds: Vec<DurScaleCase> = Vec::new();
    macro_rules! odds_for {
        ($t:ident, $v:ident) => {
            sc!($v, $t, (S3, S2), (S5, S2), (S5, S3), (S100, S24), (S100, S60), (S48K, S44K), (SNs, S44K), (SNs, S90K), (S90K, S32K),
                (S4G, S3G), (SMAX, SNs), (SMAX, SPRIME));
        };
    }
    all_types!(odds_for, odds);
    let fits_scale = |t: &TypeInfo, s: u32| t.fits(&Big::from_u128(s as u128));
    let n = a.n(6_000, 400_000);
    let m = a.n(8_000, 400_000);
    let combos = (divs.len() + scs.len() + ars.len()) as u64;
    let mut total = shards((0..a.threads).collect(), |t, _w, shard| {
        let mut rng = Rng::new(&[a.seed, hash_str("D01"), shard]);
        for (ci, c) in divs.iter().enumerate() {
            if ci as u64 % a.threads != shard {
                continue;
            }
            let (s1, s2) = (Big::from_u128(c.s1 as u128), Big::from_u128(c.s2 as u128));
            let ratio = c.s1.max(c.s2) / gcd(c.s1, c.s2);
            // A quotient is due where the common denominator of the scales is within the tick type; elsewhere
            // the division may be refused but not come out wrong.
            let common = Big::from_u128((c.s1 / gcd(c.s1, c.s2)) as u128).mul(s2);
            let wide = fits_scale(&c.t, c.s1) && fits_scale(&c.t, c.s2) && c.t.fits(&common);
            let (mut due, mut beyond) = (0, 0);
            let mut tries = 0;
            while (due < n && wide || beyond < n / 2) && tries < n * 6 {
                tries += 1;
                if tries % 64 == 0 && t.enough() {
                    break;
                }
                let mut y = gen_ticks(&mut rng, &c.t, if c.s2 > c.s1 { ratio } else { 1 });
                if rng.chance(1, 2) {
                    y = big(rng.range(1, 1000) as i128);
                }
                if rng.chance(1, 8) {
                    y = y.neg();
                }
                let mut x = gen_ticks(&mut rng, &c.t, ratio);
                if rng.chance(1, 3) {
                    // Near a multiple of the divisor.
                    let k = big(rng.log_signed(20) as i128);
                    let (v, _) = k.mul(y).mul(s1).div_floor(s2);
                    x = v.add(big(rng.range(-1, 1) as i128));
                }
                if rng.chance(1, 3) {
                    let sh = c.t.bits / 2;
                    x = big(rng.log_signed(sh.min(62)) as i128);
                }
                if rng.chance(1, 16) {
                    // Cross products that just fit, or just do not.
                    let end = if rng.chance(1, 2) { c.t.max } else { c.t.min };
                    x = end.div_floor(s2).0.add(big(rng.range(-1, 1) as i128));
                }
                if !c.t.fits(&y) || !c.t.fits(&x) {
                    continue;
                }
                let ctx = || format!("{} ticks of 1/{} s divided by {} ticks of 1/{} s in {}", show(&x), c.s1, show(&y), c.s2, c.t.name);
                if y.is_zero() {
                    for (how, g) in ["floor", "ceil"].iter().zip((c.f)(bits(&x), bits(&y))) {
                        if let Ok((q, r)) = g {
                            t.violation("division", format!("{} ({how}): gives {} and {} instead of panicking", ctx(), show(&q), show(&r)));
                        }
                    }
                    t.eval(key(&[&x, &y], ci as u64), true);
                    t.count("divisions by zero refused");
                    continue;
                }
                // The domain: cross products (and the ends of the type kept clear of by one divisor, where the quotient or
                // a remainder's complement would not fit) within the tick type.
                let (num, den) = (x.mul(s2), y.mul(s1));
                let size = if y.neg { den.neg() } else { den };
                let room = num.add(if x.neg { size.neg() } else { size });
                let turned = !y.neg || c.t.fits(&room.neg()) && c.t.fits(&size);
                let is_due = wide && c.t.fits(&num) && c.t.fits(&den) && c.t.fits(&room) && turned;
                if is_due && due == n || !is_due && beyond == n / 2 {
                    continue;
                }
                *(if is_due { &mut due } else { &mut beyond }) += 1;
                let (q, r) = if y.neg { num.neg().div_floor(size) } else { num.div_floor(size) };
                let r = if y.neg { r.neg() } else { r };
                let exact = r.is_zero();
                let qc = if exact { q } else { q.add(big(1)) };
                let rc = if exact { r } else { den.sub(r) };
                t.eval(key(&[&x, &y], ci as u64), !exact);
                t.count(if exact { "exact divisions" } else { "divisions with a remainder" });
                if x.neg {
                    t.count("negative dividends");
                }
                if y.neg {
                    t.count("negative divisors");
                }
                let got = (c.f)(bits(&x), bits(&y));
                for (k, (g, (wq, wr))) in got.iter().zip([(q, r), (qc, rc)]).enumerate() {
                    let how = ["floor", "ceil"][k];
                    match g {
                        Ok((gq, gr)) => {
                            if *gq != wq {
                                t.violation("division", format!("{} ({how}): quotient {}, expected {}", ctx(), show(gq), show(&wq)));
                            }
                            // The remainder in ticks of the dividend's scale, where it is a whole number.
                            if c.s1 % c.s2 == 0 {
                                let (ticks, frac) = wr.div_floor(s2);
                                assert!(frac.is_zero());
                                if *gr != ticks {
                                    t.violation("division", format!("{} ({how}): remainder {}, expected {}", ctx(), show(gr), show(&ticks)));
                                }
                                t.count("remainders compared");
                            }
                            if !is_due {
                                t.count("divisions beyond the domain that came out right");
                            }
                        }
                        Err(_) if !is_due => t.count("divisions beyond the domain refused"),
                        Err(p) => t.violation("division", format!("{} ({how}): panics: {} at {}", ctx(), p.msg, p.loc)),
                    }
                }
                t.sample(|| format!("{}: {} / {}", ctx(), show(&q), show(&qc)));
            }
            if t.enough() {
                return;
            }
        }
        for (ci, c) in scs.iter().enumerate() {
            if ci as u64 % a.threads != shard {
                continue;
            }
            let ratio = c.fine / c.coarse;
            let f = Big::from_u128(ratio as u128);
            for i in 0..m {
                if i % 64 == 63 && t.enough() {
                    break;
                }
                let mut x = gen_ticks(&mut rng, &c.t, ratio);
                let ctx = |x: &Big| format!("{} {} ticks, 1/{} s and 1/{} s", show(x), c.t.name, c.fine, c.coarse);
                let q = x.div_floor(f).0;
                t.eval(key(&[&x], 10_000 + ci as u64), ratio > 1);
                t.count("durations floored");
                match (c.down)(bits(&x)) {
                    Ok(g) if g == q => {}
                    r => t.violation("floor", format!("{}: floor gives {r:?}, expected {}", ctx(&x), show(&q))),
                }
                if i % 2 == 0 {
                    let edge = if rng.chance(1, 2) { c.t.max } else { c.t.min };
                    let v = edge.div_floor(f).0.add(big(rng.range(-1, 2) as i128));
                    if c.t.fits(&v) {
                        x = v;
                    }
                }
                let e = x.mul(f);
                let want = if c.t.fits(&e) { Some(e) } else { None };
                t.count(if want.is_some() { "durations extended" } else { "duration extensions refused" });
                match (c.up)(bits(&x)) {
                    Ok(g) if g == want => {}
                    r => t.violation("extend", format!("{}: extend gives {r:?}, expected {want:?}", ctx(&x))),
                }
            }
        }
        for (ci, c) in ars.iter().enumerate() {
            if ci as u64 % a.threads != shard && !a.thorough {
                continue;
            }
            for i in 0..m * 4 {
                if i % 64 == 63 && t.enough() {
                    break;
                }
                let x = gen_ticks(&mut rng, &c.t, 1);
                let mut y = gen_ticks(&mut rng, &c.t, 1);
                let op = (i % 3) as u8;
                if rng.chance(1, 2) {
                    let end = if rng.chance(1, 2) { c.t.max } else { c.t.min };
                    let v = match op {
                        0 => end.sub(x),
                        1 => x.sub(end),
                        _ if !x.is_zero() && !x.neg => end.div_floor(x).0,
                        _ => y,
                    };
                    if c.t.fits(&v) {
                        y = v;
                    }
                }
                let want = match op {
                    0 => x.add(y),
                    1 => x.sub(y),
                    _ => x.mul(y),
                };
                t.eval(key(&[&x, &y], 20_000 + ci as u64 * 3 + op as u64), true);
                t.count(["sums", "differences", "multiples"][op as usize]);
                let sign = ["+", "-", "*"][op as usize];
                match ((c.f)(bits(&x), bits(&y), op), c.t.fits(&want)) {
                    (Ok(g), true) if g == want => {}
                    (Err(_), false) => t.count("results that do not fit, refused"),
                    (r, true) => t.violation("arithmetic", format!("{} {sign} {} in {}: {r:?}, expected {}", show(&x), show(&y), c.t.name, show(&want))),
                    (r, false) => t.violation("arithmetic", format!("{} {sign} {} in {}: {r:?}, expected a panic", show(&x), show(&y), c.t.name)),
                }
            }
        }
    });
    // Between scales that are not multiples of each other: refused, or right, but never wrong.
    let mut rng = Rng::new(&[a.seed, hash_str("D01 odd")]);
    for (ci, c) in odds.iter().enumerate() {
        let (fine, coarse) = (Big::from_u128(c.fine as u128), Big::from_u128(c.coarse as u128));
        for i in 0..a.n(30, 1_000) {
            let x = gen_ticks(&mut rng, &c.t, if i % 2 == 0 { c.fine / gcd(c.fine, c.coarse) } else { c.coarse });
            total.eval(key(&[&x], 40_000 + ci as u64), true);
            let q = x.mul(coarse).div_floor(fine).0;
            let (e, rest) = x.mul(fine).div_floor(coarse);
            let checks = [
                ("floor", (c.down)(bits(&x)).ok().map(|g| (g, g == q))),
                ("extend", (c.up)(bits(&x)).ok().flatten().map(|g| (g, rest.is_zero() && g == e))),
            ];
            for (how, got) in checks {
                total.count(match got {
                    None => "rescalings between unrelated scales refused",
                    Some(_) => "rescalings between unrelated scales done",
                });
                if let Some((g, false)) = got {
                    total.violation(
                        "unrelated scales",
                        format!("{} {} ticks, 1/{} s and 1/{} s: {how} gives {} instead of refusing", show(&x), c.t.name, c.fine, c.coarse, show(&g)),
                    );
                }
            }
        }
    }
    total.add("type and scale combinations", combos);
    total
}
