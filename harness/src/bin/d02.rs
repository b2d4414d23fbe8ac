//! Monitors for durations and instants as values: D02 (order, equality, hashing, copying) and T02 (debug text).

use harness::all_types;
use harness::big::*;
use harness::mon::*;
use harness::rng::*;
use harness::ticks::*;
use momentous::{Duration, Instant, Scale};
use std::cmp::Ordering;
use std::collections::{BTreeSet, HashMap, HashSet};
use std::hash::{BuildHasher, Hash, RandomState};

fn main() {
    install_hook();
    run(&Args::parse(), work)
}

pub fn work(a: &Args) -> Tally {
    self_check(&mut Rng::new(&[a.seed]));
    match a.prop.as_str() {
        "D02" => d02(a),
        "T02" => t02(a),
        p => panic!("unknown property {p}"),
    }
}

/// Everything seen of a pair: the three-way orders, the operators, and whether the hashes of equal values agree.
#[derive(Debug, PartialEq)]
struct Seen {
    cmp: Ordering,
    partial: Option<Ordering>,
    back: Ordering,
    ops: [bool; 6],
    max: Big,
    min: Big,
    clamped: bool,
    assigned: [bool; 2],
    instant: Option<Ordering>,
    instant_eq: bool,
}

#[derive(Clone, Copy)]
struct Case {
    t: TypeInfo,
    s: u32,
    pair: fn(u128, u128, &RandomState) -> Result<(Seen, bool, bool), Panicked>,
    many: fn(&[u128]) -> Result<(Vec<Big>, usize), Panicked>,
    copies: fn(u128, &RandomState) -> Result<[bool; 7], Panicked>,
}

fn pair<T: Num, S: Scale + Ord + Hash + Copy>(a: u128, b: u128, h: &RandomState) -> Result<(Seen, bool, bool), Panicked>
where
    Instant<T, S>: PartialOrd,
{
    let (ta, tb) = (T::from_raw(a), T::from_raw(b));
    catch_pure(|| {
        let (x, y): (Duration<T, S>, Duration<T, S>) = (dur(ta), dur(tb));
        let (i, j) = (Instant::<T, S>::from_ticks_since_epoch(ta), Instant::<T, S>::from_ticks_since_epoch(tb));
        let seen = Seen {
            cmp: x.cmp(&y),
            partial: x.partial_cmp(&y),
            back: y.cmp(&x),
            ops: [x == y, x != y, x < y, x <= y, x > y, x >= y],
            max: dticks(x.max(y)).big(),
            min: dticks(x.min(y)).big(),
            clamped: x.clamp(x.min(y), x.max(y)) == x && y.clamp(x, x) == x && x.clamp(y, y) == y,
            assigned: {
                let (mut z, mut k) = (y, j);
                z.clone_from(&x);
                k.clone_from(&i);
                [z == x && at(h, &z) == at(h, &x), k == i && at(h, &k) == at(h, &i)]
            },
            instant: i.partial_cmp(&j),
            instant_eq: i == j,
        };
        let (bx, by, bi, bj) = (Box::new(x), Box::new(y), Box::new(i), Box::new(j));
        (seen, at(h, &bx) == at(h, &by), at(h, &bi) == at(h, &bj))
    })
}

/// The hash of a value where it stands, so that copies at different places are compared.
#[inline(never)]
fn at<V: Hash + ?Sized>(h: &RandomState, v: &V) -> u64 {
    h.hash_one(std::hint::black_box(v))
}

fn many<T: Num, S: Scale + Ord + Hash + Copy>(raw: &[u128]) -> Result<(Vec<Big>, usize), Panicked> {
    catch_pure(|| {
        let ds: Vec<Duration<T, S>> = raw.iter().map(|&r| dur(T::from_raw(r))).collect();
        let sorted: BTreeSet<Duration<T, S>> = ds.iter().copied().collect();
        let set: HashSet<Duration<T, S>> = ds.iter().copied().collect();
        let mut v = ds.clone();
        v.sort();
        v.dedup();
        let found = v.iter().filter(|d| sorted.contains(d) && set.contains(d)).count();
        (sorted.into_iter().map(|d| dticks(d).big()).collect(), set.len().min(found).min(v.len()))
    })
}

/// A value, its copy, the same value reached by another way: equal and hashed alike; the ends bound it.
fn copies<T: Num, S: Scale + Ord + Hash + Copy>(a: u128, h: &RandomState) -> Result<[bool; 7], Panicked> {
    let ta = T::from_raw(a);
    catch_pure(|| {
        let i = Instant::<T, S>::from_ticks_since_epoch(ta);
        let d = i.duration_since_epoch();
        let moved = Instant::<T, S>::epoch() + d;
        let (c, e) = (i, d.clone());
        let (places, lengths) = (vec![i, c, moved], vec![d, e.clone(), moved.duration_since_epoch()]);
        [
            at(h, &places[1]) == at(h, &places[0]) && at(h, &places[2]) == at(h, &places[0]) && h.hash_one(c) == at(h, &i),
            at(h, &lengths[1]) == at(h, &lengths[0]) && at(h, &lengths[2]) == at(h, &lengths[0]) && h.hash_one(e) == at(h, &d),
            e == d && moved.duration_since_epoch() == d && (moved - Instant::epoch()) == d,
            moved.ticks_since_epoch() == ta && c.ticks_since_epoch() == ta,
            Instant::<T, S>::min_value().duration_since_epoch() <= d && d <= Instant::<T, S>::max_value().duration_since_epoch(),
            d.cmp(&e) == Ordering::Equal,
            // As parts of something larger.
            at(h, &lengths[..2]) == at(h, &lengths[1..]) && at(h, &places[..2]) == at(h, &places[1..])
                && at(h, &(d, i)) == at(h, &(lengths[2], moved)) && at(h, &[d; 3]) == at(h, &[e, lengths[2], d]),
        ]
    })
}

fn d02(a: &Args) -> Tally {
    let mut cases: Vec<Case> = Vec::new();
    macro_rules! scales {
        ($v:ident, $t:ty, $($s:ty),*) => { $(
            $v.push(Case { t: info::<$t>(), s: <$s>::TICKS_PER_SECOND, pair: pair::<$t, $s>, many: many::<$t, $s>, copies: copies::<$t, $s> });
        )* };
    }
    macro_rules! types {
        ($t:ident, $v:ident) => { scales!($v, $t, S1, S60, S1000, SNs, SMAX); };
    }
    all_types!(types, cases);
    let n = a.n(30_000, 3_000_000);
    let combos = cases.len() as u64;
    let mut total = shards((0..a.threads).collect(), |t, _w, shard| {
        let mut rng = Rng::new(&[a.seed, hash_str("D02"), shard]);
        let hasher = RandomState::new();
        for (ci, c) in cases.iter().enumerate() {
            if ci as u64 % a.threads != shard {
                continue;
            }
            for i in 0..n {
                if i % 64 == 63 && t.enough() {
                    break;
                }
                let x = gen_ticks(&mut rng, &c.t, c.s);
                let mut y = gen_ticks(&mut rng, &c.t, c.s);
                match rng.below(4) {
                    0 => y = x,
                    1 => {
                        let v = x.add(big(rng.range(-2, 2) as i128));
                        if c.t.fits(&v) {
                            y = v;
                        }
                    }
                    2 => {
                        // The same low or high part.
                        let v = x.add(Big::from_u128(1u128 << *rng.pick(&[8u32, 16, 31, 32, 33, 63, 64, 96])));
                        if c.t.fits(&v) {
                            y = v;
                        }
                    }
                    _ => {}
                }
                let want = x.cmp(&y);
                t.eval(key(&[&x, &y], ci as u64), true);
                t.count(match want {
                    Ordering::Less => "less",
                    Ordering::Equal => "equal",
                    Ordering::Greater => "greater",
                });
                let expected = Seen {
                    cmp: want,
                    partial: Some(want),
                    back: want.reverse(),
                    ops: [
                        want == Ordering::Equal,
                        want != Ordering::Equal,
                        want == Ordering::Less,
                        want != Ordering::Greater,
                        want == Ordering::Greater,
                        want != Ordering::Less,
                    ],
                    max: if want == Ordering::Less { y } else { x },
                    min: if want == Ordering::Greater { y } else { x },
                    clamped: true,
                    assigned: [true; 2],
                    instant: Some(want),
                    instant_eq: want == Ordering::Equal,
                };
                let ctx = || format!("durations of {} and {} ticks of 1/{} s in {}", show(&x), show(&y), c.s, c.t.name);
                match (c.pair)(bits(&x), bits(&y), &hasher) {
                    Ok((seen, hd, hi)) => {
                        if seen != expected {
                            t.violation("order", format!("{}: {seen:?}, expected {expected:?}", ctx()));
                        }
                        if want == Ordering::Equal && !(hd && hi) {
                            t.violation("hash", format!("{}: equal values hash differently (durations alike: {hd}, instants alike: {hi})", ctx()));
                        }
                        if want != Ordering::Equal {
                            t.count(if hd || hi { "different values with one hash" } else { "different values with different hashes" });
                        }
                    }
                    Err(p) => t.violation("order", format!("{}: panics: {} at {}", ctx(), p.msg, p.loc)),
                }
                match (c.copies)(bits(&x), &hasher) {
                    Ok(got) if got == [true; 7] => t.count("copies compared and hashed"),
                    Ok(got) => t.violation(
                        "copy",
                        format!("{}: (instant hash, duration hash, equality, ticks, ends, order, hash of slices and tuples) of copies agree: {got:?}", ctx()),
                    ),
                    Err(p) => t.violation("copy", format!("{}: panics: {} at {}", ctx(), p.msg, p.loc)),
                }
                t.sample(|| format!("{}: {want:?}", ctx()));
                if i % 50 == 0 {
                    let mut vals: Vec<Big> = (0..40).map(|_| gen_ticks(&mut rng, &c.t, c.s)).collect();
                    vals.extend([x, y, x]);
                    let raw: Vec<u128> = vals.iter().map(bits).collect();
                    vals.sort_by(|a, b| a.cmp(b));
                    vals.dedup();
                    match (c.many)(&raw) {
                        Ok((sorted, len)) if sorted == vals && len == vals.len() => t.count("collections sorted and hashed"),
                        Ok((sorted, len)) => t.violation(
                            "collections",
                            format!(
                                "{} ticks of 1/{} s: sorted set {:?}, hash set of {len}, expected {:?}",
                                c.t.name,
                                c.s,
                                sorted.iter().map(show).collect::<Vec<_>>(),
                                vals.iter().map(show).collect::<Vec<_>>()
                            ),
                        ),
                        Err(p) => t.violation("collections", format!("{} panics: {} at {}", ctx(), p.msg, p.loc)),
                    }
                }
            }
            if t.enough() {
                return;
            }
        }
    });
    total.add("type and scale combinations", combos);
    total
}

// ---------------------------------------------------------------------------------------------------------
// T02
// ---------------------------------------------------------------------------------------------------------

/// The texts of an instant and of its duration since the epoch, plain and spread over lines; and those of copies.
type Texts = ([String; 4], [String; 4]);

#[derive(Clone, Copy)]
struct TextCase {
    t: TypeInfo,
    s: u32,
    texts: fn(u128) -> Result<Texts, Panicked>,
}

fn texts<T: Num + std::fmt::Debug, S: Scale + Copy + std::fmt::Debug>(a: u128) -> Result<Texts, Panicked> {
    let ta = T::from_raw(a);
    catch_pure(|| {
        let i = Instant::<T, S>::from_ticks_since_epoch(ta);
        let d = i.duration_since_epoch();
        let moved = Instant::<T, S>::epoch() + d;
        let e = moved - Instant::epoch();
        (
            [format!("{i:?}"), format!("{i:#?}"), format!("{d:?}"), format!("{d:#?}")],
            [format!("{moved:?}"), format!("{moved:#?}"), format!("{e:?}"), format!("{e:#?}")],
        )
    })
}

fn t02(a: &Args) -> Tally {
    let mut cases: Vec<TextCase> = Vec::new();
    macro_rules! scales {
        ($v:ident, $t:ty, $($s:ty),*) => { $(
            $v.push(TextCase { t: info::<$t>(), s: <$s>::TICKS_PER_SECOND, texts: texts::<$t, $s> });
        )* };
    }
    macro_rules! types {
        ($t:ident, $v:ident) => { scales!($v, $t, S1, S60, S1000, SNs, SMAX); };
    }
    all_types!(types, cases);
    let n = a.n(2_000, 60_000);
    let combos = cases.len() as u64;
    let mut total = shards((0..a.threads).collect(), |t, _w, shard| {
        let mut rng = Rng::new(&[a.seed, hash_str("T02"), shard]);
        for (ci, c) in cases.iter().enumerate() {
            if ci as u64 % a.threads != shard {
                continue;
            }
            for _ in 0..n {
                if t.enough() {
                    return;
                }
                // Values that a sloppy text could mix up: shifted decimals, signs, the same fraction or whole part.
                let x = gen_ticks(&mut rng, &c.t, c.s);
                let per = big(c.s as i128);
                let whole = big(rng.range(-3, 3) as i128).mul(per);
                let digit = rng.range(1, 9) as i128;
                let mut vals: Vec<Big> = vec![x, x.neg(), x.add(per), x.add(per.neg())];
                for j in 0..12 {
                    vals.push(whole.add(big(digit * 10i128.pow(j))));
                    vals.push(whole.add(big(-digit * 10i128.pow(j))));
                }
                for p in [8u32, 16, 24, 31, 32, 53, 63, 64, 100, 127] {
                    vals.push(x.add(Big::from_u128(1u128 << p)));
                    vals.push(x.add(Big::from_u128(1u128 << p).neg()));
                }
                for k in -3..=3 {
                    vals.push(x.add(big(k)));
                }
                vals.retain(|v| c.t.fits(v));
                vals.sort_by(|a, b| a.cmp(b));
                vals.dedup();
                let mut seen: [HashMap<String, Big>; 4] = Default::default();
                for v in &vals {
                    let ctx = || format!("{} ticks of 1/{} s in {}", show(v), c.s, c.t.name);
                    t.eval(key(&[v], ci as u64), true);
                    match (c.texts)(bits(v)) {
                        Ok((here, there)) => {
                            t.count("values printed");
                            if here != there {
                                t.violation("text", format!("{} prints as {here:?} and as {there:?}", ctx()));
                            }
                            t.sample(|| format!("{} prints as {} and {}", ctx(), here[0], here[2]));
                            for (known, text) in seen.iter_mut().zip(here) {
                                if let Some(w) = known.get(&text) {
                                    t.violation("text", format!("{} and {} ticks both print as {text}", ctx(), show(w)));
                                }
                                known.insert(text, *v);
                            }
                        }
                        Err(p) => t.violation("text", format!("printing {} panics: {} at {}", ctx(), p.msg, p.loc)),
                    }
                }
                t.add("texts compared with all others of their batch", 4 * vals.len() as u64);
            }
        }
    });
    total.add("type and scale combinations", combos);
    total
}
