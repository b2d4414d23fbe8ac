//! Shared by the monitors for instants and durations (I01, I03, I04, I05, D01).

use crate::big::*;
use crate::rng::*;
use momentous::{Duration, Instant, Nanoseconds, Scale};
use num_integer::Integer;
use num_traits::PrimInt;
use std::cmp::Ordering;
use std::hash::Hash;



macro_rules! scales {
    ($($name:ident = $n:expr),*) => {$(
        #[derive(Debug, Clone, Copy, Ord, PartialOrd, Eq, PartialEq, Hash)]
        pub struct $name;
        impl Scale for $name { const TICKS_PER_SECOND: u32 = $n; }
    )*};
}
scales!(
    S1 = 1, S2 = 2, S3 = 3, S5 = 5, S10 = 10, S60 = 60, S100 = 100, S250 = 250, S512 = 512, S1000 = 1000,
    S1M = 1_000_000, S250M = 250_000_000, S500M = 500_000_000, S4G = 4_000_000_000, SMAX = 4_294_967_295,
    S7 = 7, S24 = 24, S30 = 30, S32K = 32_768, S44K = 44_100, S48K = 48_000, S90K = 90_000, S3G = 3_000_000_000, SPRIME = 4_294_967_291
);
pub type SNs = Nanoseconds;

/// Everything a tick type must be, spelled with public traits.
pub trait Num: Raw + PrimInt + Integer + Hash {}
impl<T: Raw + PrimInt + Integer + Hash> Num for T {}

#[derive(Clone, Copy)]
pub struct TypeInfo {
    pub name: &'static str,
    pub bits: u32,
    pub min: Big,
    pub max: Big,
}

pub fn info<T: Raw>() -> TypeInfo {
    TypeInfo { name: T::NAME, bits: T::BITS, min: T::min_big(), max: T::max_big() }
}

impl TypeInfo {
    pub fn fits(&self, b: &Big) -> bool {
        b.cmp(&self.min) != Ordering::Less && b.cmp(&self.max) != Ordering::Greater
    }
}

pub fn big(v: i128) -> Big {
    Big::from_i128(v)
}

/// Tick values of a type: extremes, powers of two, and around multiples of a factor.
pub fn gen_ticks(rng: &mut Rng, t: &TypeInfo, factor: u32) -> Big {
    let f = Big::from_u128(factor as u128);
    for _ in 0..40 {
        let small = big(rng.range(-3, 3) as i128);
        let v = match rng.below(10) {
            0 => small,
            1 => t.min.add(big(rng.range(0, 3) as i128)),
            2 => t.max.sub(big(rng.range(0, 3) as i128)),
            3 => {
                let b = Big::from_u128(1u128 << rng.below(t.bits.min(128) as u64)).add(small);
                if rng.chance(1, 2) { b.neg() } else { b }
            }
            4..=6 => {
                // Near a multiple of the factor.
                let q = Big::from_u128(rng.u128() >> rng.below(128));
                let q = if rng.chance(1, 2) { q.neg() } else { q };
                q.div_floor(f).0.mul(f).add(small)
            }
            7 => t.min.div_floor(f).0.mul(f).add(small),
            8 => t.max.div_floor(f).0.mul(f).add(small),
            _ => {
                let q = Big::from_u128(rng.u128() >> rng.below(128));
                if rng.chance(1, 2) { q.neg() } else { q }
            }
        };
        if t.fits(&v) {
            return v;
        }
    }
    t.max
}

pub fn show(b: &Big) -> String {
    if b.mag[2] == 0 && b.mag[3] == 0 {
        format!("{}{}", if b.neg { "-" } else { "" }, b.mag[0] as u128 | (b.mag[1] as u128) << 64)
    } else {
        format!("{b:?}")
    }
}

pub fn key(parts: &[&Big], tag: u64) -> u64 {
    let mut v = vec![tag];
    for b in parts {
        v.extend([b.neg as u64, b.mag[0], b.mag[1], b.mag[2]]);
    }
    hash_all(&v)
}

/// The sanitizers' builds, which look for memory errors, do with fewer types: they take long to compile.
#[cfg(momentous_few_types)]
#[macro_export]
macro_rules! all_types {
    ($m:ident, $($rest:tt)*) => {
        $m!(u8, $($rest)*); $m!(u64, $($rest)*); $m!(u128, $($rest)*);
        $m!(i16, $($rest)*); $m!(i32, $($rest)*); $m!(i64, $($rest)*); $m!(i128, $($rest)*);
    };
}

#[cfg(not(momentous_few_types))]
#[macro_export]
macro_rules! all_types {
    ($m:ident, $($rest:tt)*) => {
        $m!(u8, $($rest)*); $m!(u16, $($rest)*); $m!(u32, $($rest)*); $m!(u64, $($rest)*); $m!(u128, $($rest)*); $m!(usize, $($rest)*);
        $m!(i8, $($rest)*); $m!(i16, $($rest)*); $m!(i32, $($rest)*); $m!(i64, $($rest)*); $m!(i128, $($rest)*); $m!(isize, $($rest)*);
    };
}


pub fn gcd(a: u32, b: u32) -> u32 {
    if b == 0 { a } else { gcd(b, a % b) }
}

/// How a duration's ticks are seen from outside.
pub fn dticks<T: Num, S: Scale>(d: Duration<T, S>) -> T {
    (Instant::<T, S>::epoch() + d).ticks_since_epoch()
}

pub fn dur<T: Num, S: Scale>(t: T) -> Duration<T, S> {
    Instant::<T, S>::from_ticks_since_epoch(t).duration_since_epoch()
}
