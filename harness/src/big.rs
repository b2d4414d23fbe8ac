//! Exact integers wider than any tick type: sign and 256-bit magnitude.

use std::cmp::Ordering;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Big {
    pub neg: bool,
    /// Little-endian 64-bit limbs.
    pub mag: [u64; 4],
}

impl Big {
    pub fn from_u128(v: u128) -> Big {
        Big { neg: false, mag: [v as u64, (v >> 64) as u64, 0, 0] }
    }

    pub fn from_i128(v: i128) -> Big {
        Big { neg: v < 0, ..Big::from_u128(v.unsigned_abs()) }
    }

    pub fn zero() -> Big {
        Big::from_u128(0)
    }

    pub fn is_zero(&self) -> bool {
        self.mag == [0; 4]
    }

    fn norm(mut self) -> Big {
        if self.is_zero() {
            self.neg = false;
        }
        self
    }

    fn cmp_mag(&self, o: &Big) -> Ordering {
        for i in (0..4).rev() {
            match self.mag[i].cmp(&o.mag[i]) {
                Ordering::Equal => {}
                c => return c,
            }
        }
        Ordering::Equal
    }

    pub fn cmp(&self, o: &Big) -> Ordering {
        match (self.neg, o.neg) {
            (false, true) => Ordering::Greater,
            (true, false) => Ordering::Less,
            (false, false) => self.cmp_mag(o),
            (true, true) => o.cmp_mag(self),
        }
    }

    pub fn neg(mut self) -> Big {
        self.neg = !self.neg;
        self.norm()
    }

    pub fn add(self, o: Big) -> Big {
        if self.neg == o.neg {
            let mut mag = [0u64; 4];
            let mut c = 0u128;
            for i in 0..4 {
                let s = self.mag[i] as u128 + o.mag[i] as u128 + c;
                mag[i] = s as u64;
                c = s >> 64;
            }
            assert_eq!(c, 0, "Big overflow");
            Big { neg: self.neg, mag }.norm()
        } else {
            let (a, b, neg) = if self.cmp_mag(&o) == Ordering::Less { (o, self, o.neg) } else { (self, o, self.neg) };
            let mut mag = [0u64; 4];
            let mut borrow = 0i128;
            for i in 0..4 {
                let mut s = a.mag[i] as i128 - b.mag[i] as i128 - borrow;
                borrow = 0;
                if s < 0 {
                    s += 1i128 << 64;
                    borrow = 1;
                }
                mag[i] = s as u64;
            }
            Big { neg, mag }.norm()
        }
    }

    pub fn sub(self, o: Big) -> Big {
        self.add(o.neg())
    }

    pub fn mul(self, o: Big) -> Big {
        let mut mag = [0u64; 8];
        for i in 0..4 {
            let mut c = 0u128;
            for j in 0..4 {
                let s = mag[i + j] as u128 + self.mag[i] as u128 * o.mag[j] as u128 + c;
                mag[i + j] = s as u64;
                c = s >> 64;
            }
            mag[i + 4] = c as u64;
        }
        assert!(mag[4..] == [0; 4], "Big overflow");
        Big { neg: self.neg != o.neg, mag: [mag[0], mag[1], mag[2], mag[3]] }.norm()
    }

    /// Quotient rounded towards negative infinity and the remainder, for a positive divisor.
    pub fn div_floor(self, d: Big) -> (Big, Big) {
        assert!(!d.neg && !d.is_zero());
        let mut q = [0u64; 4];
        let mut r = Big::zero();
        for bit in (0..256).rev() {
            // r = 2 r + bit of self
            let mut c = (self.mag[bit / 64] >> (bit % 64)) & 1;
            for l in r.mag.iter_mut() {
                let n = *l >> 63;
                *l = *l << 1 | c;
                c = n;
            }
            if r.cmp_mag(&d) != Ordering::Less {
                r = Big { neg: false, ..r }.sub(d);
                q[bit / 64] |= 1 << (bit % 64);
            }
        }
        let q = Big { neg: self.neg, mag: q }.norm();
        let r = Big { neg: self.neg, ..r }.norm();
        if r.neg {
            (q.sub(Big::from_u128(1)), r.add(d))
        } else {
            (q, r)
        }
    }
}

/// A tick type as the harness sees it.
pub trait Raw: Copy + std::fmt::Debug + PartialEq + 'static {
    const BITS: u32;
    const SIGNED: bool;
    const NAME: &'static str;
    fn from_raw(bits: u128) -> Self;
    fn big(self) -> Big;
    fn fits(b: &Big) -> bool {
        b.cmp(&Self::min_big()) != Ordering::Less && b.cmp(&Self::max_big()) != Ordering::Greater
    }
    fn min_big() -> Big;
    fn max_big() -> Big;
}

macro_rules! raw {
    ($($t:ident $signed:expr),*) => {$(
        impl Raw for $t {
            const BITS: u32 = <$t>::BITS;
            const SIGNED: bool = $signed;
            const NAME: &'static str = stringify!($t);
            fn from_raw(bits: u128) -> Self { bits as $t }
            fn big(self) -> Big {
                if $signed { Big::from_i128(self as i128) } else { Big::from_u128(self as u128) }
            }
            fn min_big() -> Big { <$t>::MIN.big() }
            fn max_big() -> Big { <$t>::MAX.big() }
        }
    )*};
}
raw!(u8 false, u16 false, u32 false, u64 false, u128 false, usize false,
     i8 true, i16 true, i32 true, i64 true, i128 true, isize true);

/// The two's complement bits of a value known to fit the type it is meant for.
pub fn bits(b: &Big) -> u128 {
    let m = b.mag[0] as u128 | (b.mag[1] as u128) << 64;
    if b.neg {
        m.wrapping_neg()
    } else {
        m
    }
}

pub fn self_check(rng: &mut crate::rng::Rng) {
    for _ in 0..20_000 {
        let sh = rng.below(127) as u32;
        let a = (rng.u128() >> sh) as i128 >> rng.below(2);
        let b = rng.u64() as i64 as i128 >> rng.below(60);
        let (x, y) = (Big::from_i128(a), Big::from_i128(b));
        assert_eq!(x.cmp(&y), a.cmp(&b));
        if let Some(s) = a.checked_add(b) {
            assert_eq!(x.add(y), Big::from_i128(s));
        }
        if let Some(s) = a.checked_sub(b) {
            assert_eq!(x.sub(y), Big::from_i128(s));
        }
        if let Some(s) = a.checked_mul(b) {
            assert_eq!(x.mul(y), Big::from_i128(s));
        }
        if b > 0 {
            let (q, r) = x.div_floor(y);
            assert_eq!(q, Big::from_i128(a.div_euclid(b)));
            assert_eq!(r, Big::from_i128(a.rem_euclid(b)));
        }
        assert_eq!(bits(&x), a as u128);
    }
}
