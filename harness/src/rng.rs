//! splitmix64 based generator: every random choice of the harness derives from VERIF_SEED.

#[derive(Clone)]
pub struct Rng(u64);

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

pub fn hash_all(parts: &[u64]) -> u64 {
    let mut h = 0x243F6A8885A308D3;
    for &p in parts {
        h = mix(h ^ p);
    }
    h
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xCBF29CE484222325;
    for b in s.bytes() {
        h = mix(h ^ b as u64);
    }
    h
}

impl Rng {
    pub fn new(parts: &[u64]) -> Self {
        Rng(hash_all(parts))
    }

    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        mix(self.0)
    }

    pub fn u128(&mut self) -> u128 {
        (self.u64() as u128) << 64 | self.u64() as u128
    }

    /// Uniform in 0..n.
    pub fn below(&mut self, n: u64) -> u64 {
        assert!(n > 0);
        ((self.u64() as u128 * n as u128) >> 64) as u64
    }

    /// Uniform in lo..=hi.
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        let span = (hi as i128 - lo as i128 + 1) as u128;
        let r = if span > u64::MAX as u128 {
            self.u64() as u128
        } else {
            self.below(span as u64) as u128
        };
        (lo as i128 + r as i128) as i64
    }

    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }

    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len() as u64) as usize]
    }

    /// Signed, log-uniform magnitude up to 2^bits.
    pub fn log_signed(&mut self, bits: u32) -> i64 {
        let b = self.below(bits as u64 + 1) as u32;
        let v = if b == 0 {
            0
        } else {
            (self.u64() >> (64 - b)) as i128
        };
        let v = v.min(i64::MAX as i128) as i64;
        if self.chance(1, 2) {
            -v
        } else {
            v
        }
    }

    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            let j = self.below(i as u64 + 1) as usize;
            xs.swap(i, j);
        }
    }
}
