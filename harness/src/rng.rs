use ff::PrimeField;
use num_bigint::{BigInt, Sign};
#[derive(Clone)]
pub struct Rng(u64, u64);
impl Rng {
    pub fn new(seed: u64, stream: &str, idx: u64) -> Self {
        let mut h = 0xcbf29ce484222325u64;
        for b in stream.bytes() {
            h = (h ^ b as u64).wrapping_mul(0x100000001b3);
        }
        let mut r = Rng(h ^ seed.wrapping_mul(0x9E3779B97F4A7C15), idx.wrapping_mul(0xD1342543DE82EF95) | 1);
        for _ in 0..8 {
            r.u64();
        }
        r
    }
    pub fn u64(&mut self) -> u64 {
        // splitmix over a mixed counter: deterministic, stream separated
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15).wrapping_add(self.1);
        let mut z = self.0 ^ self.1.rotate_left(17);
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        self.1 = self.1.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            return 0;
        }
        ((self.u64() as u128 * n as u128) >> 64) as u64
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below((hi - lo + 1) as u64) as usize
    }
    /// `lo..=hi`, now and then `hi+1..=big`
    pub fn size(&mut self, lo: usize, hi: usize, big: usize) -> usize {
        if self.chance(1, 12) {
            self.range(hi + 1, big)
        } else {
            self.range(lo, hi)
        }
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
    pub fn u32(&mut self) -> u32 {
        self.u64() as u32
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.u64() as u8).collect()
    }
    /// Uniform below 2^bits
    pub fn big_bits(&mut self, bits: usize) -> BigInt {
        if bits == 0 {
            return BigInt::from(0);
        }
        let b = self.bytes((bits + 7) / 8);
        let v = BigInt::from_bytes_le(Sign::Plus, &b);
        v & ((BigInt::from(1) << bits) - 1)
    }
    /// Corner-heavy value below 2^bits: 0, 1, all ones, runs of ones, powers of two +-1, uniform
    pub fn big_corner(&mut self, bits: usize) -> BigInt {
        if bits == 0 {
            return BigInt::from(0);
        }
        let one = BigInt::from(1);
        let top = &one << bits;
        let v = match self.below(9) {
            0 => BigInt::from(0),
            1 => one.clone(),
            2 => &top - 1,
            3 => &top - 1 - self.below(4),
            4 => {
                let k = self.below(bits as u64) as usize;
                (&one << k) + BigInt::from(self.below(3)) - 1
            }
            5 => {
                let k = self.below(bits as u64 + 1) as usize;
                let l = self.below(bits as u64 + 1) as usize;
                let (k, l) = (k.min(l), k.max(l));
                (&one << l) - (&one << k)
            }
            6 => {
                let k = self.below(bits as u64 + 1) as usize;
                self.big_bits(k)
            }
            _ => self.big_bits(bits),
        };
        if v < BigInt::from(0) {
            BigInt::from(0)
        } else if v >= top {
            top - 1
        } else {
            v
        }
    }
    pub fn field<F: PrimeField>(&mut self) -> F {
        let n = self.big_bits(F::NUM_BITS as usize + 64);
        f_of::<F>(&n)
    }
}

/// Field element congruent to n (n may be negative). Independent of the code under test.
pub fn f_of<F: PrimeField>(n: &BigInt) -> F {
    let (s, d) = n.to_u64_digits();
    let base = {
        let b = F::from(1u64 << 32);
        b * b
    };
    let mut r = F::ZERO;
    for x in d.iter().rev() {
        r = r * base + F::from(*x);
    }
    if s == Sign::Minus {
        -r
    } else {
        r
    }
}
/// Canonical integer of a field element (little-endian repr fields only).
pub fn n_of<F: PrimeField>(f: &F) -> BigInt {
    BigInt::from_bytes_le(Sign::Plus, f.to_repr().as_ref())
}
pub fn modulus<F: PrimeField>() -> BigInt {
    n_of(&(-F::ONE)) + 1
}
