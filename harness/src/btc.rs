//! Independent reference for the header rules: byte-level decoding, SHA-256 from the
//! standard, big-integer targets, and the state transition. Shares no code with the crate.
use crate::rng::Rng;
use num_bigint::{BigInt, Sign};

const K: [u32; 64] = [
    0x428a2f98, 0x71374491, 0xb5c0fbcf, 0xe9b5dba5, 0x3956c25b, 0x59f111f1, 0x923f82a4, 0xab1c5ed5, 0xd807aa98, 0x12835b01, 0x243185be, 0x550c7dc3, 0x72be5d74, 0x80deb1fe, 0x9bdc06a7, 0xc19bf174, 0xe49b69c1, 0xefbe4786, 0x0fc19dc6, 0x240ca1cc, 0x2de92c6f, 0x4a7484aa,
    0x5cb0a9dc, 0x76f988da, 0x983e5152, 0xa831c66d, 0xb00327c8, 0xbf597fc7, 0xc6e00bf3, 0xd5a79147, 0x06ca6351, 0x14292967, 0x27b70a85, 0x2e1b2138, 0x4d2c6dfc, 0x53380d13, 0x650a7354, 0x766a0abb, 0x81c2c92e, 0x92722c85, 0xa2bfe8a1, 0xa81a664b, 0xc24b8b70, 0xc76c51a3,
    0xd192e819, 0xd6990624, 0xf40e3585, 0x106aa070, 0x19a4c116, 0x1e376c08, 0x2748774c, 0x34b0bcb5, 0x391c0cb3, 0x4ed8aa4a, 0x5b9cca4f, 0x682e6ff3, 0x748f82ee, 0x78a5636f, 0x84c87814, 0x8cc70208, 0x90befffa, 0xa4506ceb, 0xbef9a3f7, 0xc67178f2,
];
pub fn sha256(m: &[u8]) -> [u8; 32] {
    let mut h: [u32; 8] = [0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19];
    let mut d = m.to_vec();
    d.push(0x80);
    while d.len() % 64 != 56 {
        d.push(0);
    }
    d.extend((m.len() as u64 * 8).to_be_bytes());
    for c in d.chunks(64) {
        let mut w = [0u32; 64];
        for i in 0..16 {
            w[i] = u32::from_be_bytes([c[4 * i], c[4 * i + 1], c[4 * i + 2], c[4 * i + 3]]);
        }
        for i in 16..64 {
            let a = w[i - 15].rotate_right(7) ^ w[i - 15].rotate_right(18) ^ (w[i - 15] >> 3);
            let b = w[i - 2].rotate_right(17) ^ w[i - 2].rotate_right(19) ^ (w[i - 2] >> 10);
            w[i] = w[i - 16].wrapping_add(a).wrapping_add(w[i - 7]).wrapping_add(b);
        }
        let mut v = h;
        for i in 0..64 {
            let s1 = v[4].rotate_right(6) ^ v[4].rotate_right(11) ^ v[4].rotate_right(25);
            let ch = (v[4] & v[5]) ^ (!v[4] & v[6]);
            let t1 = v[7].wrapping_add(s1).wrapping_add(ch).wrapping_add(K[i]).wrapping_add(w[i]);
            let s0 = v[0].rotate_right(2) ^ v[0].rotate_right(13) ^ v[0].rotate_right(22);
            let mj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
            v = [t1.wrapping_add(s0.wrapping_add(mj)), v[0], v[1], v[2], v[3].wrapping_add(t1), v[4], v[5], v[6]];
        }
        for i in 0..8 {
            h[i] = h[i].wrapping_add(v[i]);
        }
    }
    let mut o = [0u8; 32];
    for i in 0..8 {
        o[4 * i..4 * i + 4].copy_from_slice(&h[i].to_be_bytes());
    }
    o
}
pub fn dsha(m: &[u8]) -> [u8; 32] {
    sha256(&sha256(m))
}
pub fn le(b: &[u8]) -> BigInt {
    BigInt::from_bytes_le(Sign::Plus, b)
}
pub type Hdr = [u8; 80];
pub fn words(h: &Hdr) -> [u64; 10] {
    let mut w = [0u64; 10];
    for i in 0..10 {
        w[i] = u64::from_be_bytes(h[8 * i..8 * i + 8].try_into().unwrap());
    }
    w
}
pub fn hash(h: &Hdr) -> BigInt {
    le(&dsha(h))
}
pub fn prev(h: &Hdr) -> BigInt {
    le(&h[4..36])
}
pub fn time(h: &Hdr) -> u32 {
    u32::from_le_bytes(h[68..72].try_into().unwrap())
}
pub fn bits(h: &Hdr) -> u32 {
    u32::from_le_bytes(h[72..76].try_into().unwrap())
}
pub fn pow2(n: u32) -> BigInt {
    BigInt::from(1) << n as usize
}
pub fn max_target() -> BigInt {
    BigInt::from(0xffff) << 208
}
/// target of a compact encoding, whatever it is
pub fn naive_target(bits: u32) -> BigInt {
    let (e, m) = (bits >> 24, bits & 0xffffff);
    if e >= 3 {
        BigInt::from(m) << (8 * (e as usize - 3))
    } else {
        BigInt::from(m) >> (8 * (3 - e as usize))
    }
}
/// target of a canonical compact encoding that is not above the maximum
pub fn target(bits: u32) -> Option<BigInt> {
    let (e, m) = (bits >> 24, bits & 0xffffff);
    let t = naive_target(bits);
    if e < 3 || m & 0x800000 != 0 || m < 0x8000 || t > max_target() {
        None
    } else {
        Some(t)
    }
}
pub fn unit(bits: u32) -> BigInt {
    pow2(8 * ((bits >> 24) - 3))
}
/// the compact encoding of a target, rounded down
pub fn compact(t: &BigInt) -> u32 {
    let b = t.to_bytes_be().1;
    let mut e = b.len() as u32;
    let at = |i: usize| *b.get(i).unwrap_or(&0) as u32;
    let mut m = at(0) << 16 | at(1) << 8 | at(2);
    if m & 0x800000 != 0 {
        m >>= 8;
        e += 1;
    }
    e << 24 | m
}
/// a header the state would take, but for the proof of work
pub fn cured(s: &State, h: &Hdr) -> Hdr {
    let mut h = *h;
    let mut p = s.hash.to_bytes_le().1;
    p.resize(32, 0);
    h[4..36].copy_from_slice(&p[..32]);
    if time(&h) <= s.median() {
        h[68..72].copy_from_slice(&s.median().saturating_add(1).to_le_bytes());
    }
    let t: BigInt = if s.counter == 0 { &s.target * (s.times[10] as i64 - s.epoch as i64).max(1) / SPAN } else { s.target.clone() };
    h[72..76].copy_from_slice(&compact(&t).to_le_bytes());
    h
}
pub const SPAN: u64 = 2016 * 600;

#[derive(Clone, Debug, PartialEq)]
pub struct State {
    pub hash: BigInt,
    pub times: [u32; 11],
    pub target: BigInt,
    pub epoch: u32,
    pub counter: u64,
    pub work: BigInt,
}
impl State {
    pub fn z(&self) -> Vec<BigInt> {
        let mut v = vec![self.hash.clone()];
        v.extend(self.times.iter().map(|x| BigInt::from(*x)));
        v.extend([self.target.clone(), BigInt::from(self.epoch), BigInt::from(self.counter), self.work.clone()]);
        v
    }
    pub fn median(&self) -> u32 {
        let mut s = self.times;
        s.sort_unstable();
        s[5]
    }
}
/// the rules
pub fn step(s: &State, h: &Hdr) -> Result<State, &'static str> {
    if prev(h) != s.hash {
        return Err("previous hash");
    }
    let t = target(bits(h)).ok_or("difficulty bits not canonical or above the maximum")?;
    let hh = hash(h);
    if hh >= t {
        return Err("proof of work");
    }
    if time(h) <= s.median() {
        return Err("timestamp not above the median");
    }
    if s.counter == 0 {
        let span = s.times[10] as i64 - s.epoch as i64;
        if span <= SPAN as i64 / 4 || span >= SPAN as i64 * 4 {
            return Err("timespan out of bounds");
        }
        let q: BigInt = &s.target * span / SPAN;
        let low = &q - &t;
        if low < BigInt::from(0) || low >= unit(bits(h)) {
            return Err("target is not the retargeted one");
        }
    } else if t != s.target {
        return Err("target changed inside an epoch");
    }
    let mut times = [0; 11];
    times[..10].copy_from_slice(&s.times[1..]);
    times[10] = time(h);
    Ok(State {
        hash: hh,
        times,
        work: &s.work + max_target() / &t,
        epoch: if s.counter == 0 { time(h) } else { s.epoch },
        counter: if s.counter == 2015 { 0 } else { s.counter + 1 },
        target: t,
    })
}

pub struct Corpus {
    pub all: Vec<(String, Hdr)>,
}
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
pub fn corpus() -> Corpus {
    let mut all = vec![];
    for l in include_str!("../data/headers.txt").lines().chain(include_str!("../data/real.txt").lines()) {
        let f: Vec<&str> = l.split_whitespace().collect();
        if f.len() < 2 || f[0].starts_with('#') {
            continue;
        }
        all.push((f[0].to_string(), unhex(f[1]).try_into().unwrap()));
    }
    Corpus { all }
}
impl Corpus {
    /// headers that some state accepts
    pub fn good(&self) -> Vec<&(String, Hdr)> {
        self.all.iter().filter(|x| prev(&x.1) < pow2(224) && target(bits(&x.1)).map_or(false, |t| hash(&x.1) < t) && time(&x.1) > 0).collect()
    }
    pub fn get(&self, n: &str) -> Option<Hdr> {
        self.all.iter().find(|x| x.0 == n).map(|x| x.1)
    }
    pub fn chains(&self) -> Vec<(String, Vec<Hdr>)> {
        let mut v: Vec<(String, Vec<Hdr>)> = vec![];
        for (n, h) in &self.all {
            let Some((c, _)) = n.split_once('.') else { continue };
            match v.iter_mut().find(|x| x.0 == c) {
                Some(x) => x.1.push(*h),
                None => v.push((c.into(), vec![*h])),
            }
        }
        v
    }
}

/// eleven timestamps of which the median is m (with ties, extremes, any order)
pub fn times_with_median(r: &mut Rng, m: u32) -> [u32; 11] {
    let mut v = vec![m];
    let style = r.below(4);
    for i in 0..10 {
        let lo = i < 5;
        let x = match style {
            0 => m,
            1 => {
                if lo {
                    m.saturating_sub(r.below(3) as u32)
                } else {
                    m.saturating_add(r.below(3) as u32)
                }
            }
            2 => {
                if lo {
                    m - r.below(m as u64 + 1) as u32
                } else {
                    m + r.below((u32::MAX - m) as u64 + 1) as u32
                }
            }
            _ => {
                if lo {
                    m.saturating_sub(r.below(20000) as u32)
                } else {
                    m.saturating_add(r.below(20000) as u32)
                }
            }
        };
        v.push(x);
    }
    for i in (1..11).rev() {
        let j = r.below(i as u64 + 1) as usize;
        v.swap(i, j);
    }
    v.try_into().unwrap()
}
/// A well-formed state on which `h` is valid. `boundary`: first block of an epoch.
pub fn state_for(r: &mut Rng, h: &Hdr, boundary: bool) -> Option<State> {
    let t = target(bits(h))?;
    let tm = time(h);
    if tm == 0 {
        return None;
    }
    for _ in 0..60 {
        let m = match r.below(4) {
            0 => tm - 1,
            1 => tm - 1 - r.below((tm as u64).min(5000)) as u32,
            2 => tm.saturating_sub(1 + r.below(100000) as u32),
            _ => r.below(tm as u64) as u32,
        };
        let times = times_with_median(r, m);
        let work = match r.below(4) {
            0 => BigInt::from(0),
            1 => r.big_bits(240),
            _ => r.big_bits(80),
        };
        let mut s = State { hash: prev(h), times, target: t.clone(), epoch: r.u32(), counter: 0, work };
        if !boundary {
            s.counter = match r.below(5) {
                0 => 1,
                1 => 2015,
                2 => 2014,
                _ => 1 + r.below(2015),
            };
            if r.chance(1, 2) {
                s.epoch = s.times[10].saturating_sub(r.below(3_000_000) as u32);
            }
        } else {
            // a previous target and timespan that retarget to t
            let span = match r.below(6) {
                0 => SPAN / 4 + 1 + r.below(3),
                1 => SPAN * 4 - 1 - r.below(3),
                2 => SPAN - 1 + r.below(3),
                _ => SPAN / 4 + 1 + r.below(SPAN * 4 - SPAN / 4 - 1),
            };
            if (s.times[10] as u64) < span {
                continue;
            }
            s.epoch = (s.times[10] as u64 - span) as u32;
            let u = unit(bits(h));
            // anything in [t*S/span, (t+u)*S/span) does
            let lo: BigInt = (&t * SPAN + span - 1) / span;
            let hi: BigInt = ((&t + &u) * SPAN + span - 1) / span - 1;
            if hi < lo {
                continue;
            }
            let w: BigInt = &hi - &lo + 1;
            let off = match r.below(4) {
                0 => BigInt::from(0),
                1 => &w - 1,
                _ => r.big_bits(256) % &w,
            };
            s.target = lo + off;
            if s.target > max_target() {
                continue;
            }
            // prefer previous targets that are themselves compact
            if r.chance(1, 2) {
                let k = s.target.bits() as usize;
                let e = (k + 7) / 8;
                for e in [e, e + 1] {
                    let sh = 8 * (e - 3);
                    let c = ((&s.target >> sh) + 1) << sh;
                    let old = std::mem::replace(&mut s.target, c);
                    if step(&s, h).is_err() {
                        s.target = old;
                    } else {
                        break;
                    }
                }
            }
        }
        if step(&s, h).is_ok() {
            return Some(s);
        }
    }
    None
}
