//! C21: the previous-block link, a source file the crate does not compile in (it is not declared
//! as a module), built here on its own so that trouble with it stays with this property.
#![allow(dead_code, unused_imports)]
#[path = "../../harness/src/btc.rs"]
mod btc;
#[path = "../../harness/src/fields.rs"]
mod fields;
#[path = "../../harness/src/gad.rs"]
mod gad;
#[path = "../../harness/src/mon.rs"]
mod mon;
#[path = "../../harness/src/report.rs"]
mod report;
#[path = "../../harness/src/rng.rs"]
mod rng;
#[path = "../../harness/src/solver.rs"]
mod solver;
// what the file may refer to inside its own crate
pub use validate_btc_header::{btc_validation, mp, util};
#[path = "/repo/src/btc_validation/prev_block_hash.rs"]
mod prev_block_hash;

use bellpepper_core::ConstraintSystem;
use btc::*;
use fields::*;
use ff::PrimeField;
use mon::*;
use prev_block_hash::check_prev_hash;
use report::*;
use solver::{splice, Sys};

fn claim_of(h: &[u8; 32]) -> Vec<u64> {
    h.chunks(8).map(|c| u64::from_be_bytes(c.try_into().unwrap())).collect()
}
fn run<F: PrimeField>(mut cs: MonCS<F>, h: &Hdr, c: &[u8; 32]) -> (MonCS<F>, Out<()>) {
    let o = callv(|| check_prev_hash(cs.namespace(|| "link"), &words(h).to_vec(), &claim_of(c)));
    (cs, o)
}
fn hexs(h: &[u8]) -> String {
    h.iter().map(|x| format!("{:02x}", x)).collect()
}
fn header(t: &mut T, c: &Corpus) -> Hdr {
    let mut h = t.rng.pick(&c.all).1;
    match t.rng.below(6) {
        0 => h = t.rng.bytes(80).try_into().unwrap(),
        1 => h = [*t.rng.pick(&[0u8, 0xff, 0x55, 0x80, 1]); 80],
        2 => h[t.idx as usize % 80] ^= 1 << t.rng.below(8),
        _ => {}
    }
    h
}
fn wrong(t: &mut T, c: &Corpus, h: &Hdr) -> [u8; 32] {
    let d = dsha(h);
    let mut w = d;
    match t.rng.below(9) {
        0 | 1 | 2 => {
            let i = t.rng.below(256) as usize;
            w[i / 8] ^= 1 << (i % 8);
        }
        3 => w.reverse(),
        4 => w = sha256(h),
        5 => w = dsha(&t.rng.pick(&c.all).1),
        6 => w = t.rng.bytes(32).try_into().unwrap(),
        7 => {
            for k in 0..4 {
                w[8 * k..8 * k + 8].reverse()
            }
        }
        _ => w = sha256(&d),
    }
    w
}
fn honest<F: PrimeField>(t: &mut T, c: &Corpus, good: bool, flip: Option<usize>) {
    let h = header(t, c);
    let d = match flip {
        Some(i) => {
            let mut d = dsha(&h);
            d[i / 8] ^= 1 << (i % 8);
            d
        }
        None if good => dsha(&h),
        None => wrong(t, c, &h),
    };
    let want = d == dsha(&h);
    let (cs, o) = run::<F>(MonCS::wit(), &h, &d);
    t.case(&format!("link {} to {} F{}", hexs(&h), hexs(&d), F::NUM_BITS), true);
    t.evn("constraints checked", cs.cons.len() as u64);
    t.ev(if want { "true claims" } else { "false claims" });
    let sat = matches!(o, Out::Ok(_)) && cs.sat();
    if sat != want {
        t.viol(
            if want { "link/rejects-true" } else { "link/accepts-false" },
            format!("claim {} for header {}, whose double SHA-256 is {}: check_prev_hash {}, constraints {}", hexs(&d), hexs(&h), hexs(&dsha(&h)), o.why(), if sat { "satisfied" } else { "not satisfied" }),
        );
    }
}
/// positions of the bits of words among the variables
fn find<F: PrimeField>(w: &[F], words: &[u64], from: usize) -> Option<usize> {
    let bit = |i: usize, f: usize| {
        let k = match f {
            0 => i % 64,
            _ => 63 - i % 64,
        };
        if words[i / 64] >> k & 1 == 1 {
            F::ONE
        } else {
            F::ZERO
        }
    };
    for f in 0..2 {
        let pat: Vec<F> = (0..64 * words.len()).map(|i| bit(i, f)).collect();
        if let Some(p) = w[from..].windows(pat.len()).position(|x| x == &pat[..]) {
            return Some(p + from);
        }
    }
    None
}
fn read<F: PrimeField>(w: &[F], at: usize, like: &[F], words: &[u64]) -> Option<Vec<u8>> {
    // the bit order that fits the original run
    for f in 0..2 {
        let k = |i: usize| if f == 0 { i / 64 * 64 + i % 64 } else { i / 64 * 64 + 63 - i % 64 };
        let get = |v: &[F]| -> Option<Vec<u64>> {
            let mut o = vec![0u64; words.len()];
            for i in 0..64 * words.len() {
                let x = v[at + k(i)];
                if x == F::ONE {
                    o[i / 64] |= 1 << (i % 64);
                } else if x != F::ZERO {
                    return None;
                }
            }
            Some(o)
        };
        if get(like).as_deref() == Some(words) {
            return get(w).map(|o| o.iter().flat_map(|x| x.to_be_bytes()).collect());
        }
    }
    None
}
/// pin the header's bits and a false claim's; is there any witness?
fn hostile<F: PrimeField>(t: &mut T, c: &Corpus) {
    let h = header(t, c);
    let d = dsha(&h);
    let bad = wrong(t, c, &h);
    if bad == d {
        return;
    }
    let (cs, o) = run::<F>(MonCS::wit(), &h, &d);
    if !matches!(o, Out::Ok(_)) || !cs.sat() {
        return;
    }
    let sys = Sys::new(&cs);
    let mut w = sys.defaults(&cs);
    let (Some(ph), Some(pc)) = (find(&w, &words(&h), 1), find(&w, &claim_of(&d), 1)) else { return };
    let (cb, _) = run::<F>(MonCS::wit(), &h, &bad);
    let wb = sys.defaults(&cb);
    for i in 0..256 {
        w[pc + i] = wb[pc + i];
    }
    t.case(&format!("hostile link {} to {} F{}", hexs(&h), hexs(&bad), F::NUM_BITS), true);
    t.ev("hostile witnesses sought");
    let fixed = |i: usize| (i >= ph && i < ph + 640) || (i >= pc && i < pc + 256);
    let got = if t.rng.chance(1, 2) {
        let known: Vec<Option<F>> = (0..w.len()).map(|i| if fixed(i) { Some(w[i]) } else { None }).collect();
        sys.solve(&known, &w, &mut t.rng, 20)
    } else {
        let depth = t.rng.range(1, 4);
        sys.repair(&w, &fixed, depth, 1000, &mut t.rng, 20)
    };
    if let Some(f) = got {
        if sys.check(&f) {
            t.viol("link/forged", format!("an assignment satisfies all {} constraints for header {} and claim {}, although its double SHA-256 is {}", sys.cons.len(), hexs(&h), hexs(&bad), hexs(&d)));
        }
    }
}
/// mix two true runs along parts no constraint ties together
fn mix<F: PrimeField>(t: &mut T, c: &Corpus) {
    let (h1, h2) = (header(t, c), header(t, c));
    let (r1, r2) = (run::<F>(MonCS::wit(), &h1, &dsha(&h1)), run::<F>(MonCS::wit(), &h2, &dsha(&h2)));
    if !r1.0.sat() || !r2.0.sat() || r1.0.shape_digest() != r2.0.shape_digest() {
        return;
    }
    let sys = Sys::new(&r1.0);
    let (w1, w2) = (sys.defaults(&r1.0), sys.defaults(&r2.0));
    let sp = splice(&sys, &w1, &w2);
    let (Some(ph), Some(pc)) = (find(&w1, &words(&h1), 1), find(&w1, &claim_of(&dsha(&h1)), 1)) else { return };
    t.case(&format!("mix {} and {} F{}", hexs(&h1), hexs(&h2), F::NUM_BITS), h1 != h2);
    t.ev("pairs of runs taken apart");
    let idx: Vec<usize> = (0..sp.ok.len()).filter(|i| sp.ok[*i]).collect();
    t.evn("independent parts found", idx.len() as u64);
    let mut tries: Vec<Vec<usize>> = idx.iter().take(500).map(|i| vec![*i]).collect();
    for _ in 0..8 {
        tries.push(idx.iter().cloned().filter(|_| t.rng.chance(1, 2)).collect());
    }
    for q in tries {
        let f = sp.take(&w1, &w2, &q);
        if f == w1 || f == w2 || !sys.check(&f) {
            continue;
        }
        t.ev("mixed assignments judged");
        let (Some(h), Some(cl)) = (read(&f, ph, &w1, &words(&h1)), read(&f, pc, &w1, &claim_of(&dsha(&h1)))) else { continue };
        if dsha(&h).to_vec() != cl {
            t.viol("link/forged", format!("mixing two runs satisfies all {} constraints for header {} and claim {}, although its double SHA-256 is {}", sys.cons.len(), hexs(&h), hexs(&cl), hexs(&dsha(&h))));
            return;
        }
    }
}
fn main() {
    install_panic_hook();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let root = std::env::var("VH_ROOT").unwrap_or_else(|_| "/verif".into());
    let only = std::env::var("VH_ONLY").ok().and_then(|s| s.rsplit_once(':').map(|(a, b)| (a.to_string(), b.parse().unwrap_or(0))));
    let r = Run::new("C21", thorough, seed, root, only);
    let c = corpus();
    r.par("true", r.n(120, 3000), |t| honest::<Pal>(t, &c, true, None));
    r.par("false", r.n(120, 3000), |t| honest::<Pal>(t, &c, false, None));
    r.par("every-bit", 256, |t| {
        let i = t.idx as usize;
        honest::<Pal>(t, &c, false, Some(i))
    });
    r.par("true-fr", r.n(40, 1000), |t| honest::<Fr>(t, &c, true, None));
    r.par("false-fr", r.n(40, 1000), |t| honest::<Fr>(t, &c, false, None));
    r.par("hostile", r.n(40, 1500), |t| hostile::<Pal>(t, &c));
    r.par("mix", r.n(30, 1000), |t| mix::<Pal>(t, &c));
    r.par("shape", r.n(8, 100), |t| {
        let h = header(t, &c);
        let (a, oa) = run::<Pal>(MonCS::wit(), &h, &dsha(&h));
        let (b, ob) = run::<Pal>(MonCS::shape(), &[0; 80], &[0; 32]);
        t.ev("shape digests compared");
        if !matches!(oa, Out::Ok(_)) || !matches!(ob, Out::Ok(_)) || a.shape_digest() != b.shape_digest() {
            t.viol("link/shape-differs", format!("check_prev_hash on {}: {:?} ({}), without a witness {:?} ({})", hexs(&h), a.shape_digest(), oa.why(), b.shape_digest(), ob.why()));
        }
    });
    let code = r.finish(
        "distinct (header, claim) pairs, all 256 one-bit deviations included, against an independent SHA-256, and hostile attempts to prove a false claim",
        &["the source file is compiled on its own, since the crate does not declare it as a module"],
        &[("true claims", 100), ("false claims", 300), ("hostile witnesses sought", 15), ("pairs of runs taken apart", 15)],
    );
    std::process::exit(code);
}
