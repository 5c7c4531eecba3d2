//! C15 conversions, C19 lazy cells.
use super::bn::*;
use crate::fields::*;
use crate::report::*;
use crate::rng::*;
use ff::PrimeField;
use num_bigint::BigInt;
use validate_btc_header::mp::bignat::{limbs_to_nat, nat_to_limbs};
use validate_btc_header::util::convert::*;
use validate_btc_header::util::lazy::LazyCell;

fn conv_case<F: PrimeField>(t: &mut T) {
    let p = modulus::<F>();
    match t.rng.below(6) {
        0 => {
            let n = match t.rng.below(5) {
                0 => &p - 1 - t.rng.below(3),
                1 => t.rng.big_corner(F::CAPACITY as usize),
                2 => n_of(&t.rng.field::<F>()),
                3 => b(t.rng.below(300)),
                _ => b(t.rng.u64()),
            } % &p;
            t.case(&format!("number {} F{}", hex_(&n), F::NUM_BITS), true);
            t.ev("numbers below the modulus");
            match callv(|| nat_to_f::<F>(&n)) {
                Out::Ok(Some(f)) if n_of(&f) == n => {
                    if f_to_nat(&f) != n {
                        t.viol("f_to_nat/wrong", format!("{} maps to {}, and back to {}", n, n_of(&f), f_to_nat(&f)));
                    }
                }
                o => t.viol("nat_to_f/wrong", format!("{} (modulus {}) maps to {:?}", n, p, o.ok().map(|x| x.map(|f| n_of(&f))))),
            }
        }
        1 => {
            // not representable: above the modulus, or negative
            let n = match t.rng.below(4) {
                0 => &p + t.rng.below(3),
                1 => &p * (2 + t.rng.below(5)) + t.rng.below(3),
                2 => b(0) - 1u8 - t.rng.below(5),
                _ => &p + t.rng.big_bits(F::NUM_BITS as usize + 10),
            };
            t.case(&format!("unrepresentable {} F{}", n, F::NUM_BITS), true);
            t.ev("numbers the field cannot represent");
            match callv(|| nat_to_f::<F>(&n)) {
                Out::Ok(None) => {}
                o => t.viol("nat_to_f/too-big-accepted", format!("{} is not below the modulus {}, yet maps to {}", n, p, o.ok().map(|x| format!("{:?}", x.map(|f| n_of(&f)))).unwrap_or("a panic".into()))),
            }
        }
        2 => {
            let f: F = t.rng.field();
            t.case(&format!("element {} F{}", n_of(&f), F::NUM_BITS), true);
            if f_to_nat(&f) != n_of(&f) || nat_to_f::<F>(&f_to_nat(&f)) != Some(f) {
                t.viol("f_to_nat/wrong", format!("the element {} maps to {}", n_of(&f), f_to_nat(&f)));
            }
        }
        3 => {
            let n = match t.rng.below(5) {
                0 => t.rng.below(256) as usize,
                1 => t.rng.below(70000) as usize,
                2 => (1usize << t.rng.below(60)) - t.rng.below(2) as usize,
                3 => t.rng.u64() as usize >> t.rng.below(64),
                _ => t.rng.u32() as usize,
            };
            if BigInt::from(n) >= p {
                return;
            }
            t.case(&format!("usize {} F{}", n, F::NUM_BITS), true);
            t.ev("machine integers");
            let f = usize_to_f::<F>(n);
            if n_of(&f) != BigInt::from(n) {
                t.viol("usize_to_f/wrong", format!("{} maps to {}", n, n_of(&f)));
            }
            match callv(|| f_to_usize(&f)) {
                Out::Ok(m) if m == n => {}
                o => t.viol("f_to_usize/wrong", format!("the element {} {}", n, match o { Out::Ok(m) => format!("maps to {}", m), o => o.why() })),
            }
        }
        4 => {
            // too big for a machine integer: never a truncated answer
            if F::NUM_BITS < 70 {
                return;
            }
            let n = (pow2(64) + t.rng.big_corner(F::CAPACITY as usize)) % &p;
            if n < pow2(64) {
                return;
            }
            t.case(&format!("oversized element {} F{}", n, F::NUM_BITS), true);
            if let Out::Ok(m) = callv(|| f_to_usize(&f_of::<F>(&n))) {
                t.viol("f_to_usize/truncates", format!("the element {} maps to {}", n, m));
            }
            t.ev("elements too big for a machine integer");
        }
        _ => {
            let w = t.rng.range(1, F::CAPACITY as usize);
            let k = t.rng.range(1, 6);
            let n = match t.rng.below(6) {
                0 => pow2(w * k),
                1 => pow2(w * k) + t.rng.big_bits(w * k),
                2 => b(0) - 1u8 - t.rng.big_bits(w * k - 1),
                _ => t.rng.big_corner(w * k),
            };
            t.case(&format!("limbs {} w={} k={} F{}", hex_(&n), w, k, F::NUM_BITS), true);
            let out = call(|| nat_to_limbs::<F>(&n, w, k));
            if n >= b(0) && n < pow2(w * k) {
                t.ev("limb splits");
                match out {
                    Out::Ok(l) => {
                        let li: Vec<BigInt> = l.iter().map(n_of).collect();
                        if li != split(&n, w, k) {
                            t.viol("nat_to_limbs/wrong", format!("{} in {} limbs of {} bits gives {:?}", n, k, w, li));
                        }
                        let back = limbs_to_nat::<F, _, _>(l.iter(), w);
                        if back != n {
                            t.viol("limbs_to_nat/wrong", format!("limbs {:?} of width {} give {}", li, w, back));
                        }
                    }
                    o => t.viol("nat_to_limbs/refused", format!("{} in {} limbs of {} bits {}", n, k, w, o.why())),
                }
            } else {
                t.ev("numbers that do not fit the limbs");
                if let Out::Ok(l) = out {
                    t.viol("nat_to_limbs/too-big-accepted", format!("{} does not fit {} limbs of {} bits, yet gives {:?}", n, k, w, l.iter().map(n_of).collect::<Vec<_>>()));
                }
            }
            // any limb vector, carried or not
            let l: Vec<F> = (0..k).map(|_| t.rng.field()).collect();
            let li: Vec<BigInt> = l.iter().map(n_of).collect();
            if limbs_to_nat::<F, _, _>(l.iter(), w) != joined(&li, w) {
                t.viol("limbs_to_nat/wrong", format!("limbs {:?} of width {} give {}", li, w, limbs_to_nat::<F, _, _>(l.iter(), w)));
            }
        }
    }
}
fn hex_(n: &BigInt) -> String {
    format!("{:#x}", n)
}
pub fn c15(r: &Run) -> i32 {
    let n = r.n(40000, 1000000);
    r.par("conv-pal", n, |t| conv_case::<Pal>(t));
    r.par("conv-fr", n, |t| conv_case::<Fr>(t));
    r.par("conv-f61", n, |t| conv_case::<F61>(t));
    r.par("conv-f127", n, |t| conv_case::<F127>(t));
    r.wrapping_build();
    r.finish(
        "numbers around 0, the modulus and its multiples, powers of two, machine-integer boundaries and uniform ones, over four fields; limb splits of every width; distinct = distinct (direction, number, field)",
        &["little-endian field representations"],
        &[("numbers below the modulus", 10000), ("numbers the field cannot represent", 5000), ("machine integers", 5000), ("limb splits", 5000), ("numbers that do not fit the limbs", 3000)],
    )
}

// ---------------------------------------------------------------- C19
use std::cell::Cell;
use std::rc::Rc;
fn lazy_case(t: &mut T) {
    let runs = Rc::new(Cell::new(0u32));
    let val = t.rng.u64();
    let r2 = runs.clone();
    let forced = t.rng.chance(1, 4);
    let f = move || {
        r2.set(r2.get() + 1);
        vec![val, !val]
    };
    let mut script = vec![];
    fn go<G: FnOnce() -> Vec<u64>>(t: &mut T, first: LazyCell<Vec<u64>, G>, val: u64, runs: &Rc<Cell<u32>>, forced: bool, script: &mut Vec<String>) -> Option<(String, String)>
    where
        LazyCell<Vec<u64>, G>: Clone,
    {
        if runs.get() != 0 {
            return Some(("lazy/eager".into(), "the closure ran before any use".into()));
        }
        let mut cells = vec![first];
        let steps = t.rng.size(1, 8, 40);
        let mut used = false;
        for _ in 0..steps {
            let i = t.rng.below(cells.len() as u64) as usize;
            match t.rng.below(4) {
                0 => {
                    script.push(format!("clone {}", i));
                    let c = cells[i].clone();
                    cells.push(c);
                }
                1 => {
                    script.push(format!("read {}", i));
                    used = true;
                    match callv(|| cells[i].borrow().clone()) {
                        Out::Ok(v) if v == vec![val, !val] => {}
                        o => return Some(("lazy/value".into(), format!("read {}", match o { Out::Ok(v) => format!("{:?}", v), o => o.why() }))),
                    }
                    t.ev("reads");
                }
                2 => {
                    // several readers at once, possibly through different clones
                    let n = t.rng.range(2, 4);
                    let who: Vec<usize> = (0..n).map(|_| t.rng.below(cells.len() as u64) as usize).collect();
                    script.push(format!("overlapping reads {:?}", who));
                    used = true;
                    let r = callv(|| {
                        let g: Vec<_> = who.iter().map(|k| cells[*k].borrow()).collect();
                        g.iter().all(|x| **x == vec![val, !val])
                    });
                    match r {
                        Out::Ok(true) => {}
                        o => return Some(("lazy/overlap".into(), format!("overlapping reads {}", match o { Out::Ok(_) => "saw different values".into(), o => o.why() }))),
                    }
                    t.ev("overlapping reads");
                }
                _ => {
                    if cells.len() > 1 {
                        script.push(format!("drop {}", i));
                        cells.remove(i);
                    }
                }
            }
            let want = if used && !forced { 1 } else { 0 };
            if runs.get() != want {
                return Some(("lazy/run-count".into(), format!("the closure ran {} times, expected {}", runs.get(), want)));
            }
        }
        None
    }
    // LazyCell is Clone only if its closure is
    let bad = if forced {
        go::<fn() -> Vec<u64>>(t, LazyCell::from(vec![val, !val]), val, &runs, true, &mut script)
    } else {
        go(t, LazyCell::new(f), val, &runs, false, &mut script)
    };
    t.case(&format!("forced={} {}", forced, script.join("; ")), true);
    if let Some((k, d)) = bad {
        t.viol(&k, format!("after [{}]: {}", script.join("; "), d));
    }
}
pub fn c19(r: &Run) -> i32 {
    r.par("lazy", r.n(200000, 4000000), lazy_case);
    r.finish(
        "histories of up to 8 clones, reads, overlapping reads and drops on lazily computed and pre-computed cells; distinct = distinct histories",
        &["single-threaded use (the type is not Send)"],
        &[("reads", 10000), ("overlapping reads", 5000)],
    )
}
