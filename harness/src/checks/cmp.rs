//! C05 comparisons, C08 equality tests.
use crate::fields::*;
use crate::gad::*;
use crate::report::*;
use crate::rng::*;
use ff::PrimeField;
use num_bigint::BigInt;
use validate_btc_header::btc_validation::median::{leq, less_than};
use validate_btc_header::mp::bignat::BigNat;
use bellpepper_core::ConstraintSystem;

fn pair(t: &mut T, bits: usize) -> (BigInt, BigInt) {
    let top = BigInt::from(1) << bits;
    let a = t.rng.big_corner(bits);
    let b = match t.rng.below(6) {
        0 => a.clone(),
        1 => &a + 1,
        2 => &a - 1,
        3 => {
            // agree on a high prefix, differ below
            let k = t.rng.below(bits as u64 + 1) as usize;
            ((&a >> k) << k) + t.rng.big_bits(k)
        }
        _ => t.rng.big_corner(bits),
    };
    let b = if b < BigInt::from(0) || b >= top { t.rng.big_bits(bits) } else { b };
    (a, b)
}

fn cmp_case<F: PrimeField>(t: &mut T, hostile: bool) {
    let maxw = F::NUM_BITS as usize - 3;
    let n = match t.rng.below(6) {
        0 => 32.min(maxw),
        1 => 224.min(maxw),
        2 => t.rng.range(1, 8.min(maxw)),
        3 => (*t.rng.pick(&[63usize, 64, 65, 125, 126, 127, 128, 129, 130, 192, 250])).min(maxw),
        _ => t.rng.range(1, maxw),
    };
    let (a, b) = pair(t, n);
    let strict = t.rng.chance(1, 2);
    let want = if strict { a < b } else { a <= b };
    let (fa, fb) = (f_of::<F>(&a), f_of::<F>(&b));
    let what = if strict { "less_than" } else { "leq" };
    t.case(&format!("{} n_bits={} a={} b={} field={}", what, n, hex(&a), hex(&b), F::NUM_BITS), true);
    t.ev(if a == b { "operands equal" } else { "operands differ" });
    let e = if want { F::ONE } else { F::ZERO };
    fun(
        t,
        what,
        &[fa, fb],
        &move |cs, v| {
            let r = if strict { less_than(cs.namespace(|| "cmp"), &v[0], &v[1], n)? } else { leq(cs.namespace(|| "cmp"), &v[0], &v[1], n)? };
            Ok(vec![bool_out(&r)])
        },
        &[e],
        if hostile { Some(Hostile { budget: 40, tries: 2 }) } else { None },
    );
}

pub fn c05(r: &Run) -> i32 {
    r.par("small", 4096, |t| {
        // exhaustive over all operand pairs for widths 1..=4 (plus both relations), then 5
        let mut i = t.idx;
        for n in 1..=5usize {
            let per = 1u64 << (2 * n + 1);
            if i < per {
                let strict = i & 1 == 1;
                let a = (i >> 1) & ((1 << n) - 1);
                let b = (i >> 1) >> n;
                let want = if strict { a < b } else { a <= b };
                let what = if strict { "less_than" } else { "leq" };
                t.case(&format!("{} n_bits={} a={} b={}", what, n, a, b), true);
                fun(
                    t,
                    what,
                    &[Pal::from(a), Pal::from(b)],
                    &move |cs, v| {
                        let r = if strict { less_than(cs.namespace(|| "cmp"), &v[0], &v[1], n)? } else { leq(cs.namespace(|| "cmp"), &v[0], &v[1], n)? };
                        Ok(vec![bool_out(&r)])
                    },
                    &[if want { Pal::from(1) } else { Pal::from(0) }],
                    Some(Hostile { budget: 20, tries: 1 }),
                );
                return;
            }
            i -= per;
        }
    });
    let h = r.n(1500, 20000);
    r.par("hostile-pal", h, |t| cmp_case::<Pal>(t, true));
    r.par("hostile-fr", h / 2, |t| cmp_case::<Fr>(t, true));
    r.par("hostile-f127", h / 2, |t| cmp_case::<F127>(t, true));
    r.par("hostile-f61", h / 2, |t| cmp_case::<F61>(t, true));
    let n = r.n(30000, 600000);
    r.par("honest-pal", n, |t| cmp_case::<Pal>(t, false));
    r.par("honest-fr", n, |t| cmp_case::<Fr>(t, false));
    r.wrapping_build();
    r.finish(
        "operand pairs below 2^n for every width n (all pairs for n<=5; corner-heavy and near-equal pairs otherwise) over Pallas, BLS12-381 and two small fields; distinct = distinct (gadget, width, operands, field)",
        &["operands are below 2^n_bits, the documented precondition", "forgeries are sought with a bounded solver: not finding one is not a proof"],
        &[("hostile witnesses sought", 500), ("output wires compared with the reference", 5000)],
    )
}

fn eq_case<F: PrimeField>(t: &mut T) {
    let a: F = if t.rng.chance(1, 3) { f_of(&t.rng.big_corner(F::CAPACITY as usize)) } else { t.rng.field() };
    let b = match t.rng.below(5) {
        0 | 1 => a,
        2 => a + F::ONE,
        3 => -a,
        _ => t.rng.field(),
    };
    t.case(&format!("equals a={} b={} field={}", hx(&a), hx(&b), F::NUM_BITS), true);
    t.ev(if a == b { "operands equal" } else { "operands differ" });
    fun(
        t,
        "equals",
        &[a, b],
        &|cs, v| Ok(vec![bool_out(&BigNat::equals(cs.namespace(|| "eq"), &v[0], &v[1])?)]),
        &[if a == b { F::ONE } else { F::ZERO }],
        Some(Hostile { budget: 40, tries: 2 }),
    );
}

fn lim<F: PrimeField>(v: &[bellpepper_core::num::AllocatedNum<F>], w: usize, lo: usize, n: usize) -> BigNat<F> {
    let limbs = v[lo..lo + n].iter().map(|x| validate_btc_header::util::num::Num::from(x.clone())).collect();
    BigNat::from_limbs(limbs, w)
}

fn is_equal_case<F: PrimeField>(t: &mut T) {
    let n = t.rng.size(1, 6, 40);
    let w = t.rng.range(1, 40);
    let mut a: Vec<F> = (0..n).map(|_| f_of(&t.rng.big_corner(w))).collect();
    let mut b = a.clone();
    if t.rng.chance(2, 3) {
        // differ in one, several or all limbs; also carried-equal but limb-different
        let k = t.rng.range(0, n - 1);
        match t.rng.below(4) {
            0 => b[k] = f_of(&t.rng.big_corner(w)),
            1 => b[k] += F::ONE,
            2 => b = (0..n).map(|_| f_of(&t.rng.big_corner(w))).collect(),
            _ => {
                if n > 1 {
                    let i = t.rng.range(0, n - 2);
                    let x = f_of::<F>(&(BigInt::from(1) << w));
                    a[i] += x;
                    b[i + 1] += F::ONE;
                } else {
                    b[0] -= F::ONE;
                }
            }
        }
    }
    let want = a == b;
    t.case(&format!("is_equal w={} a={} b={}", w, hv(&a), hv(&b)), true);
    t.ev(if want { "operands equal" } else { "operands differ" });
    let ins: Vec<F> = a.iter().chain(b.iter()).cloned().collect();
    fun(
        t,
        "is_equal",
        &ins,
        &move |cs, v| {
            let x = lim(v, w, 0, n);
            let y = lim(v, w, n, n);
            Ok(vec![bool_out(&x.is_equal(cs.namespace(|| "is_equal"), &y)?)])
        },
        &[if want { F::ONE } else { F::ZERO }],
        Some(Hostile { budget: 60, tries: 2 }),
    );
}

pub fn c08(r: &Run) -> i32 {
    let n = r.n(15000, 200000);
    r.par("equals-pal", n, |t| eq_case::<Pal>(t));
    r.par("equals-fr", n, |t| eq_case::<Fr>(t));
    r.par("equals-f61", n, |t| eq_case::<F61>(t));
    r.par("is-equal-pal", n, |t| is_equal_case::<Pal>(t));
    r.par("is-equal-f61", n, |t| is_equal_case::<F61>(t));
    r.finish(
        "random, corner, equal, off-by-one and negated operand pairs, limb vectors differing in one/several/all limbs; distinct = distinct operands",
        &["forgeries are sought with a bounded solver: not finding one is not a proof"],
        &[("hostile witnesses sought", 500), ("operands equal", 500), ("operands differ", 500)],
    )
}
