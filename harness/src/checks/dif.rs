//! C06 median timestamp, C07 difficulty update.
use super::bn::{b, pow2, split};
use crate::fields::*;
use crate::gad::*;
use crate::mon::*;
use crate::report::*;
use crate::rng::*;
use crate::solver::{splice, transplant, Sys};
use bellpepper_core::num::AllocatedNum;
use bellpepper_core::{ConstraintSystem, LinearCombination};
use ff::PrimeField;
use num_bigint::BigInt;
use validate_btc_header::btc_validation::difficulty_update::{calculate_difficulty_update, verify_difficulty_update};
use validate_btc_header::mp::bignat::BigNat;
use validate_btc_header::util::num::Num;
use validate_btc_header::btc_validation::median::{compute_median_timestamp, verify_median_of, verify_median_timestamp};

// ---------------------------------------------------------------- C06
/// timestamps with ties, runs, extremes; and a candidate median
fn stamps(t: &mut T, n: usize) -> Vec<u32> {
    let style = t.rng.below(6);
    let base = t.rng.u32();
    (0..n)
        .map(|_| match style {
            0 => t.rng.u32(),
            1 => base.wrapping_add(t.rng.below(4) as u32),
            2 => *t.rng.pick(&[0u32, 1, u32::MAX, u32::MAX - 1, 1 << 31, (1 << 31) - 1]),
            3 => t.rng.below(3) as u32,
            4 => 1_300_000_000 + t.rng.below(20000) as u32,
            _ => {
                if t.rng.chance(1, 2) {
                    base
                } else {
                    t.rng.u32()
                }
            }
        })
        .collect()
}
fn candidate(t: &mut T, v: &[u32]) -> u32 {
    let mut s = v.to_vec();
    s.sort_unstable();
    let mid = s.len() / 2;
    match t.rng.below(8) {
        0 | 1 | 2 => s[mid],
        3 => s[if mid > 0 { mid - 1 } else { 0 }],
        4 => s[(mid + 1).min(s.len() - 1)],
        5 => s[mid].wrapping_add(1),
        6 => *t.rng.pick(&s),
        _ => t.rng.u32(),
    }
}
/// a value is the median of an odd number of values when at most half lie on either side
fn is_median(v: &[u32], m: u32) -> bool {
    let n = v.len();
    let lt = v.iter().filter(|x| **x < m).count();
    let gt = v.iter().filter(|x| **x > m).count();
    2 * lt < n && 2 * gt < n && v.contains(&m)
}

/// long lists, among them those lopsided as far as they can be
fn long_case(t: &mut T, top: usize) {
    let n = 2 * (if t.rng.chance(1, 3) { top } else { t.rng.range(8, top) }) + 1;
    let mut v = stamps(t, n);
    let m = match t.rng.below(4) {
        0 => candidate(t, &v),
        1 => {
            // as many as may be on one side
            let m = 1 + t.rng.below(u32::MAX as u64 - 1) as u32;
            let k = n / 2 + t.rng.below(2) as usize;
            let high = t.rng.chance(1, 2);
            for (i, x) in v.iter_mut().enumerate() {
                *x = match i < k {
                    true if high => m + 1 + t.rng.below((u32::MAX - m) as u64) as u32,
                    true => t.rng.below(m as u64) as u32,
                    false => m,
                };
            }
            for i in (1..n).rev() {
                v.swap(i, t.rng.below(i as u64 + 1) as usize);
            }
            m
        }
        k => {
            // everything on one side, or the candidate once at the end of the order
            let (lo, hi) = (*v.iter().min().unwrap(), *v.iter().max().unwrap());
            let m = if t.rng.chance(1, 2) { lo } else { hi };
            match k {
                2 => m,
                _ if m == lo => lo.saturating_sub(1),
                _ => hi.saturating_add(1),
            }
        }
    };
    let want = is_median(&v, m);
    t.ev("long lists");
    t.ev(if want { "candidate is the median" } else { "candidate is not the median" });
    t.case(&format!("median of {} timestamps {:?}…: {}", n, &v[..8], m), true);
    let e = if want { Pal::from(1) } else { Pal::from(0) };
    let v2 = v.clone();
    fun(t, "verify_median_timestamp", &[], &move |cs, _| Ok(vec![bool_out(&verify_median_timestamp::<Pal, _>(cs.namespace(|| "median"), &mut v2.clone(), m)?)]), &[e], None);
}

fn median_case<F: PrimeField>(t: &mut T, hostile: bool) {
    let n = if t.rng.chance(2, 3) { 11 } else { 2 * t.rng.range(0, 7) + 1 };
    let v = stamps(t, n);
    let m = candidate(t, &v);
    let want = is_median(&v, m);
    t.ev(if want { "candidate is the median" } else { "candidate is not the median" });
    t.case(&format!("median of {:?}: {} F{}", v, m, F::NUM_BITS), n > 1);
    let e = if want { F::ONE } else { F::ZERO };
    if hostile {
        let mut ins: Vec<F> = v.iter().map(|x| F::from(*x as u64)).collect();
        ins.push(F::from(m as u64));
        fun(
            t,
            "verify_median",
            &ins,
            &move |cs, a| Ok(vec![bool_out(&verify_median_of(cs.namespace(|| "median"), &a[..n], &a[n])?)]),
            &[e],
            Some(Hostile { budget: 30, tries: 1 }),
        );
    } else {
        let v2 = v.clone();
        fun(t, "verify_median_timestamp", &[], &move |cs, _| Ok(vec![bool_out(&verify_median_timestamp(cs.namespace(|| "median"), &mut v2.clone(), m)?)]), &[e], None);
    }
}

pub fn c06(r: &Run) -> i32 {
    // every weak ordering of three and (a third of them) five values, every candidate
    r.par("small", 27 * 4 + 3125, |t| {
        let (n, mut k) = if t.idx < 27 * 4 { (3usize, t.idx) } else { (5, t.idx - 27 * 4) };
        let vals = if n == 3 { 3 } else { 5 };
        let m = if n == 3 {
            let m = k % 4;
            k /= 4;
            m
        } else {
            t.rng.below(6)
        } as u32;
        let v: Vec<u32> = (0..n)
            .map(|_| {
                let d = k % vals;
                k /= vals;
                d as u32
            })
            .collect();
        if n == 5 && !t.rng.chance(1, 3) {
            return;
        }
        let want = is_median(&v, m);
        t.case(&format!("small median of {:?}: {}", v, m), true);
        let v2 = v.clone();
        fun(t, "verify_median_timestamp", &[], &move |cs, _| Ok(vec![bool_out(&verify_median_timestamp::<Pal, _>(cs.namespace(|| "median"), &mut v2.clone(), m)?)]), &[if want { Pal::from(1) } else { Pal::from(0) }], None);
    });
    r.par("hostile-pal", r.n(500, 6000), |t| median_case::<Pal>(t, true));
    r.par("hostile-f61", r.n(200, 3000), |t| median_case::<F61>(t, true));
    r.par("honest-pal", r.n(1000, 30000), |t| median_case::<Pal>(t, false));
    r.par("honest-fr", r.n(1000, 30000), |t| median_case::<Fr>(t, false));
    r.par("long", r.n(120, 3000), |t| long_case(t, 40));
    r.par("longer", r.n(30, 300), |t| long_case(t, 150));
    r.par("longest", r.n(6, 60), |t| long_case(t, 700));
    r.par("compute", r.n(3000, 100000), |t| {
        let n = if t.rng.chance(1, 20) { t.rng.range(24, 3000) } else { t.rng.range(1, 24) };
        let v = stamps(t, n);
        let mut s = v.clone();
        s.sort_unstable();
        let mut w = v.clone();
        t.case(&format!("compute_median of {}: {:?}", n, &v[..n.min(24)]), n > 1);
        match callv(|| compute_median_timestamp(&mut w)) {
            Out::Ok(m) if m == s[n / 2] => t.ev("computed medians compared"),
            Out::Ok(m) => t.viol("compute_median/wrong", format!("median of {:?} computed as {}, it is {}", v, m, s[n / 2])),
            o => t.viol("compute_median/panics", format!("compute_median_timestamp({:?}) {}", v, o.why())),
        }
        w.sort_unstable();
        if w != s {
            t.viol("compute_median/loses", format!("compute_median_timestamp({:?}) changed the set of timestamps to {:?}", v, w));
        }
    });
    r.par("shape", r.n(40, 400), |t| {
        let (v, w) = (stamps(t, 11), stamps(t, 11));
        let (m1, m2) = (candidate(t, &v), candidate(t, &w));
        let i1: Vec<Pal> = v.iter().chain([&m1]).map(|x| Pal::from(*x as u64)).collect();
        let i2: Vec<Pal> = w.iter().chain([&m2]).map(|x| Pal::from(*x as u64)).collect();
        shape(t, "verify_median", &i1, &i2, &|cs, a| Ok(vec![bool_out(&verify_median_of(cs.namespace(|| "median"), &a[..11], &a[11])?)]));
    });
    r.wrapping_build();
    r.finish(
        "odd-sized timestamp lists with ties, runs, extremes and 0/2^32-1 (all lists of three small values, a third of all lists of five; lists of up to 1401, lopsided ones among them), against the true median, its neighbours, other members and strangers; distinct = distinct (list, candidate, field)",
        &["timestamps are 32-bit, the number of them is odd (Bitcoin uses 11)", "forgeries are sought with a bounded solver: not finding one is not a proof"],
        &[("hostile witnesses sought", 400), ("candidate is the median", 500), ("candidate is not the median", 500), ("computed medians compared", 1000), ("long lists", 100)],
    )
}

// ---------------------------------------------------------------- C07
pub const SPAN: u64 = 2016 * 600;
pub const SPAN_LO: u64 = SPAN / 4;
pub const SPAN_HI: u64 = SPAN * 4;

fn good_span(t: &mut T) -> u64 {
    match t.rng.below(6) {
        0 => SPAN_LO + 1 + t.rng.below(3),
        1 => SPAN_HI - 1 - t.rng.below(3),
        2 => SPAN - 1 + t.rng.below(3),
        _ => SPAN_LO + 1 + t.rng.below(SPAN_HI - SPAN_LO - 1),
    }
}
fn bad_span(t: &mut T) -> u64 {
    match t.rng.below(7) {
        0 => SPAN_LO - t.rng.below(3),
        1 => SPAN_HI + t.rng.below(3),
        2 => t.rng.below(SPAN_LO),
        3 => SPAN_HI + t.rng.below((1 << 32) - SPAN_HI),
        4 => t.rng.below(3),
        5 => (1 << 32) - 1 - t.rng.below(3),
        _ => 1u64 << t.rng.range(23, 31),
    }
}

fn calc_build<F: PrimeField>(cs: &mut MonCS<F>, a: &[AllocatedNum<F>]) -> Result<Outs<F>, bellpepper_core::SynthesisError> {
    let n = calculate_difficulty_update(cs.namespace(|| "update"), &a[0], &a[1])?;
    let w = n.params.limb_width;
    let mut o: Outs<F> = vec![(LinearCombination::zero(), n.value.as_ref().map(|_| F::ZERO)); 4];
    // 64-bit digits of the result, whatever limbs it is made of, and its value as one number
    let mut sum = LinearCombination::zero();
    for (i, l) in n.limbs.iter().enumerate() {
        sum = sum + (f_of::<F>(&pow2(w * i)), l);
        if w == 64 && i < 4 {
            o[i] = (l.clone(), n.limb_values.as_ref().map(|v| v[i]));
        }
    }
    if w != 64 {
        o.clear();
    }
    o.push((sum, n.value.as_ref().map(f_of)));
    Ok(o)
}

fn prev_target<F: PrimeField>(t: &mut T) -> BigInt {
    match t.rng.below(6) {
        0 => b(0xffff) << 208,
        1 => BigInt::from(t.rng.below(1 << 24)) << (8 * t.rng.range(0, 25)),
        2 => n_of(&t.rng.field::<F>()),
        3 => t.rng.big_corner(224),
        4 => b(t.rng.below(4)),
        _ => t.rng.big_bits(224),
    }
}

fn calc_case<F: PrimeField>(t: &mut T, hostile: bool) {
    let prev = prev_target::<F>(t);
    let s = good_span(t);
    let q: BigInt = &prev * s / SPAN;
    t.case(&format!("calculate prev={} span={} F{}", hex(&prev), s, F::NUM_BITS), true);
    let mut e: Vec<F> = split(&q, 64, 4).iter().map(f_of).collect();
    e.push(f_of(&q));
    fun(t, "calculate_difficulty_update", &[f_of(&prev), F::from(s)], &calc_build, &e, if hostile { Some(Hostile { budget: 60, tries: 2 }) } else { None });
}
/// a handful of quotients only: the constants of the rule are what a forger would bend
fn calc_small<F: PrimeField>(t: &mut T) {
    let prev = b(1 + t.rng.below(12));
    let s = good_span(t);
    let q: BigInt = &prev * s / SPAN;
    let wrong = if t.rng.chance(1, 2) { &q + 1 + t.rng.below(3) } else { b(t.rng.below(6)) };
    if wrong == q {
        return;
    }
    t.case(&format!("forge calculate prev={} span={} as {} F{}", hex(&prev), s, wrong, F::NUM_BITS), true);
    let r = run_gadget(MonCS::<F>::wit(), &[f_of(&prev), F::from(s)], &calc_build);
    let Out::Ok(o) = &r.out else { return };
    let mut sys = Sys::new(&r.cs);
    let def = sys.defaults(&r.cs);
    let mut known = vec![None; def.len()];
    for v in &r.ins {
        known[sys.idx(*v)] = Some(def[sys.idx(*v)]);
    }
    // pin variables that carry a constant of the rule, if there are any, to another value
    let bend = match t.rng.below(4) {
        0 => Some((SPAN, (&prev * s / wrong.clone().max(b(1))))),
        1 => Some((SPAN_LO, b(0))),
        2 => Some((SPAN_HI, pow2(31))),
        _ => None,
    };
    if let Some((c, x)) = bend {
        for (i, a) in r.cs.aux.iter().enumerate() {
            if *a == F::from(c) && c != s {
                known[sys.idx(i as Vid | AUX)] = Some(f_of(&x));
                break;
            }
        }
    }
    sys.force(&lc_of(&o.last().unwrap().0), f_of(&wrong));
    t.ev("hostile witnesses sought");
    if let Some(w) = sys.solve(&known, &def, &mut t.rng, 60) {
        t.viol("calculate_difficulty_update/forged-output", format!("calculate_difficulty_update: previous target {}, span {}: an assignment satisfies every constraint with the new target {} (it is {}): {}", prev, s, wrong, q, hv(&w)));
    }
}
/// Bend the two-week constant: compute the update with another divisor by running the same
/// arithmetic aside, and graft its values into the honest witness.
fn calc_graft<F: PrimeField>(t: &mut T) {
    let prev = prev_target::<F>(t);
    let s = good_span(t);
    let m2 = match t.rng.below(3) {
        0 => 1 + t.rng.below(1 << 30),
        1 => SPAN / 2,
        _ => SPAN - 1,
    };
    let q: BigInt = &prev * s / SPAN;
    let q2: BigInt = &prev * s / m2;
    if q == q2 || q2 >= pow2(255) {
        return;
    }
    let r = run_gadget(MonCS::<F>::wit(), &[f_of(&prev), F::from(s)], &calc_build);
    let Out::Ok(o) = &r.out else { return };
    let sys = Sys::new(&r.cs);
    let def = sys.defaults(&r.cs);
    let mut w = def.clone();
    // the pieces computed aside, with both divisors
    let side = |m: u64| -> Option<(Vec<F>, Vec<F>)> {
        let mut cs = MonCS::<F>::wit();
        let a = anum(&mut cs, "a", f_of::<F>(&prev));
        let c = anum(&mut cs, "b", F::from(s));
        let d = anum(&mut cs, "m", F::from(m));
        let x = BigNat::from_num(cs.namespace(|| "x"), Num::from(a), 64, 4).ok()?;
        let y = BigNat::from_num(cs.namespace(|| "y"), Num::from(c), 64, 1).ok()?;
        let i = cs.aux.len();
        let z = BigNat::from_num(cs.namespace(|| "z"), Num::from(d), 64, 1).ok()?;
        let j = cs.aux.len();
        x.mult_mod(cs.namespace(|| "p"), &y, &z).ok()?;
        Some((cs.aux[i..j].to_vec(), cs.aux[j..].to_vec()))
    };
    let (Out::Ok(Some(a)), Out::Ok(Some(c))) = (callv(|| side(SPAN)), callv(|| side(m2))) else { return };
    let g1 = transplant(&mut w, 0, &a.1, &c.1);
    let lim = g1.unwrap_or(w.len());
    let mut g2 = None;
    if !a.0.is_empty() {
        g2 = transplant(&mut w[..lim], 0, &a.0, &c.0);
    }
    t.case(&format!("graft calculate prev={} span={} divisor {} F{}", hex(&prev), s, m2, F::NUM_BITS), true);
    t.evn("grafts placed", g1.is_some() as u64 + g2.is_some() as u64);
    if g1.is_none() {
        return;
    }
    for i in 1..lim {
        if w[i] == F::from(SPAN) && !r.ins.iter().any(|v| sys.idx(*v) == i) {
            w[i] = F::from(m2);
        }
    }
    let out: F = o.last().unwrap().0.iter().map(|(v, k)| w[sys.idx(vid(v))] * k).sum();
    t.ev("hostile witnesses sought");
    if out != f_of(&q) && sys.check(&w) {
        t.viol("calculate_difficulty_update/forged-output", format!("calculate_difficulty_update: previous target {}, span {}: an assignment that divides by {} instead of 1209600 satisfies every constraint, new target {} (it is {})", hex(&prev), s, m2, hx(&out), hex(&q)));
    }
}
fn calc_bad<F: PrimeField>(t: &mut T, hostile: bool) {
    let prev = prev_target::<F>(t);
    let s = match t.rng.below(5) {
        0 => -F::from(bad_span(t)),
        1 => f_of(&(pow2(t.rng.range(32, 66)) + BigInt::from(good_span(t)))),
        _ => F::from(bad_span(t)),
    };
    t.case(&format!("calculate prev={} bad span={} F{}", hex(&prev), hx(&s), F::NUM_BITS), true);
    let ins = [f_of(&prev), s];
    if must_reject(t, "calculate_difficulty_update", &ins, &calc_build, if hostile { Some(40) } else { None }) && hostile {
        // move the bounds themselves: variables that carry them, if there are any
        let r = run_gadget(MonCS::<F>::wit(), &ins, &calc_build);
        if !matches!(r.out, Out::Ok(_)) {
            return;
        }
        let sys = Sys::new(&r.cs);
        let def = sys.defaults(&r.cs);
        let ins: Vec<usize> = r.ins.iter().map(|v| sys.idx(*v)).collect();
        if let Some(w) = move_constants(t, &sys, &def, &ins, s, SPAN) {
            t.viol("calculate_difficulty_update/forged-acceptance", format!("calculate_difficulty_update: an assignment satisfies every constraint for previous target {} and the forbidden span {}: {}", hex(&prev), hx(&s), hv(&w)));
        }
    }
}
/// Give a variable that carries a bound or the divisor another value, and let the rest follow.
fn move_constants<F: PrimeField>(t: &mut T, sys: &Sys<F>, def: &[F], ins: &[usize], s: F, divisor: u64) -> Option<Vec<F>> {
    let violated = sys.violated(def);
    for (c, xs) in [(SPAN_LO, [s - F::ONE, F::ZERO]), (SPAN_HI, [s + F::ONE, F::from(u32::MAX as u64)]), (SPAN, [F::from(divisor), F::ONE])] {
        if c == SPAN && divisor == SPAN {
            continue;
        }
        for i in (1..def.len()).filter(|i| def[*i] == F::from(c) && !ins.contains(i)).take(3) {
            for x in xs {
                t.ev("bounds moved");
                if let Some(w) = sys.cascade(def, &violated, &|v| ins.contains(&v), i, Some(x), &[], 0, &mut t.rng, 60) {
                    return Some(w);
                }
            }
        }
    }
    None
}

type V = (u128, u128, u128, u128, u32);
fn verify_run<F: PrimeField>(mut cs: MonCS<F>, v: V) -> (MonCS<F>, Out<()>) {
    let o = callv(|| verify_difficulty_update(cs.namespace(|| "verify"), v.0, v.1, v.2, v.3, v.4));
    (cs, o)
}
fn u128_of(n: &BigInt) -> u128 {
    let (_, d) = n.to_u64_digits();
    d.first().cloned().unwrap_or(0) as u128 | (d.get(1).cloned().unwrap_or(0) as u128) << 64
}
fn mk(cur: &BigInt, prev: &BigInt, s: u64) -> V {
    (u128_of(&(cur >> 128)), u128_of(&(cur & (pow2(128) - 1))), u128_of(&(prev >> 128)), u128_of(&(prev & (pow2(128) - 1))), s as u32)
}

fn verify_case<F: PrimeField>(t: &mut T) {
    let prev = if t.rng.chance(1, 3) { t.rng.big_corner(254) } else { prev_target::<F>(t) };
    let good = t.rng.chance(3, 5);
    let s = if good { good_span(t) } else { bad_span(t) };
    let q: BigInt = &prev * s / SPAN;
    if q >= pow2(256) {
        return;
    }
    let cur = match t.rng.below(8) {
        0 => &q + 1,
        1 => (&q + 1) ^ &(b(1) << t.rng.range(0, 250)),
        2 => {
            if q > b(0) {
                &q - 1
            } else {
                b(1)
            }
        }
        3 => {
            let mask = (b(1) << t.rng.range(1, 240)) - 1;
            &q - (&q & mask)
        }
        _ => q.clone(),
    };
    if cur >= pow2(256) || cur < b(0) {
        return;
    }
    let want = cur == q && good;
    t.case(&format!("verify cur={} prev={} span={} F{}", hex(&cur), hex(&prev), s, F::NUM_BITS), true);
    t.ev(if want { "valid updates" } else { "invalid updates" });
    let (cs, o) = verify_run::<F>(MonCS::wit(), mk(&cur, &prev, s));
    let sat = matches!(o, Out::Ok(())) && cs.sat();
    t.evn("constraints checked", cs.cons.len() as u64);
    if sat != want {
        t.viol(
            if want { "verify_difficulty_update/rejects-valid" } else { "verify_difficulty_update/accepts-invalid" },
            format!("verify_difficulty_update of target {} after target {} and a span of {} s: {}, constraints {}; floor(previous x span / 1209600) is {}", hex(&cur), hex(&prev), s, o.why(), if sat { "satisfied" } else { "not satisfied" }, hex(&q)),
        );
    }
}

/// The gadget allocates its own operands: take the first variables that carry
/// them, pin those to an invalid update, and let the solver do the rest.
fn verify_hostile<F: PrimeField>(t: &mut T) {
    let prev = t.rng.big_bits(253);
    let s = good_span(t);
    let q: BigInt = &prev * s / SPAN;
    if q >= pow2(255) {
        return;
    }
    let v = mk(&q, &prev, s);
    let (cs, o) = verify_run::<F>(MonCS::wit(), v);
    if !matches!(o, Out::Ok(())) || !cs.sat() {
        return;
    }
    let sys = Sys::new(&cs);
    let mut def = sys.defaults(&cs);
    let mut known = vec![None; def.len()];
    // the new update is invalid in one respect
    let mut m2 = SPAN;
    let bad = match t.rng.below(4) {
        3 => {
            m2 = 1 + t.rng.below(1 << 30);
            let q2: BigInt = &prev * s / m2;
            if q2 == q || q2 >= pow2(256) {
                return;
            }
            mk(&q2, &prev, s)
        }
        0 => mk(&(&q + 1 + t.rng.below(3)), &prev, s),
        1 => {
            let s2 = bad_span(t);
            let q2: BigInt = &prev * s2 / SPAN;
            if q2 >= pow2(256) {
                return;
            }
            mk(&q2, &prev, s2)
        }
        _ => mk(&q, &prev, if s > SPAN_LO + 100 { s - 99 } else { s + 99 }),
    };
    let old = [f_of::<F>(&BigInt::from(v.0)), f_of(&BigInt::from(v.1)), f_of(&BigInt::from(v.2)), f_of(&BigInt::from(v.3)), F::from(v.4 as u64)];
    let new = [f_of::<F>(&BigInt::from(bad.0)), f_of(&BigInt::from(bad.1)), f_of(&BigInt::from(bad.2)), f_of(&BigInt::from(bad.3)), F::from(bad.4 as u64)];
    // operands are found by their values: those must be telling
    let telling = |c: &[F; 5]| (0..5).all(|i| !c[..i].contains(&c[i])) && c.iter().all(|x| n_of(x) > b(1) && [SPAN, SPAN_LO, SPAN_HI].iter().all(|k| *x != F::from(*k)));
    if !telling(&old) {
        return;
    }
    for (x, y) in old.iter().zip(&new) {
        let Some(i) = cs.aux.iter().position(|a| a == x) else { return };
        let k = sys.idx(i as Vid | AUX);
        known[k] = Some(*y);
        def[k] = *y;
    }
    t.case(&format!("hostile verify {:?} F{}", bad, F::NUM_BITS), true);
    {
        let (cs2, o2) = verify_run::<F>(MonCS::wit(), bad);
        if matches!(o2, Out::Ok(())) && cs2.shape_digest() == cs.shape_digest() {
            let sys = Sys::new(&cs2);
            let def = sys.defaults(&cs2);
            let ins: Vec<usize> = (0..known.len()).filter(|i| known[*i].is_some()).collect();
            if ins.iter().all(|i| Some(def[*i]) == known[*i]) {
                if let Some(w) = move_constants(t, &sys, &def, &ins, F::from(bad.4 as u64), m2).or_else(|| wrong_turns(t, &sys, &def, &ins, 60, &mut |_| true).map(|x| x.1)) {
                    t.viol("verify_difficulty_update/forged-acceptance", format!("an assignment satisfies every constraint of verify_difficulty_update for (target upper, lower, previous upper, lower, span) = {:?}, an invalid update: {}", bad, hv(&w)));
                    return;
                }
            }
        }
    }
    t.ev("hostile witnesses sought");
    if let Some(w) = sys.solve(&known, &def, &mut t.rng, 40) {
        t.viol("verify_difficulty_update/forged-acceptance", format!("an assignment satisfies every constraint of verify_difficulty_update for (target upper, lower, previous upper, lower, span) = {:?}, an invalid update: {}", bad, hv(&w)));
    }
}

/// Take the parts of two runs apart that no constraint ties together, and see whether a mix of
/// the two claims, itself an invalid update, is accepted.
fn verify_splice<F: PrimeField>(t: &mut T) {
    let mut claim = vec![];
    let mut runs = vec![];
    for k in 0..2 {
        let prev = t.rng.big_bits(253);
        let s = if k == 1 && t.rng.chance(1, 2) { bad_span(t) } else { good_span(t) };
        let q: BigInt = &prev * s / SPAN;
        if q >= pow2(255) || s < 16 {
            return;
        }
        let v = mk(&q, &prev, s);
        let (cs, o) = verify_run::<F>(MonCS::wit(), v);
        if !matches!(o, Out::Ok(())) {
            return;
        }
        claim.push([f_of::<F>(&BigInt::from(v.0)), f_of(&BigInt::from(v.1)), f_of(&BigInt::from(v.2)), f_of(&BigInt::from(v.3)), F::from(v.4 as u64)]);
        runs.push((cs, q, prev, s));
    }
    if !runs[0].0.sat() || runs[0].0.shape_digest() != runs[1].0.shape_digest() {
        return;
    }
    let sys = Sys::new(&runs[0].0);
    let (w1, w2) = (sys.defaults(&runs[0].0), sys.defaults(&runs[1].0));
    let sp = splice(&sys, &w1, &w2);
    let mut pos = vec![];
    let pair = |k: usize| (claim[0][k], claim[1][k]);
    if (0..5).any(|k| (0..k).any(|j| pair(j) == pair(k)) || [SPAN, SPAN_LO, SPAN_HI, 0, 1].iter().any(|c| pair(k) == (F::from(*c), F::from(*c)))) {
        return;
    }
    for k in 0..5 {
        match (1..w1.len()).find(|i| w1[*i] == claim[0][k] && w2[*i] == claim[1][k]) {
            Some(i) => pos.push(i),
            None => return,
        }
    }
    t.case(&format!("splice verify {:?} / {:?} F{}", claim[0].map(|x| hx(&x)), claim[1].map(|x| hx(&x)), F::NUM_BITS), true);
    t.ev("pairs of runs spliced");
    let mut cs: Vec<usize> = pos.iter().filter_map(|p| sp.comp.get(p).cloned()).filter(|c| sp.ok[*c]).collect();
    cs.sort_unstable();
    cs.dedup();
    t.evn("separable components carrying operands", cs.len() as u64);
    for m in 1..1usize << cs.len() {
        let sel: Vec<usize> = (0..cs.len()).filter(|i| m >> i & 1 == 1).map(|i| cs[i]).collect();
        let w = sp.take(&w1, &w2, &sel);
        let f = |i: usize| n_of(&w[pos[i]]);
        let (cur, prev, s) = ((f(0) << 128) + f(1), (f(2) << 128) + f(3), f(4));
        let valid = s > b(SPAN_LO) && s < b(SPAN_HI) && cur == &prev * &s / SPAN;
        if !valid && sys.check(&w) {
            t.viol("verify_difficulty_update/forged-acceptance", format!("an assignment satisfies every constraint of verify_difficulty_update for target {}, previous target {}, span {}: parts of the runs ({}, {}, {}) and ({}, {}, {}) are not tied together", hex(&cur), hex(&prev), s, hex(&runs[0].1), hex(&runs[0].2), runs[0].3, hex(&runs[1].1), hex(&runs[1].2), runs[1].3));
            return;
        }
    }
}

pub fn c07(r: &Run) -> i32 {
    r.par("calc-pal", r.n(400, 10000), |t| calc_case::<Pal>(t, false));
    r.par("calc-fr", r.n(200, 5000), |t| calc_case::<Fr>(t, false));
    r.par("calc-hostile", r.n(100, 1500), |t| {
        t.turns = 40;
        calc_case::<Pal>(t, true)
    });
    r.par("calc-small", r.n(200, 4000), |t| calc_small::<Pal>(t));
    r.par("calc-small-f127", r.n(100, 4000), |t| calc_small::<F127>(t));
    r.par("calc-graft", r.n(100, 2000), |t| calc_graft::<Pal>(t));
    r.par("verify-splice", r.n(100, 2000), |t| verify_splice::<Pal>(t));
    r.par("calc-bad", r.n(200, 5000), |t| calc_bad::<Pal>(t, false));
    r.par("calc-bad-hostile", r.n(200, 3000), |t| {
        t.turns = 60;
        calc_bad::<Pal>(t, true)
    });
    r.par("verify-pal", r.n(500, 10000), |t| verify_case::<Pal>(t));
    r.par("verify-fr", r.n(300, 10000), |t| verify_case::<Fr>(t));
    r.par("verify-hostile", r.n(160, 3000), |t| verify_hostile::<Pal>(t));
    r.par("verify-hostile-fr", r.n(30, 1000), |t| verify_hostile::<Fr>(t));
    r.par("shape", r.n(20, 200), |t| {
        let (p1, p2) = (prev_target::<Pal>(t), prev_target::<Pal>(t));
        let (s1, s2) = (good_span(t), bad_span(t));
        shape(t, "calculate_difficulty_update", &[f_of(&p1), Pal::from(s1)], &[f_of(&p2), Pal::from(s2)], &calc_build);
        let (c1, o1) = verify_run::<Pal>(MonCS::wit(), mk(&p1, &p2, s1));
        let (c2, o2) = verify_run::<Pal>(MonCS::shape(), mk(&p2, &p1, s2));
        if !matches!(o2, Out::Ok(())) {
            t.viol("verify_difficulty_update/setup-fails", format!("witness-free synthesis of verify_difficulty_update {}", o2.why()));
        } else if matches!(o1, Out::Ok(())) {
            t.ev("shape digests compared");
            if c1.shape_digest() != c2.shape_digest() {
                t.viol("verify_difficulty_update/shape-differs", "the circuit of verify_difficulty_update depends on its witness".into());
            }
        }
    });
    r.wrapping_build();
    r.finish(
        "previous targets (maximum target, compact-form, corner, arbitrary field elements) x spans on, next to, inside and outside the permitted interval (also negative and oversized field elements) x right, off-by-one, bit-flipped and truncated new targets; distinct = distinct operands",
        &["an update is valid exactly when a quarter of two weeks < span < four times two weeks (strictly, as the code documents) and target = floor(previous x span / 1209600)", "forgeries are sought with a bounded solver: not finding one is not a proof"],
        &[("hostile witnesses sought", 100), ("valid updates", 100), ("invalid updates", 100), ("honest runs accepted", 300)],
    )
}
