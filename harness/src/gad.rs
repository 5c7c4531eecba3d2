//! Monitors for gadgets seen as functions / assertions over field inputs.
use crate::mon::*;
use crate::report::*;
use crate::rng::*;
use crate::solver::Sys;
use bellpepper_core::{num::AllocatedNum, ConstraintSystem, LinearCombination, SynthesisError};
use ff::PrimeField;
use num_bigint::BigInt;

pub type Lin<F> = LinearCombination<F>;
/// output wires: (linear combination, value the returned object reports)
pub type Outs<F> = Vec<(Lin<F>, Option<F>)>;

pub fn anum<F: PrimeField>(cs: &mut MonCS<F>, name: &str, v: F) -> AllocatedNum<F> {
    AllocatedNum::alloc(cs.namespace(|| name.to_string()), || Ok(v)).unwrap()
}
pub fn lc1<F: PrimeField>(a: &AllocatedNum<F>) -> Lin<F> {
    LinearCombination::zero() + a.get_variable()
}
pub fn bool_lc<F: PrimeField>(b: &bellpepper_core::boolean::Boolean) -> Lin<F> {
    b.lc(MonCS::<F>::one(), F::ONE)
}
pub fn bool_out<F: PrimeField>(b: &bellpepper_core::boolean::Boolean) -> (Lin<F>, Option<F>) {
    (bool_lc(b), b.get_value().map(|v| if v { F::ONE } else { F::ZERO }))
}
pub fn hex(n: &BigInt) -> String {
    format!("{:#x}", n)
}
pub fn hx<F: PrimeField>(f: &F) -> String {
    hex(&n_of(f))
}
pub fn hv<F: PrimeField>(v: &[F]) -> String {
    format!("[{}]", v.iter().map(hx).collect::<Vec<_>>().join(","))
}

pub struct Seen<F: PrimeField> {
    pub cs: MonCS<F>,
    pub out: Out<Outs<F>>,
    pub ins: Vec<Vid>,
}
pub type Build<'a, F> = dyn Fn(&mut MonCS<F>, &[AllocatedNum<F>]) -> Result<Outs<F>, SynthesisError> + 'a;

pub fn run_gadget<F: PrimeField>(mut cs: MonCS<F>, inputs: &[F], build: &Build<F>) -> Seen<F> {
    let a: Vec<_> = inputs.iter().enumerate().map(|(i, v)| anum(&mut cs, &format!("harness input {}", i), *v)).collect();
    let ins = a.iter().map(|x| vid(x.get_variable())).collect();
    let out = call(|| build(&mut cs, &a));
    Seen { cs, out, ins }
}

pub struct Hostile {
    pub budget: usize,
    pub tries: usize,
}

/// Function gadget: honest run must be accepted and produce exactly `expect`;
/// the shape must not depend on the witness; no witness may justify another output.
pub fn fun<F: PrimeField>(t: &mut T, what: &str, inputs: &[F], build: &Build<F>, expect: &[F], h: Option<Hostile>) -> bool {
    let desc = || format!("{} on inputs {} (field {} bits)", what, hv(inputs), F::NUM_BITS);
    let s = run_gadget(MonCS::wit(), inputs, build);
    t.evn("constraints checked", s.cs.cons.len() as u64);
    let outs = match &s.out {
        Out::Ok(o) => o,
        o => {
            t.viol(&format!("{}/rejects-valid", what), format!("{}: honest synthesis {}", desc(), o.why()));
            return false;
        }
    };
    t.ev("honest runs accepted");
    if !s.cs.sat() {
        t.viol(&format!("{}/honest-unsat", what), format!("{}: honest witness does not satisfy the emitted constraints", desc()));
        return false;
    }
    if outs.len() != expect.len() {
        t.viol(&format!("{}/arity", what), format!("{}: {} outputs, expected {}", desc(), outs.len(), expect.len()));
        return false;
    }
    for (i, ((lc, v), e)) in outs.iter().zip(expect).enumerate() {
        let w = s.cs.eval_lc(lc);
        t.ev("output wires compared with the reference");
        if w != *e {
            t.viol(&format!("{}/wrong-output", what), format!("{}: output {} is {} on the wires, reference says {}", desc(), i, hx(&w), hx(e)));
            return false;
        }
        if v.is_some() && *v != Some(*e) {
            t.viol(&format!("{}/wrong-value", what), format!("{}: output {} reports value {}, wires and reference say {}", desc(), i, hx(&v.unwrap()), hx(e)));
            return false;
        }
        if v.is_none() {
            t.viol(&format!("{}/lost-value", what), format!("{}: output {} reports no value although every input has one", desc(), i));
            return false;
        }
    }
    if let Some(h) = h {
        let mut base = Sys::new(&s.cs);
        let def = base.defaults(&s.cs);
        if !outs.is_empty() {
            let ins: Vec<usize> = s.ins.iter().map(|v| base.idx(*v)).collect();
            let w = wrong_turns(t, &base, &def, &ins, t.turns.max(4 * h.tries), &mut |f| outs.iter().zip(expect).any(|(o, e)| lc_of(&o.0).iter().map(|(v, c)| f[base.idx(*v)] * c).sum::<F>() != *e));
            if let Some((i, w)) = w {
                t.viol(
                    &format!("{}/forged-output", what),
                    format!("{}: a witness satisfying all {} constraints, reached by changing variable {}, gives other outputs; forged assignment {}", desc(), base.cons.len(), i, hv(&w)),
                );
                return false;
            }
        }
        let mut known = vec![None; def.len()];
        for v in &s.ins {
            let i = base.idx(*v);
            known[i] = Some(def[i]);
        }
        // the copies of public inputs allocated by the gadget itself stay free
        for k in 0..h.tries {
            let i = t.rng.below(outs.len().max(1) as u64) as usize;
            if outs.is_empty() {
                break;
            }
            let lc = lc_of(&outs[i].0);
            if lc.iter().all(|x| x.0 == 0 || s.ins.contains(&x.0)) {
                continue; // constant, or an input itself: nothing to forge
            }
            let e = expect[i];
            let wrong = if (e == F::ZERO || e == F::ONE) && k == 0 {
                F::ONE - e
            } else {
                match k % 4 {
                    0 => e + F::ONE,
                    1 => e - F::ONE,
                    2 => e + t.rng.field::<F>(),
                    _ => {
                        let b = t.rng.below(F::NUM_BITS as u64 - 1) as u32;
                        e + F::from(2u64).pow_vartime([b as u64])
                    }
                }
            };
            if wrong == e {
                continue;
            }
            let mark = base.mark();
            base.force(&lc, wrong);
            t.ev("hostile witnesses sought");
            let got = base.solve(&known, &def, &mut t.rng, h.budget);
            base.reset(mark);
            if let Some(w) = got {
                if !base.check(&w) {
                    continue;
                }
                t.viol(
                    &format!("{}/forged-output", what),
                    format!("{}: a witness satisfying all {} constraints makes output {} equal {} (the true value is {}); forged assignment {}", desc(), base.cons.len(), i, hx(&wrong), hx(&e), hv(&w)),
                );
                return false;
            }
        }
    }
    true
}

/// Another value for one variable, everything before it as it was, everything after it as it
/// follows: assignments that satisfy every constraint are handed to `bad`.
pub fn wrong_turns<F: PrimeField>(t: &mut T, sys: &Sys<F>, def: &[F], ins: &[usize], tries: usize, bad: &mut dyn FnMut(&[F]) -> bool) -> Option<(usize, Vec<F>)> {
    let violated = sys.violated(def);
    let wide: Vec<usize> = sys.wide().into_iter().filter(|i| !ins.contains(i)).collect();
    let all: Vec<usize> = (1..def.len()).filter(|i| !ins.contains(i)).collect();
    if all.is_empty() {
        return None;
    }
    for _ in 0..tries {
        let i = if !wide.is_empty() && t.rng.chance(4, 5) { *t.rng.pick(&wide) } else { *t.rng.pick(&all) };
        let x = other_value(t, def, i);
        if x == def[i] {
            continue;
        }
        t.ev("wrong turns tried");
        let back = if t.rng.chance(1, 4) { t.rng.range(1, 5) } else { 0 };
        if let Some(w) = sys.cascade(def, &violated, &|v| ins.contains(&v), i, Some(x), &[], back, &mut t.rng, if back > 0 { 40 } else { 12 }) {
            t.ev("wrong turns the constraints allow");
            if bad(&w) && sys.check(&w) {
                return Some((i, w));
            }
        }
    }
    None
}
pub fn other_value<F: PrimeField>(t: &mut T, def: &[F], i: usize) -> F {
    let x = def[i];
    if (x == F::ZERO || x == F::ONE) && t.rng.chance(1, 2) {
        return F::ONE - x;
    }
    match t.rng.below(11) {
        9 => {
            let k = t.rng.range(1, 64);
            f_of(&t.rng.big_bits(k))
        }
        10 => {
            let near = def[1 + t.rng.below((def.len() as u64 - 1).min(24)) as usize];
            near + F::from(t.rng.below(3)) - F::ONE
        }
        0 => x + F::ONE,
        1 => x - F::ONE,
        2 => -x,
        3 => F::ZERO,
        4 => F::ONE,
        5 => F::from(t.rng.below(20)) * if t.rng.chance(1, 2) { F::ONE } else { -F::ONE },
        6 => x + F::from(2u64).pow_vartime([t.rng.below(F::NUM_BITS as u64 - 1)]),
        7 => def[t.rng.below(def.len() as u64) as usize],
        _ => t.rng.field(),
    }
}

fn norm<F: PrimeField>(mut l: Lc<F>) -> Lc<F> {
    l.sort_by_key(|x| x.0);
    let mut o: Lc<F> = vec![];
    for (v, c) in l {
        match o.last_mut() {
            Some(x) if x.0 == v => x.1 += c,
            _ => o.push((v, c)),
        }
    }
    o.retain(|x| !bool::from(x.1.is_zero()));
    o
}

/// Same circuit whatever the witness, and without any witness at all.
pub fn shape<F: PrimeField>(t: &mut T, what: &str, a: &[F], b: &[F], build: &Build<F>) -> bool {
    let s1 = run_gadget(MonCS::wit(), a, build);
    let s2 = run_gadget(MonCS::wit(), b, build);
    let s3 = run_gadget(MonCS::shape(), a, build);
    if let Out::Ok(_) = &s3.out {
        t.ev("setup-mode (witness-free) syntheses completed");
    } else {
        t.viol(&format!("{}/setup-fails", what), format!("{}: witness-free synthesis (parameter setup) {}", what, s3.out.why()));
        return false;
    }
    for (n, s) in [("first", &s1), ("second", &s2)] {
        if let Out::Ok(_) = &s.out {
            t.ev("shape digests compared");
            if let (Out::Ok(x), Out::Ok(y)) = (&s.out, &s3.out) {
                let k = |o: &Outs<F>| o.iter().map(|(l, _)| norm(lc_of(l))).collect::<Vec<_>>();
                if k(x) != k(y) {
                    t.viol(&format!("{}/outputs-differ", what), format!("{}: the output wires with the {} witness {} are not those of parameter setup", what, n, hv(if n == "first" { a } else { b })));
                    return false;
                }
            }
            if s.cs.shape_digest() != s3.cs.shape_digest() {
                t.viol(
                    &format!("{}/shape-differs", what),
                    format!("{}: circuit synthesized with the {} witness {} differs from the one parameter setup produces: {:?} vs {:?} (inputs, aux, constraints, digest)", what, n, hv(if n == "first" { a } else { b }), s.cs.shape_digest(), s3.cs.shape_digest()),
                );
                return false;
            }
        }
    }
    true
}

/// Assertion gadget: on inputs where the asserted relation is false nothing may be accepted.
pub fn must_reject<F: PrimeField>(t: &mut T, what: &str, inputs: &[F], build: &Build<F>, hostile: Option<usize>) -> bool {
    let desc = || format!("{} on inputs {} (field {} bits)", what, hv(inputs), F::NUM_BITS);
    let s = run_gadget(MonCS::wit(), inputs, build);
    if let Out::Ok(_) = &s.out {
        if s.cs.sat() {
            t.viol(&format!("{}/accepts-invalid", what), format!("{}: the asserted relation is false, yet honest synthesis satisfies every constraint", desc()));
            return false;
        }
        t.ev("invalid runs left unsatisfied");
    } else {
        t.ev("invalid runs refused by synthesis");
    }
    if let Some(budget) = hostile {
        let s = if let Out::Ok(_) = &s.out { s } else { run_gadget(MonCS::shape(), inputs, build) };
        if let Out::Ok(_) = &s.out {
        } else {
            return true;
        }
        let sys = Sys::new(&s.cs);
        let mut def = sys.defaults(&s.cs);
        let mut known = vec![None; def.len()];
        for (v, x) in s.ins.iter().zip(inputs) {
            let i = sys.idx(*v);
            known[i] = Some(*x);
            def[i] = *x;
        }
        t.ev("hostile witnesses sought");
        if let Some(w) = sys.solve(&known, &def, &mut t.rng, budget) {
            t.viol(&format!("{}/forged-acceptance", what), format!("{}: the asserted relation is false, but the assignment {} satisfies all {} constraints", desc(), hv(&w), sys.cons.len()));
            return false;
        }
        let ins: Vec<usize> = s.ins.iter().map(|v| sys.idx(*v)).collect();
        if let Some((_, w)) = wrong_turns(t, &sys, &def, &ins, t.turns, &mut |_| true) {
            t.viol(&format!("{}/forged-acceptance", what), format!("{}: the asserted relation is false, but the assignment {} satisfies all {} constraints", desc(), hv(&w), sys.cons.len()));
            return false;
        }
    }
    true
}

/// Assertion gadget on inputs where the relation holds.
pub fn must_accept<F: PrimeField>(t: &mut T, what: &str, inputs: &[F], build: &Build<F>) -> bool {
    fun(t, what, inputs, &|cs, a| build(cs, a).map(|_| vec![]), &[], None)
}
