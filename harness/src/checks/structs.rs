//! C13 representation bounds, C14 structural operations (both over random programs),
//! C17 selection and exposure gadgets, C18 bit vectors, C16 polynomials.
use super::bn::*;
use crate::fields::*;
use crate::gad::*;
use crate::mon::*;
use crate::report::*;
use crate::rng::*;
use bellpepper_core::num::AllocatedNum;
use bellpepper_core::{ConstraintSystem, LinearCombination, SynthesisError};
use ff::PrimeField;
use num_bigint::BigInt;
use validate_btc_header::mp::bignat::BigNat;
use validate_btc_header::util::bit::{Bit, Bitvector};
use validate_btc_header::util::gadget::Gadget;
use validate_btc_header::util::num::Num;

// ---------------------------------------------------------------- C13 / C14 program runner
#[derive(Clone, Copy, PartialEq)]
enum Watch {
    /// bounds, bookkeeping and cached values
    Meta,
    /// the integer denoted
    Meaning,
}
struct Item<F: PrimeField> {
    g: BigNat<F>,
    l: Vec<BigInt>,
    w: usize,
    log: String,
}
fn word_cap<F: PrimeField>() -> BigInt {
    pow2(F::CAPACITY as usize - 4)
}
fn canonical(l: &[BigInt], w: usize) -> bool {
    l.iter().all(|x| *x < pow2(w))
}
fn declared_canonical<F: PrimeField>(g: &BigNat<F>) -> bool {
    g.params.max_word < pow2(g.params.limb_width)
}

struct Prog<'a, 'b, F: PrimeField> {
    t: &'a mut T<'b>,
    cs: MonCS<F>,
    watch: Watch,
    valued: bool,
    pool: Vec<Item<F>>,
    script: Vec<String>,
    dead: bool,
}
impl<'a, 'b, F: PrimeField> Prog<'a, 'b, F> {
    fn fail(&mut self, key: &str, d: String) {
        let s = self.script.join("; ");
        self.t.viol(key, format!("after [{}] (field {} bits{}): {}", s, F::NUM_BITS, if self.valued { "" } else { ", no witness" }, d));
        self.dead = true;
    }
    /// run one operation under observation and put its result into the pool
    fn step(&mut self, log: String, kind: &str, out: Out<BigNat<F>>, l: Vec<BigInt>, w: usize) {
        self.script.push(log.clone());
        let g = match out {
            Out::Ok(g) => g,
            o => {
                self.fail(&format!("{}/refused", kind), format!("{} {}", log, o.why()));
                return;
            }
        };
        self.t.ev(&format!("results of {}", kind));
        self.monitor(kind, &g, &l, w);
        if !self.dead {
            let i = self.pool.len();
            self.pool.push(Item { g, l, w, log: format!("x{}", i) });
        }
    }
    fn monitor(&mut self, kind: &str, g: &BigNat<F>, l: &[BigInt], w: usize) {
        let p = g.params.clone();
        let wires: Vec<BigInt> = if self.valued { g.limbs.iter().map(|x| n_of(&self.cs.eval_lc(x))).collect() } else { vec![] };
        self.t.ev("representations inspected");
        match self.watch {
            Watch::Meta => {
                if p.n_limbs != g.limbs.len() || p.limb_width != w {
                    return self.fail(&format!("{}/layout", kind), format!("declares {} limbs of width {}, has {} of width {}", p.n_limbs, p.limb_width, g.limbs.len(), w));
                }
                if let Some(v) = &g.limb_values {
                    if v.len() != g.limbs.len() {
                        return self.fail(&format!("{}/partial-values", kind), format!("{} limbs but {} limb values", g.limbs.len(), v.len()));
                    }
                }
                if g.limb_values.is_some() != g.value.is_some() {
                    return self.fail(&format!("{}/partial-values", kind), format!("value {:?} but limb values {:?}", g.value, g.limb_values.as_ref().map(|v| v.len())));
                }
                if let (Some(v), Some(n)) = (&g.limb_values, &g.value) {
                    let vi: Vec<BigInt> = v.iter().map(n_of).collect();
                    if joined(&vi, w) != *n {
                        return self.fail(&format!("{}/value-incoherent", kind), format!("limb values {:?} of width {} do not denote the value {}", vi, w, n));
                    }
                    if self.valued && vi != wires {
                        return self.fail(&format!("{}/wires-incoherent", kind), format!("limb values {:?}, wires {:?}", vi, wires));
                    }
                    if let Some(x) = vi.iter().find(|x| **x > p.max_word) {
                        return self.fail(&format!("{}/word-bound", kind), format!("limb {} exceeds the declared word bound {}", x, p.max_word));
                    }
                    if n.bits() as usize > g.n_bits() {
                        return self.fail(&format!("{}/size-bound", kind), format!("value {} has {} bits, the declared size is {}", n, n.bits(), g.n_bits()));
                    }
                    if p.min_bits > 0 && (n.bits() as usize) < p.min_bits {
                        return self.fail(&format!("{}/min-size", kind), format!("value {} has {} bits, but declares at least {}", n, n.bits(), p.min_bits));
                    }
                    if p.min_bits > 0 {
                        self.t.ev("declared minimum sizes checked");
                    }
                } else if self.valued {
                    return self.fail(&format!("{}/lost-value", kind), "no value although every operand has one".into());
                }
            }
            Watch::Meaning => {
                if self.valued && joined(&wires, w) != joined(l, w) {
                    return self.fail(&format!("{}/wrong-number", kind), format!("wires {:?} of width {} denote {}, expected {}", wires, w, joined(&wires, w), joined(l, w)));
                }
                if self.valued && g.value.is_some() && g.value.as_ref() != Some(&joined(l, w)) {
                    return self.fail(&format!("{}/wrong-value", kind), format!("reported value {:?}, expected {}", g.value, joined(l, w)));
                }
                if g.limbs.len() != l.len() {
                    return self.fail(&format!("{}/limb-count", kind), format!("{} limbs, expected {}", g.limbs.len(), l.len()));
                }
            }
        }
    }
    fn fresh(&mut self, w: usize, k: usize) {
        let n = self.t.rng.big_corner(w * k);
        let l = split(&n, w, k);
        let i = self.script.len();
        let val = self.valued;
        let how = self.t.rng.below(5);
        let log = format!("x{} = new[{}] {:?} width {}", self.pool.len(), how, l, w);
        if self.watch == Watch::Meta && val && how == 1 && self.t.rng.chance(1, 12) {
            // values of the wrong count: refused, or all parts still agree
            let mut v = fs::<F>(&l);
            if self.t.rng.chance(1, 2) {
                v.push(if self.t.rng.chance(1, 2) { F::ONE } else { F::ZERO });
            } else {
                v.pop();
            }
            self.script.push(format!("{} values for {} limbs of width {}", v.len(), k, w));
            self.t.ev("allocations from a wrong number of values");
            let cs = &mut self.cs;
            if let Out::Ok(g) = call(|| BigNat::alloc_from_limbs(cs.namespace(|| format!("p{}", i)), || Ok(v), None, w, k)) {
                self.monitor("allocation", &g, &l, w);
            }
            self.dead = true;
            return;
        }
        let cs = &mut self.cs;
        let (l2, n2) = (l.clone(), n.clone());
        let e = SynthesisError::AssignmentMissing;
        // one in five is a constant: it keeps its value even without a witness
        let out = call(|| match how {
            0 => BigNat::alloc_from_nat(cs.namespace(|| format!("p{}", i)), || if val { Ok(n2.clone()) } else { Err(e) }, w, k),
            1 => BigNat::alloc_from_limbs(cs.namespace(|| format!("p{}", i)), || if val { Ok(fs::<F>(&l2)) } else { Err(e) }, None, w, k),
            2 => <BigNat<F> as Gadget>::alloc(cs.namespace(|| format!("p{}", i)), if val { Some(&n2) } else { None }, (), &validate_btc_header::mp::bignat::BigNatParams::new(w, k)),
            3 => {
                let mut v = vec![];
                for (j, x) in fs::<F>(&l2).into_iter().enumerate() {
                    v.push(Num::alloc(cs.namespace(|| format!("p{} {}", i, j)), || if val { Ok(x) } else { Err(SynthesisError::AssignmentMissing) })?);
                }
                Ok(BigNat::from_limbs(v, w))
            }
            _ => Ok(BigNat::from_limbs(fs::<F>(&l2).into_iter().map(|x| Num::new(Some(x), LinearCombination::zero() + (x, MonCS::<F>::one()))).collect(), w)),
        });
        self.step(log, "allocation", out, l, w);
    }
    fn op(&mut self) {
        let np = self.pool.len();
        let i = self.t.rng.below(np as u64) as usize;
        // an operand of the same width
        let mates: Vec<usize> = (0..np).filter(|j| self.pool[*j].w == self.pool[i].w).collect();
        let j = *self.t.rng.pick(&mates);
        let (a, b2) = (self.pool[i].g.clone(), self.pool[j].g.clone());
        let (la, lb) = (self.pool[i].l.clone(), self.pool[j].l.clone());
        let (na, nb) = (self.pool[i].log.clone(), self.pool[j].log.clone());
        let w = self.pool[i].w;
        let x = format!("x{}", np);
        let name = format!("op {}", self.script.len());
        let cap = F::CAPACITY as usize;
        let (va, vb) = (joined(&la, w), joined(&lb, w));
        match self.t.rng.below(19) {
            0 | 1 => {
                if &a.params.max_word + &b2.params.max_word > word_cap::<F>() {
                    return;
                }
                let k = la.len().max(lb.len());
                let z = b(0);
                let l = (0..k).map(|q| la.get(q).unwrap_or(&z) + lb.get(q).unwrap_or(&z)).collect();
                let out = call(|| a.add::<MonCS<F>>(&b2));
                self.step(format!("{} = {} + {}", x, na, nb), "add", out, l, w);
            }
            2 => {
                let c = if self.t.rng.chance(1, 4) { 0 } else { self.t.rng.below(40) };
                if &a.params.max_word * c > word_cap::<F>() {
                    return;
                }
                let l = la.iter().map(|y| y * c).collect();
                let out = callv(|| a.scale::<MonCS<F>>(F::from(c)));
                self.step(format!("{} = {} scaled by {}", x, na, c), "scale", out, l, w);
            }
            3 => {
                let c = self.t.rng.big_corner((w + 2).min(cap - 6));
                if &a.params.max_word + &c > word_cap::<F>() {
                    return;
                }
                let mut l = la.clone();
                l[0] += &c;
                let f = f_of::<F>(&c);
                let out = callv(|| a.shift::<MonCS<F>>(f));
                self.step(format!("{} = {} shifted by {}", x, na, c), "shift", out, l, w);
            }
            4 | 5 => {
                if la.len() + lb.len() > 12 {
                    return;
                }
                let mut l = lb.clone();
                l.extend(la.clone());
                let out = call(|| a.concat(&b2));
                self.step(format!("{} = {} ++ {}", x, na, nb), "concat", out, l, w);
            }
            6 | 7 => {
                let n = self.t.rng.range(1, la.len() + 1);
                let l = la.iter().take(n).cloned().collect();
                let out = callv(|| a.truncate_limbs(n));
                self.step(format!("{} = low {} limbs of {}", x, n, na), "truncate_limbs", out, l, w);
            }
            8 => {
                let g = self.t.rng.range(1, 4);
                let top = (0..g).fold(b(0), |s, q| s + pow2(q * w)) * &a.params.max_word;
                if top > word_cap::<F>() || w * g > cap - 4 {
                    return;
                }
                let l = la.chunks(g).map(|c| joined(c, w)).collect();
                let out = callv(|| a.group_limbs(g));
                self.step(format!("{} = {} grouped by {}", x, na, g), "group_limbs", out, l, w * g);
            }
            9 => {
                let n = la.len() + self.t.rng.range(0, 3);
                if n > 12 {
                    return;
                }
                let mut l = la.clone();
                l.resize(n, b(0));
                let out = callv(|| a.with_n_limbs::<MonCS<F>>(n));
                self.step(format!("{} = {} with {} limbs", x, na, n), "with_n_limbs", out, l, w);
            }
            10 => {
                let s = self.t.rng.chance(1, 2);
                let k = la.len().max(lb.len());
                let mut l = if s { lb.clone() } else { la.clone() };
                l.resize(k, b(0));
                let val = self.valued;
                let cs = &mut self.cs;
                let out = call(|| {
                    let sel = Bit::alloc(cs.namespace(|| format!("{} s", name)), if val { Some(s) } else { None })?;
                    BigNat::mux(cs.namespace(|| name.clone()), &sel, &a, &b2)
                });
                self.step(format!("{} = {} ? {} : {}", x, s, nb, na), "mux", out, l, w);
            }
            11 => {
                if !declared_canonical(&a) || !canonical(&la, w) || w * la.len() > 300 {
                    return;
                }
                let g = self.t.rng.range(1, (cap - 6).min(20));
                let cs = &mut self.cs;
                let out = call(|| a.decompose(cs.namespace(|| name.clone())).map(|v| BigNat::recompose(&v, g)));
                let k = (w * la.len() + g - 1) / g;
                self.step(format!("{} = bits of {} recomposed by {}", x, na, g), "recompose", out, split(&va, g, k), g);
            }
            12 => {
                // enforce a minimum size that holds
                if !declared_canonical(&a) || w * la.len() > 300 {
                    return;
                }
                let nb0 = va.bits() as usize;
                if self.watch == Watch::Meta && self.valued && nb0 < w * la.len() && (va == b(0) || self.t.rng.chance(1, 8)) {
                    // a minimum that does not hold: refused, unsatisfied, or not declared
                    let mb = if self.t.rng.chance(1, 2) { nb0 + 1 } else { self.t.rng.range(nb0 + 1, w * la.len()) };
                    let full = self.t.rng.chance(1, 4);
                    let mut a2 = a.clone();
                    self.script.push(format!("{} enforced {}, which it does not have", na, if full { "full".into() } else { format!("{} bits", mb) }));
                    let cs = &mut self.cs;
                    let out = call(|| if full { a2.enforce_full_bits(cs.namespace(|| name.clone())) } else { a2.enforce_min_bits(cs.namespace(|| name.clone()), mb) });
                    self.t.ev("false minimum sizes enforced");
                    if matches!(out, Out::Ok(_)) && self.cs.sat() {
                        self.t.ev("false minimum sizes enforced and satisfied");
                        if nb0 < a2.params.min_bits {
                            self.fail("enforced size/min-size", format!("the value {} has {} bits, satisfies every constraint and declares at least {}", va, nb0, a2.params.min_bits));
                        }
                    }
                    self.dead = true;
                    return;
                }
                if va == b(0) {
                    return;
                }
                let full = va.bits() as usize == w * la.len() && self.t.rng.chance(1, 2);
                let mb = self.t.rng.range(1, va.bits() as usize);
                let mut a2 = a.clone();
                let cs = &mut self.cs;
                let out = call(|| {
                    if full {
                        a2.enforce_full_bits(cs.namespace(|| name.clone()))?;
                    } else {
                        a2.enforce_min_bits(cs.namespace(|| name.clone()), mb)?;
                    }
                    Ok::<_, SynthesisError>(a2)
                });
                self.step(format!("{} = {} enforced {}", x, na, if full { "full".into() } else { format!("{} bits", mb) }), "enforced size", out, la, w);
            }
            13 => {
                if !canonical(&la, w) {
                    return;
                }
                let out = callv(|| BigNat::from_limbs(a.as_limbs::<MonCS<F>>(), w));
                self.step(format!("{} = limbs of {}", x, na), "as_limbs", out, la, w);
            }
            14 => {
                let mw = a.params.max_word.clone();
                let out = callv(|| BigNat::from_poly(a.clone().into(), w, mw));
                self.step(format!("{} = polynomial of {}", x, na), "from_poly", out, la, w);
            }
            15 => {
                // products of carried numbers
                let mw = &a.params.max_word * &b2.params.max_word * (la.len().min(lb.len()) as u64);
                let carry = (BigInt::from(&mw * 2u8) / (pow2(w) - 1u8)).bits() as usize;
                if carry + w + 1 > cap || mw > word_cap::<F>() || la.len() + lb.len() > 10 || (&va * &vb).bits() as usize > w * (la.len() + lb.len()) {
                    return;
                }
                let l = split(&(&va * &vb), w, la.len() + lb.len());
                let cs = &mut self.cs;
                let out = call(|| a.mult(cs.namespace(|| name.clone()), &b2));
                self.step(format!("{} = {} * {}", x, na, nb), "mult", out, l, w);
            }
            16 => {
                let (hi, lo, lh, h, lw, hn, ln) = if va >= vb { (&a, &b2, &la, &va, &vb, &na, &nb) } else { (&b2, &a, &lb, &vb, &va, &nb, &na) };
                let mw = &hi.params.max_word + &lo.params.max_word + pow2(w);
                let carry = (BigInt::from(&mw * 2u8) / (pow2(w) - 1u8)).bits() as usize;
                if !canonical(lh, w) || carry + w + 1 > cap || mw > word_cap::<F>() {
                    return;
                }
                let l = split(&(h - lw), w, lh.len());
                let log = format!("{} = {} - {}", x, hn, ln);
                let cs = &mut self.cs;
                let out = call(|| hi.sub(cs.namespace(|| name.clone()), lo));
                self.step(log, "sub", out, l, w);
            }
            17 => {
                // reduction by a carried nonzero number
                if !declared_canonical(&b2) || vb == b(0) || la.len() + lb.len() > 8 {
                    return;
                }
                let q = (va.bits() as usize) / w + 2 + la.len();
                let mw = (pow2(w) - 1u8) * (pow2(w) - 1u8) * (q.min(lb.len()) as u64 + 2) + &a.params.max_word;
                let carry = (BigInt::from(&mw * 2u8) / (pow2(w) - 1u8)).bits() as usize;
                if carry + w + 1 > cap || mw > word_cap::<F>() {
                    return;
                }
                let l = split(&(&va % &vb), w, lb.len());
                let cs = &mut self.cs;
                let out = call(|| a.red_mod(cs.namespace(|| name.clone()), &b2));
                self.step(format!("{} = {} mod {}", x, na, nb), "red_mod", out, l, w);
            }
            _ => {
                let out = callv(|| BigNat::one::<MonCS<F>>(w));
                self.step(format!("{} = 1", x), "one", out, vec![b(1)], w);
            }
        }
    }
}
fn program<F: PrimeField>(t: &mut T, watch: Watch) {
    let cap = F::CAPACITY as usize;
    let w = match t.rng.below(3) {
        0 => t.rng.range(1, 4),
        1 => t.rng.range(2, (cap - 8) / 3),
        _ => (*t.rng.pick(&[8usize, 16, 32, 64])).min((cap - 8) / 3),
    };
    let valued = t.rng.chance(3, 4);
    let len = t.rng.range(2, 12);
    let cs: MonCS<F> = if valued { MonCS::wit() } else { MonCS::shape() };
    let mut p = Prog { t, cs, watch, valued, pool: vec![], script: vec![], dead: false };
    for _ in 0..2 {
        if !p.dead {
            let k = p.t.rng.range(1, 4);
            p.fresh(w, k);
        }
    }
    for _ in 0..len {
        if p.dead {
            break;
        }
        p.op();
    }
    if p.dead {
        p.t.ev("histories ended by a refused operation");
    }
    if !p.dead && p.valued {
        p.t.ev("histories replayed to the end");
        if !p.cs.sat() {
            p.fail("history/honest-unsat", "the honest witness does not satisfy the constraints".into());
        }
    }
    if !p.valued {
        p.t.ev("witness-free histories");
    }
    let key = format!("w={} {} F{} v{}", w, p.script.join("; "), F::NUM_BITS, p.valued);
    let n = p.script.len();
    t.case(&key, n > 2);
    t.evn("operations observed", n as u64);
}
const PROG_RULE: &str = "histories of up to 12 operations (addition, scaling, shifting, concatenation, truncation, grouping, padding, selection, re-grouping of bits, size enforcement, products, differences, reductions) over corner-heavy numbers, with and without a witness, monitored after every operation; distinct = distinct histories";
pub fn c13(r: &Run) -> i32 {
    let n = r.n(60000, 1500000);
    r.par("history-pal", n, |t| program::<Pal>(t, Watch::Meta));
    r.par("history-f61", n, |t| program::<F61>(t, Watch::Meta));
    r.par("history-f127", n, |t| program::<F127>(t, Watch::Meta));
    r.finish(
        PROG_RULE,
        &["operations are used within their documented room in the field"],
        &[("representations inspected", 20000), ("declared minimum sizes checked", 2000), ("witness-free histories", 2000), ("results of truncate_limbs", 2000), ("results of mult", 500), ("false minimum sizes enforced", 100), ("allocations from a wrong number of values", 200)],
    )
}
pub fn c14(r: &Run) -> i32 {
    let n = r.n(60000, 1500000);
    r.par("meaning-pal", n, |t| program::<Pal>(t, Watch::Meaning));
    r.par("meaning-f61", n, |t| program::<F61>(t, Watch::Meaning));
    r.par("meaning-f127", n, |t| program::<F127>(t, Watch::Meaning));
    r.wrapping_build();
    r.finish(
        PROG_RULE,
        &["operations are used within their documented room in the field"],
        &[("representations inspected", 20000), ("results of concat", 2000), ("results of truncate_limbs", 2000), ("results of group_limbs", 1000), ("results of recompose", 500), ("results of mux", 1000)],
    )
}

// ---------------------------------------------------------------- C17
/// a gadget type of our own, so the default selection logic is observed too
#[derive(Clone)]
pub struct Wires<F: PrimeField> {
    w: Vec<LinearCombination<F>>,
    v: Option<Vec<F>>,
    n: usize,
}
impl<F: PrimeField> Gadget for Wires<F> {
    type Scalar = F;
    type Value = Vec<F>;
    type Access = ();
    type Params = usize;
    fn alloc<CS: ConstraintSystem<F>>(mut cs: CS, value: Option<&Vec<F>>, _a: (), n: &usize) -> Result<Self, SynthesisError> {
        let w = (0..*n)
            .map(|i| Ok(LinearCombination::zero() + cs.alloc(|| format!("w{}", i), || value.map(|v| v[i]).ok_or(SynthesisError::AssignmentMissing))?))
            .collect::<Result<Vec<_>, SynthesisError>>()?;
        Ok(Wires { w, v: value.cloned(), n: *n })
    }
    fn wires(&self) -> Vec<LinearCombination<F>> {
        self.w.clone()
    }
    fn wire_values(&self) -> Option<Vec<F>> {
        self.v.clone()
    }
    fn value(&self) -> Option<&Vec<F>> {
        self.v.as_ref()
    }
    fn access(&self) -> &() {
        &()
    }
    fn params(&self) -> &usize {
        &self.n
    }
}
pub fn wires_outs<G: Gadget>(g: &G) -> Outs<G::Scalar> {
    let v = g.wire_values();
    g.wires().into_iter().enumerate().map(|(i, l)| (l, v.as_ref().and_then(|v| v.get(i).cloned()))).collect()
}
pub fn own<F: PrimeField>(a: &[AllocatedNum<F>]) -> Wires<F> {
    Wires { w: a.iter().map(lc1).collect(), v: a.iter().map(|x| x.get_value()).collect(), n: a.len() }
}
fn boolf<F: PrimeField>(x: bool) -> F {
    if x {
        F::ONE
    } else {
        F::ZERO
    }
}
pub fn sel<F: PrimeField>(a: &AllocatedNum<F>) -> Bit<F> {
    Bit::new(lc1(a), a.get_value().map(|x| x == F::ONE))
}
fn select_case<F: PrimeField>(t: &mut T) {
    let cap = F::CAPACITY as usize;
    let w = t.rng.range(1, (cap - 4).min(70));
    let n = |t: &mut T| t.rng.range(1, 4);
    match t.rng.below(9) {
        // two numbers, possibly uncarried, of different length
        0 | 1 | 2 => {
            let (k0, k1) = (n(t), n(t));
            let k1 = if t.rng.chance(1, 2) { k0 } else { k1 };
            let mut mk = |k: usize| -> (Vec<BigInt>, BigInt) {
                if t.rng.chance(1, 3) {
                    let mw = (pow2(w) - 1u8) * (1 + t.rng.below(6));
                    ((0..k).map(|_| t.rng.big_corner(mw.bits() as usize).min(mw.clone())).collect(), mw)
                } else {
                    let x = t.rng.big_corner(w * k);
                    (split(&x, w, k), pow2(w) - 1u8)
                }
            };
            let ((l0, m0), (l1, m1)) = (mk(k0), mk(k1));
            let s = t.rng.chance(1, 2);
            let k = k0.max(k1);
            let sw = t.rng.chance(1, 3);
            if m0 >= pow2(w) || m1 >= pow2(w) {
                t.ev("selections between uncarried numbers");
            }
            t.case(&format!("{} s={} {:?} / {:?} w={} F{}", if sw { "switch" } else { "mux" }, s, l0, l1, w, F::NUM_BITS), true);
            let mut ins = vec![boolf::<F>(s)];
            ins.extend(fs::<F>(&l0));
            ins.extend(fs::<F>(&l1));
            let pad = |l: &[BigInt]| {
                let mut x = l.to_vec();
                x.resize(k, b(0));
                x
            };
            let (p0, p1) = (pad(&l0), pad(&l1));
            let mut e = fs::<F>(if s { &p1 } else { &p0 });
            if sw {
                e.extend(fs::<F>(if s { &p0 } else { &p1 }));
            }
            let bld = move |cs: &mut MonCS<F>, a: &[AllocatedNum<F>]| {
                let mut x = bn(&a[1..1 + k0], w);
                let mut y = bn(&a[1 + k0..], w);
                x.params.max_word = m0.clone();
                y.params.max_word = m1.clone();
                if sw {
                    let (u, v) = BigNat::switch(cs.namespace(|| "sw"), &sel(&a[0]), &x, &y)?;
                    let mut o = wires_outs(&u);
                    o.extend(wires_outs(&v));
                    Ok(o)
                } else {
                    let o = BigNat::mux(cs.namespace(|| "mux"), &sel(&a[0]), &x, &y)?;
                    Ok(wires_outs(&o))
                }
            };
            fun(t, if sw { "switch" } else { "mux" }, &ins, &bld, &e, Some(Hostile { budget: 30, tries: 2 }));
            t.ev("selections");
        }
        3 => {
            // mux tree: the first bit is the highest order one
            let d = t.rng.range(0, 3);
            let k = n(t);
            let vals: Vec<BigInt> = (0..1usize << d).map(|_| t.rng.big_corner(w * k)).collect();
            let idx = t.rng.below(1 << d) as usize;
            t.case(&format!("mux_tree depth {} index {} of {:?} w={}", d, idx, vals, w), true);
            let mut ins: Vec<F> = (0..d).map(|i| boolf(idx >> (d - 1 - i) & 1 == 1)).collect();
            for v in &vals {
                ins.extend(fs::<F>(&split(v, w, k)));
            }
            let e = fs::<F>(&split(&vals[idx], w, k));
            let cnt = vals.len();
            let bld = move |cs: &mut MonCS<F>, a: &[AllocatedNum<F>]| {
                let bits: Vec<Bit<F>> = a[..d].iter().map(sel).collect();
                let xs: Vec<BigNat<F>> = (0..cnt).map(|i| bn(&a[d + i * k..d + (i + 1) * k], w)).collect();
                BigNat::mux_tree(cs.namespace(|| "tree"), bits.iter(), &xs).map(|o| wires_outs(&o))
            };
            fun(t, "mux_tree", &ins, &bld, &e, Some(Hostile { budget: 40, tries: 1 }));
            t.ev("selection trees");
        }
        4 => {
            // default implementations
            let k = n(t);
            let x: Vec<F> = (0..k).map(|_| t.rng.field()).collect();
            let y: Vec<F> = (0..k).map(|_| t.rng.field()).collect();
            let s = t.rng.chance(1, 2);
            t.case(&format!("default mux/switch s={} {} {}", s, hv(&x), hv(&y)), true);
            let mut ins = vec![boolf::<F>(s)];
            ins.extend(x.clone());
            ins.extend(y.clone());
            let (f, g) = if s { (y, x) } else { (x, y) };
            let mut e = f.clone();
            e.extend(f);
            e.extend(g);
            let bld = move |cs: &mut MonCS<F>, a: &[AllocatedNum<F>]| {
                let (x, y) = (own(&a[1..1 + k]), own(&a[1 + k..]));
                let m = Wires::mux(cs.namespace(|| "mux"), &sel(&a[0]), &x, &y)?;
                let (u, v) = Wires::switch(cs.namespace(|| "switch"), &sel(&a[0]), &x, &y)?;
                let mut o = wires_outs(&m);
                o.extend(wires_outs(&u));
                o.extend(wires_outs(&v));
                Ok(o)
            };
            fun(t, "default mux", &ins, &bld, &e, Some(Hostile { budget: 30, tries: 2 }));
            t.ev("selections");
        }
        5 => {
            // assert_equal, also between numbers of different length
            let k = n(t);
            let k2 = if t.rng.chance(1, 3) { n(t) } else { k };
            let x = t.rng.big_corner(w * k);
            let lx = split(&x, w, k);
            let mut ly = lx.clone();
            ly.resize(k2, b(0));
            match t.rng.below(4) {
                0 | 1 => {}
                2 => {
                    let i = t.rng.below(k2 as u64) as usize;
                    ly[i] = &ly[i] ^ pow2(t.rng.range(0, w - 1));
                }
                _ => ly.iter_mut().skip(k.min(k2 - 1)).for_each(|l| *l = t.rng.big_bits(w)),
            }
            let same = joined(&lx, w) == joined(&ly, w);
            t.case(&format!("assert_equal {:?} {:?} w={}", lx, ly, w), true);
            let mut ins = fs::<F>(&lx);
            ins.extend(fs::<F>(&ly));
            let gen = t.rng.chance(1, 3);
            let bld = move |cs: &mut MonCS<F>, a: &[AllocatedNum<F>]| {
                if gen {
                    Wires::assert_equal(cs.namespace(|| "eq"), &own(&a[..k]), &own(&a[k..])).map(|_| vec![])
                } else {
                    BigNat::assert_equal(cs.namespace(|| "eq"), &bn(&a[..k], w), &bn(&a[k..], w)).map(|_| vec![])
                }
            };
            if !same {
                must_reject(t, "assert_equal", &ins, &bld, Some(20));
            } else if k == k2 {
                must_accept(t, "assert_equal", &ins, &bld);
            }
            if k != k2 {
                t.ev("equality assertions between different lengths");
            }
            t.ev("equality assertions");
        }
        6 => {
            // exposure as public inputs: exactly the wires, in order
            let k = n(t);
            let x = t.rng.big_corner(w * k);
            let dflt = t.rng.chance(1, 2);
            let l = split(&x, w, k);
            t.case(&format!("inputize({}) {:?}", if dflt { "gadget" } else { "number" }, l), true);
            let bld = move |cs: &mut MonCS<F>, a: &[AllocatedNum<F>]| {
                let g = bn(a, w);
                let before = cs.inputs.len();
                if dflt {
                    Gadget::inputize(&g, cs.namespace(|| "in"))?;
                } else {
                    BigNat::inputize(&g, cs.namespace(|| "in"))?;
                }
                assert_eq!(cs.inputs.len(), before + k, "number of public inputs");
                Ok((0..k).map(|i| (LinearCombination::zero() + bellpepper_core::Variable::new_unchecked(bellpepper_core::Index::Input(before + i)), if cs.witness { Some(cs.inputs[before + i]) } else { None })).collect())
            };
            fun(t, "inputize", &fs::<F>(&l), &bld, &fs::<F>(&l), Some(Hostile { budget: 20, tries: 2 }));
            t.ev("exposures");
        }
        7 => {
            let k = n(t);
            let x = t.rng.big_corner(w * k);
            let l = split(&x, w, k);
            t.case(&format!("as_nums {:?}", l), true);
            let bld = move |cs: &mut MonCS<F>, a: &[AllocatedNum<F>]| Ok(bn(a, w).as_nums(cs.namespace(|| "n"))?.iter().map(|y| (lc1(y), y.get_value())).collect());
            fun(t, "as_nums", &fs::<F>(&l), &bld, &fs::<F>(&l), Some(Hostile { budget: 20, tries: 2 }));
            t.ev("exposures");
        }
        _ => {
            let x: F = t.rng.field();
            let y: F = t.rng.field();
            t.case(&format!("as_sapling_allocated_num {} {}", hx(&x), hx(&y)), true);
            let three = F::from(3u64);
            let bld = move |cs: &mut MonCS<F>, a: &[AllocatedNum<F>]| {
                let v = a[0].get_value().and_then(|p| a[1].get_value().map(|q| p + q * three));
                let n = Num::new(v, lc1(&a[0]) + (three, a[1].get_variable()));
                let o = n.as_sapling_allocated_num(cs.namespace(|| "n"))?;
                Ok(vec![(lc1(&o), o.get_value())])
            };
            fun(t, "as_sapling_allocated_num", &[x, y], &bld, &[x + y * three], Some(Hostile { budget: 20, tries: 2 }));
            t.ev("exposures");
        }
    }
}
pub fn c17(r: &Run) -> i32 {
    let n = r.n(40000, 1200000);
    r.par("select-pal", n, |t| select_case::<Pal>(t));
    r.par("select-f61", n, |t| select_case::<F61>(t));
    r.par("select-f127", n, |t| select_case::<F127>(t));
    r.par("equal-pal", n / 4, |t| equal_case::<Pal>(t));
    r.par("equal-f61", n / 4, |t| equal_case::<F61>(t));
    r.finish(
        "selectors of both values over numbers of equal and different lengths, carried and uncarried; trees of depth 0 to 3; exposures of multi-limb numbers; distinct = distinct (gadget, selector, operands)",
        &["the selector is a boolean", "forgeries are sought with a bounded solver: not finding one is not a proof"],
        &[("selections", 3000), ("selections between uncarried numbers", 500), ("selection trees", 500), ("exposures", 1000), ("equality assertions", 500), ("equality assertions between different lengths", 200), ("hostile witnesses sought", 3000)],
    )
}

// ---------------------------------------------------------------- C18
fn bitvector_case<F: PrimeField>(t: &mut T) {
    // mixed: some bits have no value (parameter setup with constants around)
    let mixed = t.rng.chance(1, 3);
    let mut cs: MonCS<F> = MonCS::wit();
    let mut script: Vec<String> = vec![];
    // reference: per bit, its true value on the wires and whether the object may know it
    let mut model: Vec<(bool, bool)> = vec![];
    let mut ctr = 0;
    let mut fresh = |cs: &mut MonCS<F>, t: &mut T, ctr: &mut usize| -> (Bit<F>, bool, bool) {
        *ctr += 1;
        let v = t.rng.chance(1, 2);
        let known = !mixed || t.rng.chance(1, 2);
        let bit = match t.rng.below(5) {
            0 => Bit::new_value::<MonCS<F>>(v),
            1 => {
                let x = Bit::alloc(cs.namespace(|| format!("b{}", ctr)), Some(!v)).unwrap();
                x.not::<MonCS<F>>()
            }
            2 => {
                let x = bellpepper_core::boolean::Boolean::from(bellpepper_core::boolean::AllocatedBit::alloc(cs.namespace(|| format!("b{}", ctr)), Some(v)).unwrap());
                let y = if t.rng.chance(1, 2) { x } else { bellpepper_core::boolean::Boolean::from(bellpepper_core::boolean::AllocatedBit::alloc(cs.namespace(|| format!("c{}", ctr)), Some(!v)).unwrap()).not() };
                Bit::from_sapling::<MonCS<F>>(y)
            }
            _ => Bit::alloc(cs.namespace(|| format!("b{}", ctr)), Some(v)).unwrap(),
        };
        let bit = if known { bit } else { Bit::new(bit.bit, None) };
        (bit, v, known)
    };
    let n0 = t.rng.size(0, 6, 70);
    let mut bits = vec![];
    for _ in 0..n0 {
        let (x, v, k) = fresh(&mut cs, t, &mut ctr);
        bits.push(x);
        model.push((v, k));
    }
    script.push(format!("from_bits {:?}", model));
    let mut bv = Bitvector::from_bits(bits);
    let mut fail = |t: &mut T, script: &[String], key: &str, d: String| t.viol(key, format!("after [{}]: {}", script.join("; "), d));
    let steps = t.rng.range(1, 10);
    for _ in 0..steps {
        let op = t.rng.below(11);
        let name;
        let out = match op {
            0 => {
                name = "reversed";
                model.reverse();
                script.push("reversed".into());
                callv(|| bv.clone().reversed())
            }
            1 => {
                name = "truncate";
                let n = t.rng.range(0, model.len() + 1);
                model.truncate(n);
                script.push(format!("truncate {}", n));
                callv(|| bv.clone().truncate(n))
            }
            2 => {
                name = "shr";
                let n = t.rng.range(0, model.len());
                model.drain(..n);
                script.push(format!("shr {}", n));
                callv(|| bv.clone().shr(n))
            }
            3 => {
                name = "shl";
                let n = t.rng.range(0, 4);
                for _ in 0..n {
                    model.insert(0, (false, true));
                }
                script.push(format!("shl {}", n));
                callv(|| bv.clone().shl(n))
            }
            4 => {
                name = "pop";
                let want = model.pop();
                script.push("pop".into());
                let r = callv(|| {
                    let mut c = bv.clone();
                    let p = c.pop();
                    (c, p)
                });
                match r {
                    Out::Ok((c, p)) => {
                        match (&p, want) {
                            (None, None) => {}
                            (Some(x), Some((v, _))) => {
                                if cs.eval_lc(&x.bit) != boolf::<F>(v) || (x.value.is_some() && x.value != Some(v)) {
                                    return fail(t, &script, "pop/wrong-bit", format!("popped value {:?}, wire {}, expected {}", x.value, hx(&cs.eval_lc(&x.bit)), v));
                                }
                            }
                            _ => return fail(t, &script, "pop/emptiness", "pop disagrees with the length".into()),
                        }
                        Out::Ok(c)
                    }
                    Out::Panic(m) => Out::Panic(m),
                    Out::Err(m) => Out::Err(m),
                }
            }
            5 | 6 => {
                name = "push";
                let (x, v, k) = fresh(&mut cs, t, &mut ctr);
                model.push((v, k));
                script.push(format!("push {:?}", (v, k)));
                callv(|| {
                    let mut c = bv.clone();
                    c.push(x);
                    c
                })
            }
            7 => {
                name = "insert";
                let (x, v, k) = fresh(&mut cs, t, &mut ctr);
                let i = t.rng.range(0, model.len());
                model.insert(i, (v, k));
                script.push(format!("insert {} {:?}", i, (v, k)));
                callv(|| {
                    let mut c = bv.clone();
                    c.insert(i, x);
                    c
                })
            }
            8 => {
                name = "append";
                let mut other = vec![];
                let mut m2 = vec![];
                for _ in 0..t.rng.range(0, 4) {
                    let (x, v, k) = fresh(&mut cs, t, &mut ctr);
                    other.push(x);
                    m2.push((v, k));
                }
                script.push(format!("append {:?}", m2));
                model.extend(m2);
                callv(|| {
                    let mut c = bv.clone();
                    c.append(Bitvector::from_bits(other));
                    c
                })
            }
            9 => {
                name = "round trip";
                script.push("into_bits/from_bits".into());
                callv(|| Bitvector::from_bits(bv.clone().into_bits()))
            }
            _ => {
                name = "get";
                let i = t.rng.range(0, model.len() + 1);
                script.push(format!("get {}", i));
                match callv(|| bv.get(i)) {
                    Out::Ok(x) => {
                        match (x, model.get(i)) {
                            (None, None) => {}
                            (Some(x), Some((v, _))) => {
                                if cs.eval_lc(&x.bit) != boolf::<F>(*v) || (x.value.is_some() && x.value != Some(*v)) {
                                    return fail(t, &script, "get/wrong-bit", format!("bit {} has value {:?}, wire {}, expected {}", i, x.value, hx(&cs.eval_lc(&x.bit)), v));
                                }
                            }
                            _ => return fail(t, &script, "get/bounds", format!("get({}) of {} bits", i, model.len())),
                        }
                        Out::Ok(bv.clone())
                    }
                    Out::Panic(m) => Out::Panic(m),
                    Out::Err(m) => Out::Err(m),
                }
            }
        };
        t.ev("bit-vector operations observed");
        bv = match out {
            Out::Ok(x) => x,
            o => return fail(t, &script, &format!("{}/panics", name), o.why()),
        };
        // lockstep: bits, values and model agree
        if bv.bits.len() != model.len() {
            return fail(t, &script, &format!("{}/length", name), format!("{} bits, expected {}", bv.bits.len(), model.len()));
        }
        if let Some(v) = &bv.values {
            if v.len() != bv.bits.len() {
                return fail(t, &script, &format!("{}/values-out-of-step", name), format!("{} bits but {} values", bv.bits.len(), v.len()));
            }
            for (i, x) in v.iter().enumerate() {
                if *x != model[i].0 {
                    return fail(t, &script, &format!("{}/wrong-value", name), format!("value {} is {}, expected {}", i, x, model[i].0));
                }
            }
            t.ev("vectors with values");
        } else {
            if !mixed {
                return fail(t, &script, &format!("{}/lost-values", name), "values lost although every bit has one".into());
            }
            t.ev("vectors without values");
        }
        for (i, l) in bv.bits.iter().enumerate() {
            if cs.eval_lc(l) != boolf::<F>(model[i].0) {
                return fail(t, &script, &format!("{}/wrong-wire", name), format!("wire {} carries {}, expected {}", i, hx(&cs.eval_lc(l)), model[i].0));
            }
        }
        let s = format!("{}", bv);
        let want = if bv.values.is_some() { format!("Bitvector({})", model.iter().map(|x| if x.0 { '1' } else { '0' }).collect::<String>()) } else { format!("Bitvector(len {})", model.len()) };
        if s != want {
            return fail(t, &script, "display", format!("displayed as {}, expected {}", s, want));
        }
    }
    if mixed {
        t.ev("histories mixing bits with and without value");
    }
    t.case(&script.join("; "), true);
}
fn bit_case<F: PrimeField>(t: &mut T) {
    let v = t.rng.chance(1, 2);
    match t.rng.below(3) {
        0 => {
            // an allocated bit can only be 0 or 1
            t.case(&format!("alloc {}", v), true);
            let mut cs: MonCS<F> = MonCS::wit();
            let x = Bit::alloc(cs.namespace(|| "b"), Some(v)).unwrap();
            if cs.eval_lc(&x.bit) != boolf::<F>(v) || !cs.sat() {
                t.viol("bit/alloc", format!("allocating {} gives wire {}", v, hx(&cs.eval_lc(&x.bit))));
            }
            for y in [F::from(2u64), -F::ONE, t.rng.field::<F>()] {
                cs.aux[0] = y;
                t.ev("non-boolean assignments tried");
                if cs.sat() && y != F::ZERO && y != F::ONE {
                    t.viol("bit/not-boolean", format!("an allocated bit accepts {}", hx(&y)));
                }
            }
        }
        1 => {
            let want = t.rng.chance(1, 2);
            t.case(&format!("constrain_value {} to {}", v, want), true);
            let neg = t.rng.chance(1, 2);
            let bld = move |cs: &mut MonCS<F>, a: &[AllocatedNum<F>]| {
                let x = sel(&a[0]);
                let x = if neg { x.not::<MonCS<F>>() } else { x };
                x.constrain_value(cs.namespace(|| "c"), want);
                Ok(vec![])
            };
            if (v ^ neg) == want {
                must_accept(t, "constrain_value", &[boolf::<F>(v)], &bld);
            } else {
                must_reject(t, "constrain_value", &[boolf::<F>(v)], &bld, Some(5));
            }
            t.ev("bit values constrained");
        }
        _ => {
            t.case(&format!("constants {}", v), true);
            let cs: MonCS<F> = MonCS::wit();
            let x = Bit::<F>::new_value::<MonCS<F>>(v);
            let y = if v { Bit::<F>::new_true::<MonCS<F>>() } else { Bit::<F>::new_false::<MonCS<F>>() };
            for z in [&x, &y] {
                if z.value != Some(v) || cs.eval_lc(&z.bit) != boolf::<F>(v) {
                    t.viol("bit/constant", format!("the constant {} has value {:?}, wire {}", v, z.value, hx(&cs.eval_lc(&z.bit))));
                }
                let n = z.not::<MonCS<F>>();
                if n.value != Some(!v) || cs.eval_lc(&n.bit) != boolf::<F>(!v) {
                    t.viol("bit/not", format!("the negation of {} has value {:?}, wire {}", v, n.value, hx(&cs.eval_lc(&n.bit))));
                }
            }
        }
    }
}
pub fn c18(r: &Run) -> i32 {
    let n = r.n(90000, 3000000);
    r.par("vectors", n, |t| bitvector_case::<Pal>(t));
    r.par("vectors-f61", n, |t| bitvector_case::<F61>(t));
    r.par("bits", n / 4, |t| bit_case::<Pal>(t));
    r.wrapping_build();
    r.finish(
        "histories of up to 10 edits on bit vectors of allocated, negated, constant and converted bits, with all values known or only some; distinct = distinct histories",
        &[],
        &[("bit-vector operations observed", 50000), ("histories mixing bits with and without value", 5000), ("vectors without values", 5000), ("non-boolean assignments tried", 1000)],
    )
}

// ---------------------------------------------------------------- C16
pub fn as_arg<F: PrimeField, A: From<BigNat<F>>>(_f: fn(A, usize, BigInt) -> BigNat<F>, g: BigNat<F>) -> A {
    A::from(g)
}
fn poly_case<F: PrimeField>(t: &mut T) {
    let (na, nb) = (t.rng.size(0, 8, 24), t.rng.size(0, 8, 24));
    let co = |t: &mut T| -> F {
        match t.rng.below(5) {
            0 => F::ZERO,
            1 => F::ONE,
            2 => -F::ONE,
            3 => F::from(t.rng.below(1000)),
            _ => t.rng.field(),
        }
    };
    let a: Vec<F> = (0..na).map(|_| co(t)).collect();
    let c: Vec<F> = (0..nb).map(|_| co(t)).collect();
    let ins: Vec<F> = a.iter().chain(c.iter()).cloned().collect();
    // the polynomial type has no public name: reach it through the conversion that takes it
    macro_rules! mk {
        ($v:expr) => {
            as_arg(BigNat::<F>::from_poly, bn($v, 1))
        };
    }
    macro_rules! pouts {
        ($p:expr) => {{
            let p = $p;
            let o: Outs<F> = p.coefficients.iter().enumerate().map(|(i, l)| (l.clone(), p.values.as_ref().and_then(|v| v.get(i).cloned()))).collect();
            o
        }};
    }
    match t.rng.below(3) {
        0 | 1 => {
            t.case(&format!("product {} {} F{}", hv(&a), hv(&c), F::NUM_BITS), true);
            let mut e = vec![F::ZERO; (na + nb).saturating_sub(1)];
            for (i, x) in a.iter().enumerate() {
                for (j, y) in c.iter().enumerate() {
                    e[i + j] += *x * y;
                }
            }
            let bld = move |cs: &mut MonCS<F>, v: &[AllocatedNum<F>]| Ok(pouts!(mk!(&v[..na]).alloc_product(cs.namespace(|| "p"), &mk!(&v[na..]))?));
            fun(t, "polynomial product", &ins, &bld, &e, Some(Hostile { budget: 20, tries: 2 }));
            t.ev("polynomial products");
        }
        _ => {
            t.case(&format!("sum {} {} F{}", hv(&a), hv(&c), F::NUM_BITS), true);
            let x: F = t.rng.field();
            let n = na.max(nb);
            let e: Vec<F> = (0..n).map(|i| a.get(i).cloned().unwrap_or(F::ZERO) + c.get(i).cloned().unwrap_or(F::ZERO)).collect();
            let ev = |v: &[F]| -> F { v.iter().rev().fold(F::ZERO, |s, k| s * x + k) };
            let want: (F, F) = (ev(&a), ev(&e));
            let bld = move |cs: &mut MonCS<F>, v: &[AllocatedNum<F>]| {
                let (p, q) = (mk!(&v[..na]), mk!(&v[na..]));
                let s = p.sum(&q);
                if cs.witness {
                    let got: (Option<F>, Option<F>) = (p.evaluate_at(x), s.evaluate_at(x));
                    assert!(got.0 == Some(want.0), "evaluation of the first operand");
                    assert!(got.1 == Some(want.1), "evaluation of the sum");
                }
                Ok(pouts!(s))
            };
            fun(t, "polynomial sum", &ins, &bld, &e, None);
            t.ev("polynomial sums and evaluations");
        }
    }
}
pub fn c16(r: &Run) -> i32 {
    let n = r.n(20000, 600000);
    r.par("poly-pal", n, |t| poly_case::<Pal>(t));
    r.par("poly-f61", n, |t| poly_case::<F61>(t));
    r.par("poly-fr", n / 2, |t| poly_case::<Fr>(t));
    r.finish(
        "polynomials with up to 8 coefficients or none (zeros, ones, minus one, small, uniform), including zero leading coefficients; distinct = distinct (operation, operands)",
        &["forgeries are sought with a bounded solver: not finding one is not a proof"],
        &[("polynomial products", 2000), ("polynomial sums and evaluations", 1000), ("hostile witnesses sought", 2000)],
    )
}
