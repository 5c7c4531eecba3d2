//! C09 range checks, C10 carried equality, C11 integer arithmetic, C12 modular arithmetic,
//! C20 mismatched operands.
use crate::fields::*;
use crate::gad::*;
use crate::mon::*;
use crate::report::*;
use crate::rng::*;
use bellpepper_core::num::AllocatedNum;
use bellpepper_core::ConstraintSystem;
use ff::PrimeField;
use num_bigint::BigInt;
use validate_btc_header::mp::bignat::BigNat;
use validate_btc_header::util::num::Num;

pub fn b(n: u64) -> BigInt {
    BigInt::from(n)
}
pub fn pow2(n: usize) -> BigInt {
    BigInt::from(1) << n
}
/// integer denoted by limbs
pub fn joined(l: &[BigInt], w: usize) -> BigInt {
    l.iter().rev().fold(b(0), |a, x| (a << w) + x)
}
pub fn split(n: &BigInt, w: usize, k: usize) -> Vec<BigInt> {
    (0..k).map(|i| (n >> (w * i)) & (pow2(w) - 1)).collect()
}
pub fn fs<F: PrimeField>(v: &[BigInt]) -> Vec<F> {
    v.iter().map(f_of).collect()
}
pub fn bn<F: PrimeField>(v: &[AllocatedNum<F>], w: usize) -> BigNat<F> {
    BigNat::from_limbs(v.iter().map(|x| Num::from(x.clone())).collect(), w)
}
/// the integer a BigNat's limb wires carry in a witness
pub fn bn_wires<F: PrimeField>(cs: &MonCS<F>, n: &BigNat<F>) -> BigInt {
    joined(&n.limbs.iter().map(|l| n_of(&cs.eval_lc(l))).collect::<Vec<_>>(), n.params.limb_width)
}
pub fn outs<F: PrimeField>(n: &BigNat<F>) -> Outs<F> {
    n.limbs.iter().enumerate().map(|(i, l)| (l.clone(), n.limb_values.as_ref().and_then(|v| v.get(i).cloned()))).collect()
}
pub fn bits_out<F: PrimeField>(bv: &validate_btc_header::util::bit::Bitvector<F>) -> Outs<F> {
    bv.bits.iter().enumerate().map(|(i, l)| (l.clone(), bv.values.as_ref().and_then(|v| v.get(i)).map(|x| if *x { F::ONE } else { F::ZERO }))).collect()
}
fn bit<F: PrimeField>(n: &BigInt, i: usize) -> F {
    if n.bit(i as u64) {
        F::ONE
    } else {
        F::ZERO
    }
}

// ---------------------------------------------------------------- C09
fn range_case<F: PrimeField>(t: &mut T) {
    let cap = F::CAPACITY as usize;
    let n = match t.rng.below(4) {
        0 => t.rng.range(1, 6),
        1 => (*t.rng.pick(&[8usize, 31, 32, 33, 63, 64, 65, 120, 126, 127, 128, 250])).min(cap),
        2 => cap - t.rng.below(3) as usize,
        _ => t.rng.range(1, cap),
    };
    let p = modulus::<F>();
    // in range or just/far out of range
    let v = match t.rng.below(8) {
        0 => pow2(n) % &p,
        1 => (pow2(n) + t.rng.below(3)) % &p,
        2 => &p - 1 - t.rng.below(3),
        3 => n_of(&t.rng.field::<F>()),
        4 => (pow2(n) + t.rng.big_bits(n)) % &p,
        _ => t.rng.big_corner(n),
    };
    let fits = v < pow2(n);
    let f = f_of::<F>(&v);
    let hb = if n <= 70 || t.rng.chance(1, 4) { Some(30) } else { None };
    t.ev(if fits { "value fits" } else { "value does not fit" });
    match t.rng.below(5) {
        0 => {
            t.case(&format!("fits_in_bits n={} v={} F{}", n, hex(&v), F::NUM_BITS), true);
            let bld = move |cs: &mut MonCS<F>, a: &[AllocatedNum<F>]| Num::from(a[0].clone()).fits_in_bits(cs.namespace(|| "fits"), n).map(|_| vec![]);
            if fits {
                must_accept(t, "fits_in_bits", &[f], &bld);
            } else {
                must_reject(t, "fits_in_bits", &[f], &bld, hb);
            }
        }
        1 => {
            t.case(&format!("decompose n={} v={} F{}", n, hex(&v), F::NUM_BITS), true);
            let bld = move |cs: &mut MonCS<F>, a: &[AllocatedNum<F>]| Num::from(a[0].clone()).decompose(cs.namespace(|| "dec"), n).map(|bv| bits_out(&bv));
            if fits {
                let e: Vec<F> = (0..n).map(|i| bit(&v, i)).collect();
                fun(t, "decompose", &[f], &bld, &e, hb.map(|x| Hostile { budget: x, tries: 1 }));
            } else {
                must_reject(t, "decompose", &[f], &bld, hb);
            }
        }
        2 => {
            // bit-vector equality of a number and bits supplied as wires
            let m = n.min(24);
            let bits = t.rng.big_bits(m);
            let rel = t.rng.below(4);
            let x = match rel {
                0 | 1 => bits.clone(),
                2 => bits.clone() + 1,
                _ => t.rng.big_bits(m),
            };
            let mut ins = vec![f_of::<F>(&x)];
            ins.extend((0..m).map(|i| bit::<F>(&bits, i)));
            let bb = bits.clone();
            let via = t.rng.below(4);
            t.case(&format!("Num::is_equal m={} num={} bits={} via={}", m, hex(&x), hex(&bits), via), true);
            // build the vector directly, or through structural edits that denote the same bits
            let bld = move |cs: &mut MonCS<F>, a: &[AllocatedNum<F>]| {
                use validate_btc_header::util::bit::{Bit, Bitvector};
                let mk = |i: usize| Bit::new(lc1(&a[1 + i]), Some(bb.bit(i as u64)));
                let all: Vec<Bit<F>> = (0..m).map(mk).collect();
                let bv = match via {
                    0 => Bitvector::from_bits(all),
                    1 => Bitvector::from_bits(all.into_iter().rev().collect()).reversed(),
                    2 => {
                        let mut long = all.clone();
                        long.push(Bit::new_true::<MonCS<F>>());
                        Bitvector::from_bits(long).truncate(m)
                    }
                    _ => {
                        let mut bv = Bitvector::from_bits(vec![]);
                        for x in all {
                            bv.push(x);
                        }
                        bv
                    }
                };
                Num::from(a[0].clone()).is_equal(cs.namespace(|| "iseq"), &bv)?;
                Ok(vec![])
            };
            if x == bits {
                t.ev("bit-vector equalities that hold");
                must_accept(t, "Num::is_equal", &ins, &bld);
            } else {
                t.ev("bit-vector equalities that fail");
                must_reject(t, "Num::is_equal", &ins, &bld, Some(30));
            }
        }
        3 => {
            // well-formedness and decomposition of a multi-limb number
            let w = t.rng.range(1, 20.min(cap));
            let k = t.rng.range(1, 4);
            let mut l: Vec<BigInt> = (0..k).map(|_| t.rng.big_corner(w)).collect();
            let ok = t.rng.chance(1, 2);
            if !ok {
                let i = t.rng.range(0, k - 1);
                l[i] = match t.rng.below(3) {
                    0 => pow2(w),
                    1 => &p - 1,
                    _ => pow2(w) + t.rng.big_bits(w),
                };
            }
            let ok = l.iter().all(|x| *x < pow2(w));
            let dec = t.rng.chance(1, 2);
            t.case(&format!("{} w={} limbs={:?}", if dec { "BigNat::decompose" } else { "assert_well_formed" }, w, l), true);
            let ins = fs::<F>(&l);
            if dec {
                let bld = move |cs: &mut MonCS<F>, a: &[AllocatedNum<F>]| bn(a, w).decompose(cs.namespace(|| "d")).map(|v| bits_out(&v));
                if ok {
                    let e: Vec<F> = (0..k * w).map(|i| bit(&l[i / w], i % w)).collect();
                    fun(t, "BigNat::decompose", &ins, &bld, &e, Some(Hostile { budget: 40, tries: 1 }));
                } else {
                    must_reject(t, "BigNat::decompose", &ins, &bld, Some(40));
                }
            } else {
                let bld = move |cs: &mut MonCS<F>, a: &[AllocatedNum<F>]| bn(a, w).assert_well_formed(cs.namespace(|| "wf")).map(|_| vec![]);
                if ok {
                    must_accept(t, "assert_well_formed", &ins, &bld);
                } else {
                    must_reject(t, "assert_well_formed", &ins, &bld, Some(40));
                }
            }
        }
        _ => {
            // minimum-size enforcement
            let w = t.rng.range(1, 16.min(cap));
            let k = t.rng.range(1, 4);
            let full = t.rng.chance(1, 3);
            let mb = if full { w * k } else { t.rng.range(1, w * k) };
            let v = match t.rng.below(4) {
                0 => pow2(mb - 1),
                1 => pow2(mb - 1) - 1,
                _ => t.rng.big_corner(w * k),
            };
            let ok = v >= pow2(mb - 1);
            let l = split(&v, w, k);
            let name = if full { "enforce_full_bits" } else { "enforce_min_bits" };
            t.case(&format!("{} w={} k={} min={} v={}", name, w, k, mb, hex(&v)), true);
            t.ev(if ok { "numbers long enough" } else { "numbers too short" });
            let bld = move |cs: &mut MonCS<F>, a: &[AllocatedNum<F>]| {
                let mut n = bn(a, w);
                if full {
                    n.enforce_full_bits(cs.namespace(|| "full"))?;
                } else {
                    n.enforce_min_bits(cs.namespace(|| "min"), mb)?;
                }
                Ok(vec![])
            };
            if ok {
                must_accept(t, name, &fs::<F>(&l), &bld);
            } else {
                must_reject(t, name, &fs::<F>(&l), &bld, Some(40));
            }
        }
    }
}

/// BigNat::from_num: limbs are exactly the canonical digits of the number
fn from_num_case<F: PrimeField>(t: &mut T) {
    let cap = F::CAPACITY as usize;
    let (w, k) = match t.rng.below(4) {
        0 => (64.min(cap), t.rng.range(1, (cap + 2) / 64.min(cap) + 1)),
        1 => {
            let w = t.rng.range(1, cap);
            (w, (cap + 1 + w - 1) / w)
        }
        _ => {
            let w = t.rng.range(1, 40.min(cap));
            (w, t.rng.range(1, (cap + w) / w))
        }
    };
    let p = modulus::<F>();
    if w * k > cap && w + 3 > cap {
        return; // the canonical check compares limbs, which needs two spare bits
    }
    let room = pow2(w * k);
    let v = match t.rng.below(6) {
        0 => t.rng.big_corner(20.min(w * k)) % &p,
        1 => &p - 1 - t.rng.below(3),
        2 => n_of(&t.rng.field::<F>()),
        3 => &room % &p,
        _ => t.rng.big_corner((w * k).min(cap)),
    };
    let fits = v < room;
    t.case(&format!("from_num w={} k={} v={} F{}", w, k, hex(&v), F::NUM_BITS), true);
    t.ev(if fits { "value fits" } else { "value does not fit" });
    if room > p {
        t.ev("from_num layouts wider than the field (aliases exist)");
    }
    let f = f_of::<F>(&v);
    let bld = move |cs: &mut MonCS<F>, a: &[AllocatedNum<F>]| BigNat::from_num(cs.namespace(|| "fn"), Num::from(a[0].clone()), w, k).map(|n| outs(&n));
    if fits {
        let e = fs::<F>(&split(&v, w, k));
        fun(t, "from_num", &[f], &bld, &e, Some(Hostile { budget: 30, tries: 2 }));
        // the specific forgery: digits of v + j*p
        let s = run_gadget(MonCS::wit(), &[f], &bld);
        if let Out::Ok(o) = &s.out {
            let mut alias = &v + &p;
            while alias < room {
                let sys = crate::solver::Sys::new(&s.cs);
                let def = sys.defaults(&s.cs);
                let mut known = vec![None; def.len()];
                known[sys.idx(s.ins[0])] = Some(f);
                let mut sys = sys;
                for (x, (lc, _)) in fs::<F>(&split(&alias, w, k)).iter().zip(o) {
                    sys.force(&lc_of(lc), *x);
                }
                t.ev("alias (v + j*p) forgeries sought");
                if sys.solve(&known, &def, &mut t.rng, 60).is_some() {
                    t.viol("from_num/alias-accepted", format!("from_num(limb width {}, {} limbs) of {} also accepts the limbs of {} = value + j*p over the {}-bit field", w, k, hex(&v), hex(&alias), F::NUM_BITS));
                    return;
                }
                alias += &p;
                if t.rng.chance(1, 2) {
                    break;
                }
            }
        }
    } else {
        must_reject(t, "from_num", &[f], &bld, Some(30));
    }
}

pub fn c09(r: &Run) -> i32 {
    let n = r.n(20000, 400000);
    r.par("range-pal", n, |t| range_case::<Pal>(t));
    r.par("range-fr", n / 2, |t| range_case::<Fr>(t));
    r.par("range-f61", n * 2, |t| range_case::<F61>(t));
    r.par("from-num-pal", n / 4, |t| from_num_case::<Pal>(t));
    r.par("from-num-fr", n / 10, |t| from_num_case::<Fr>(t));
    r.par("from-num-f61", n, |t| from_num_case::<F61>(t));
    r.par("from-num-f127", n / 2, |t| from_num_case::<F127>(t));
    r.wrapping_build();
    r.finish(
        "values in range, on either side of 2^n, near the modulus and uniform, for widths up to the field capacity; limb vectors with one oversized limb; numbers just shorter/longer than the required minimum; distinct = distinct (gadget, width, value, field)",
        &["widths between 1 and the field capacity", "forgeries are sought with a bounded solver: not finding one is not a proof"],
        &[("value fits", 1000), ("value does not fit", 1000), ("numbers too short", 100), ("hostile witnesses sought", 1000)],
    )
}

// ---------------------------------------------------------------- C10
/// limbs bounded by mw denoting exactly n, with random non-canonical carries; None if impossible
fn spread(t: &mut T, n: &BigInt, w: usize, k: usize, mw: &BigInt) -> Option<Vec<BigInt>> {
    let mut l = split(n, w, k);
    let hi = n >> (w * k);
    l[k - 1] += hi << w;
    if l[k - 1] > *mw {
        return None;
    }
    // borrow from higher limbs
    for i in (1..k).rev() {
        if l[i] == b(0) {
            continue;
        }
        let room = (mw - &l[i - 1]) >> w;
        let m = room.min(l[i].clone());
        if m <= b(0) {
            continue;
        }
        let c = match t.rng.below(4) {
            0 => b(0),
            1 => m.clone(),
            _ => t.rng.big_bits(m.bits() as usize).min(m),
        };
        l[i] -= &c;
        l[i - 1] += c << w;
    }
    if l.iter().any(|x| x > mw) {
        return None;
    }
    Some(l)
}

fn carried_case<F: PrimeField>(t: &mut T) {
    let cap = F::CAPACITY as usize;
    let w = match t.rng.below(4) {
        0 => t.rng.range(2, 6),
        1 => (*t.rng.pick(&[8usize, 16, 32, 60, 64])).min(cap / 3),
        _ => t.rng.range(2, cap / 3),
    };
    // word bound: from canonical up to what products of limbs reach
    let max_extra = (cap.saturating_sub(w + 2)).min(w + 8);
    let mw = match t.rng.below(5) {
        0 => pow2(w) - 1,
        1 => (pow2(w) - 1) * 2,
        2 => pow2(w + t.rng.range(0, max_extra)),
        3 => pow2(w + t.rng.range(0, max_extra)) - 1,
        _ => (pow2(w) - 1) * (1 + t.rng.below(1 << max_extra.min(12))),
    };
    // documented requirement of the technique: a carried sum of two words fits the field
    if (mw.bits() as usize) + 2 > cap {
        return;
    }
    let k = t.rng.size(1, 7, 24);
    let k2 = if t.rng.chance(1, 3) { t.rng.size(1, 7, 24) } else { k };
    let regroup = t.rng.chance(1, 2);
    let mut la: Vec<BigInt> = (0..k).map(|_| t.rng.big_corner(mw.bits() as usize).min(mw.clone())).collect();
    if k2 < k && t.rng.chance(1, 2) {
        for x in la.iter_mut().skip(k2) {
            *x = b(0);
        }
    }
    let na = joined(&la, w);
    let p = modulus::<F>();
    let mut diff = b(0);
    let lb = match t.rng.below(6) {
        0 | 1 | 2 => spread(t, &na, w, k2, &mw).unwrap_or_else(|| (0..k2).map(|i| la.get(i).cloned().unwrap_or(b(0))).collect()),
        3 => {
            diff = match t.rng.below(6) {
                0 => b(1),
                1 => b(0) - 1,
                2 => p.clone(),
                3 => b(0) - &p,
                4 => pow2(w * k.min(k2)),
                _ => pow2(t.rng.range(0, w * k)),
            };
            let m = &na + &diff;
            if m < b(0) {
                return;
            }
            match spread(t, &m, w, k2, &mw) {
                Some(x) => x,
                None => return,
            }
        }
        _ => (0..k2).map(|_| t.rng.big_corner(mw.bits() as usize).min(mw.clone())).collect(),
    };
    let nb = joined(&lb, w);
    let _ = diff;
    let eq = na == nb;
    let name = if regroup { "equal_when_carried_regroup" } else { "equal_when_carried" };
    t.case(&format!("{} w={} max_word={} a={:?} b={:?} F{}", name, w, hex(&mw), la, lb, F::NUM_BITS), true);
    t.ev(if eq { "integer-equal pairs" } else { "integer-different pairs" });
    if eq && la != lb {
        t.ev("integer-equal pairs with different limbs");
    }
    if k != k2 {
        t.ev("pairs with different limb counts");
    }
    let ins: Vec<F> = fs::<F>(&la).into_iter().chain(fs::<F>(&lb)).collect();
    let own = t.rng.chance(1, 2);
    let (ma, mb) = if own { (mw.clone(), mw.clone()) } else { (la.iter().max().unwrap().clone().max(pow2(w) - 1), lb.iter().max().unwrap().clone().max(pow2(w) - 1)) };
    let bld = move |cs: &mut MonCS<F>, a: &[AllocatedNum<F>]| {
        let mut x = bn(&a[..k], w);
        let mut y = bn(&a[k..], w);
        x.params.max_word = ma.clone();
        y.params.max_word = mb.clone();
        if regroup {
            x.equal_when_carried_regroup(cs.namespace(|| "e"), &y)?;
        } else {
            x.equal_when_carried(cs.namespace(|| "e"), &y)?;
        }
        Ok(vec![])
    };
    if eq {
        must_accept(t, name, &ins, &bld);
    } else {
        must_reject(t, name, &ins, &bld, Some(30));
    }
}

pub fn equal_case<F: PrimeField>(t: &mut T) {
    let w = t.rng.range(1, 60.min(F::CAPACITY as usize));
    let k = t.rng.size(1, 6, 24);
    let k2 = if t.rng.chance(1, 2) { t.rng.size(1, 6, 24) } else { k };
    let n = t.rng.big_corner(w * k.min(k2));
    let m = match t.rng.below(5) {
        0 | 1 => n.clone(),
        2 => &n ^ pow2(t.rng.range(0, w * k2 - 1)),
        3 => t.rng.big_bits(w * k2),
        _ => n.clone() & (pow2(w * k2) - 1),
    };
    let (la, lb) = (split(&n, w, k), split(&m, w, k2));
    t.case(&format!("equal w={} a={:?} b={:?}", w, la, lb), true);
    t.ev(if n == m { "integer-equal pairs" } else { "integer-different pairs" });
    if k != k2 {
        t.ev("pairs with different limb counts");
    }
    let ins: Vec<F> = fs::<F>(&la).into_iter().chain(fs::<F>(&lb)).collect();
    let bld = move |cs: &mut MonCS<F>, a: &[AllocatedNum<F>]| bn(&a[..k], w).equal(cs.namespace(|| "e"), &bn(&a[k..], w)).map(|_| vec![]);
    if n == m {
        must_accept(t, "equal", &ins, &bld);
    } else {
        must_reject(t, "equal", &ins, &bld, Some(30));
    }
}

pub fn c10(r: &Run) -> i32 {
    let n = r.n(40000, 800000);
    r.par("carried-f61", n * 2, |t| carried_case::<F61>(t));
    r.par("carried-f127", n, |t| carried_case::<F127>(t));
    r.par("carried-pal", n, |t| carried_case::<Pal>(t));
    r.par("carried-fr", n / 2, |t| carried_case::<Fr>(t));
    r.par("equal-pal", n / 2, |t| equal_case::<Pal>(t));
    r.par("equal-f61", n / 2, |t| equal_case::<F61>(t));
    r.finish(
        "pairs of limb vectors denoting equal integers through different carries, off-by-one, off by the field modulus, off by a power of two, and unrelated; random limb widths, word bounds and limb counts; distinct = distinct (gadget, layout, limbs, field)",
        &["every limb is at most the declared word bound, and twice the word bound fits the field", "forgeries are sought with a bounded solver: not finding one is not a proof"],
        &[("integer-equal pairs with different limbs", 500), ("integer-different pairs", 1000), ("pairs with different limb counts", 500)],
    )
}

// ---------------------------------------------------------------- C11
/// A multi-limb operand: limbs, limb width, declared word bound
#[derive(Clone, Debug)]
struct Opnd {
    l: Vec<BigInt>,
    w: usize,
    mw: BigInt,
}
impl Opnd {
    fn n(&self) -> BigInt {
        joined(&self.l, self.w)
    }
    fn k(&self) -> usize {
        self.l.len()
    }
    fn canon(n: &BigInt, w: usize, k: usize) -> Opnd {
        Opnd { l: split(n, w, k), w, mw: pow2(w) - 1 }
    }
    fn rand(t: &mut T, w: usize, k: usize, carried: bool) -> Opnd {
        if carried {
            let n = t.rng.big_corner(w * k);
            Opnd::canon(&n, w, k)
        } else {
            let mw = match t.rng.below(4) {
                0 => (pow2(w) - 1) * (2 + t.rng.below(6)),
                1 => pow2(w + t.rng.range(1, 4)),
                2 => pow2(w + t.rng.range(1, 4)) - 1,
                _ => (pow2(w) - 1) * (1 + t.rng.below(1 << w.min(6))),
            };
            let l = (0..k)
                .map(|_| match t.rng.below(3) {
                    0 => mw.clone(),
                    _ => t.rng.big_corner(mw.bits() as usize).min(mw.clone()),
                })
                .collect();
            Opnd { l, w, mw }
        }
    }
    fn show(&self) -> String {
        format!("{:?}(w{},mw{})", self.l, self.w, hex(&self.mw))
    }
}
fn ins_of<F: PrimeField>(o: &[&Opnd]) -> Vec<F> {
    o.iter().flat_map(|x| fs::<F>(&x.l)).collect()
}
/// rebuild the operands from their input wires
fn take<F: PrimeField>(a: &[AllocatedNum<F>], o: &[&Opnd]) -> Vec<BigNat<F>> {
    let mut p = 0;
    o.iter()
        .map(|x| {
            let mut n = bn(&a[p..p + x.k()], x.w);
            n.params.max_word = x.mw.clone();
            p += x.k();
            n
        })
        .collect()
}
/// carried comparison of two sums with words up to mw is possible in the field
fn carries_fit<F: PrimeField>(mw: &BigInt, w: usize) -> bool {
    let c = (BigInt::from(mw * 2u8) / (pow2(w) - 1u8)).bits() as usize;
    c + w + 1 <= (F::CAPACITY as usize) && mw.bits() as usize + 2 <= F::CAPACITY as usize
}
/// a representation-independent claim: the number on the wires, not each limb
fn value_outs<F: PrimeField>(n: &BigNat<F>) -> Outs<F> {
    outs(n)
}
fn claimed<F: PrimeField>(n: &BigNat<F>, expect: &BigInt) -> bool {
    n.value.as_ref() == Some(expect)
}

fn mult_case<F: PrimeField>(t: &mut T) {
    let cap = F::CAPACITY as usize;
    let w = match t.rng.below(4) {
        0 => t.rng.range(1, 4),
        1 => (*t.rng.pick(&[8usize, 16, 32, 64])).min((cap - 8) / 2),
        _ => t.rng.range(2, (cap - 8) / 2),
    };
    let (ka, kb) = (t.rng.range(1, 5), t.rng.range(1, 5));
    let ca = t.rng.chance(3, 4);
    let cb = t.rng.chance(3, 4);
    let a = Opnd::rand(t, w, ka, ca);
    let b2 = Opnd::rand(t, w, kb, cb);
    let mw = &a.mw * &b2.mw * (ka.min(kb) as u64);
    let prod = a.n() * b2.n();
    if !carries_fit::<F>(&mw, w) || prod.bits() as usize > w * (ka + kb) || ka + kb > 1000 {
        return;
    }
    t.case(&format!("mult {} * {} F{}", a.show(), b2.show(), F::NUM_BITS), true);
    if !ca || !cb {
        t.ev("products of uncarried operands");
    }
    let (x, y) = (a.clone(), b2.clone());
    let bld = move |cs: &mut MonCS<F>, v: &[AllocatedNum<F>]| {
        let o = take(v, &[&x, &y]);
        let p = o[0].mult(cs.namespace(|| "m"), &o[1])?;
        assert!(!cs.witness || claimed(&p, &(x.n() * y.n())), "product object reports {:?}", p.value);
        Ok(value_outs(&p))
    };
    let e = fs::<F>(&split(&prod, w, ka + kb));
    let small = w * (ka + kb) <= 90;
    fun(t, "mult", &ins_of(&[&a, &b2]), &bld, &e, if small { Some(Hostile { budget: 60, tries: 2 }) } else { None });
    t.ev("products");
}

fn divides_case<F: PrimeField>(t: &mut T) {
    let cap = F::CAPACITY as usize;
    let w = t.rng.range(2, ((cap - 8) / 2).min(40));
    let (ka, kb) = (t.rng.range(1, 4), t.rng.range(1, 4));
    let d = t.rng.big_corner(w * ka);
    let n = match t.rng.below(4) {
        0 | 1 => {
            let lim = w * kb;
            if d.bits() as usize >= lim || d == b(0) {
                &d & (pow2(lim) - 1)
            } else {
                let q = t.rng.big_corner(lim - d.bits() as usize);
                &d * q
            }
        }
        2 => {
            let lim = w * kb;
            let x = if d == b(0) || d.bits() as usize + 1 >= lim { t.rng.big_corner(lim) } else { &d * t.rng.big_bits(lim - d.bits() as usize - 1) + 1 };
            x & (pow2(lim) - 1)
        }
        _ => t.rng.big_corner(w * kb),
    };
    if d == b(0) && n == b(0) {
        return; // 0 | 0: no quotient is defined
    }
    let (a, o) = (Opnd::canon(&d, w, ka), Opnd::canon(&n, w, kb));
    let mw = &a.mw * &a.mw * (ka.min(kb) as u64);
    if !carries_fit::<F>(&mw, w) {
        return;
    }
    let yes = d != b(0) && (&n % &d) == b(0);
    t.case(&format!("divides {} | {} F{}", a.show(), o.show(), F::NUM_BITS), true);
    t.ev(if yes { "divisible pairs" } else { "indivisible pairs" });
    let (x, y) = (a.clone(), o.clone());
    let bld = move |cs: &mut MonCS<F>, v: &[AllocatedNum<F>]| {
        let z = take(v, &[&x, &y]);
        z[0].divides(cs.namespace(|| "d"), &z[1]).map(|_| vec![])
    };
    let ins = ins_of(&[&a, &o]);
    if yes {
        must_accept(t, "divides", &ins, &bld);
    } else {
        must_reject(t, "divides", &ins, &bld, Some(if w * kb <= 60 { 80 } else { 15 }));
    }
}

fn submin_case<F: PrimeField>(t: &mut T) {
    let cap = F::CAPACITY as usize;
    let w = match t.rng.below(3) {
        0 => t.rng.range(1, 4),
        1 => (*t.rng.pick(&[8usize, 16, 32, 64])).min(cap - 4),
        _ => t.rng.range(1, cap - 4),
    };
    let (ka, kb) = (t.rng.range(1, 4), t.rng.range(1, 4));
    let n = t.rng.big_corner(w * ka);
    let m = match t.rng.below(6) {
        0 => n.clone() & (pow2(w * kb) - 1),
        1 => (&n + 1) & (pow2(w * kb) - 1),
        2 if n > b(0) => (&n - 1) & (pow2(w * kb) - 1),
        3 => (&n + pow2(t.rng.range(0, w * kb - 1))) & (pow2(w * kb) - 1),
        _ => t.rng.big_corner(w * kb),
    };
    let a = Opnd::canon(&n, w, ka);
    // the subtrahend may be uncarried
    let mut o = Opnd::canon(&m, w, kb);
    let kind = t.rng.below(2);
    if kind == 0 && kb > 1 && t.rng.chance(1, 3) {
        let mw = pow2(w + 2) - 1;
        if let Some(l) = spread(t, &m, w, kb, &mw) {
            o = Opnd { l, w, mw };
            t.ev("uncarried subtrahends");
        }
    }
    let sum = &o.mw + &a.mw;
    if !carries_fit::<F>(&sum, w) {
        return;
    }
    let ins = ins_of::<F>(&[&a, &o]);
    let (x, y) = (a.clone(), o.clone());
    let hb = if w * ka.max(kb) <= 80 { 60 } else { 10 };
    if kind == 0 {
        t.case(&format!("sub {} - {} F{}", a.show(), o.show(), F::NUM_BITS), true);
        let bld = move |cs: &mut MonCS<F>, v: &[AllocatedNum<F>]| {
            let z = take(v, &[&x, &y]);
            let d = z[0].sub(cs.namespace(|| "s"), &z[1])?;
            if cs.witness && x.n() >= y.n() {
                assert!(claimed(&d, &(x.n() - y.n())), "difference object reports {:?}", d.value);
            }
            Ok(outs(&d))
        };
        if n >= m {
            t.ev("differences");
            let e = fs::<F>(&split(&(&n - &m), w, ka));
            fun(t, "sub", &ins, &bld, &e, Some(Hostile { budget: hb, tries: 2 }));
        } else {
            t.ev("negative differences");
            must_reject(t, "sub", &ins, &bld, Some(hb));
        }
    } else {
        t.case(&format!("min {} , {} F{}", a.show(), o.show(), F::NUM_BITS), true);
        let e = n.clone().min(m.clone());
        let k = ka.max(kb);
        let ee = e.clone();
        let bld = move |cs: &mut MonCS<F>, v: &[AllocatedNum<F>]| {
            let z = take(v, &[&x, &y]);
            let d = z[0].min(cs.namespace(|| "min"), &z[1])?;
            assert!(!cs.witness || claimed(&d, &ee), "minimum object reports {:?}", d.value);
            Ok(outs(&d))
        };
        t.ev("minima");
        if n == m {
            t.ev("minima of equal numbers");
        }
        fun(t, "min", &ins, &bld, &fs::<F>(&split(&e, w, k)), Some(Hostile { budget: hb, tries: 2 }));
    }
}

pub fn c11(r: &Run) -> i32 {
    let n = r.n(12000, 300000);
    r.par("mult-f61", n * 2, |t| mult_case::<F61>(t));
    r.par("mult-f127", n, |t| mult_case::<F127>(t));
    r.par("mult-pal", n, |t| mult_case::<Pal>(t));
    r.par("divides-f61", n * 2, |t| divides_case::<F61>(t));
    r.par("divides-pal", n, |t| divides_case::<Pal>(t));
    r.par("submin-f61", n * 3, |t| submin_case::<F61>(t));
    r.par("submin-f127", n, |t| submin_case::<F127>(t));
    r.par("submin-pal", n, |t| submin_case::<Pal>(t));
    r.par("submin-fr", n / 3, |t| submin_case::<Fr>(t));
    r.finish(
        "operand pairs with corner-heavy values (equal, off by one, off by a power of two, all ones, uncarried words, different limb counts) over random limb layouts; distinct = distinct (operation, operands, field)",
        &["operand words stay within their declared bound and the field has room for the products, as the carry technique requires", "forgeries are sought with a bounded solver: not finding one is not a proof"],
        &[("products", 1000), ("products of uncarried operands", 200), ("divisible pairs", 500), ("indivisible pairs", 500), ("differences", 500), ("negative differences", 300), ("minima", 1000), ("minima of equal numbers", 100), ("hostile witnesses sought", 2000)],
    )
}

// ---------------------------------------------------------------- C12
fn modular_case<F: PrimeField>(t: &mut T) {
    let cap = F::CAPACITY as usize;
    let w = match t.rng.below(4) {
        0 => t.rng.range(2, 5),
        1 => (*t.rng.pick(&[8usize, 16, 32, 64])).min((cap - 10) / 2),
        _ => t.rng.range(2, (cap - 10) / 2),
    };
    let (ka, kb, km) = (t.rng.range(1, 4), t.rng.range(1, 4), t.rng.range(1, 4));
    let (ca, cb) = (t.rng.chance(3, 4), t.rng.chance(3, 4));
    let a = Opnd::rand(t, w, ka, ca);
    let bb = Opnd::rand(t, w, kb, cb);
    let mut m = t.rng.big_corner(w * km);
    if m == b(0) {
        m = b(1 + t.rng.below(3));
    }
    let zero = t.rng.chance(1, 25);
    let mo = Opnd::canon(&if zero { b(0) } else { m.clone() }, w, km);
    let op = t.rng.below(3);
    let left = if op == 1 { a.mw.clone() } else { &a.mw * &bb.mw * (ka.min(kb) as u64) };
    let right = (pow2(w) - 1) * (pow2(w) - 1) * ((ka + kb).min(km) as u64 + 1) + pow2(w);
    if !carries_fit::<F>(&left.clone().max(right), w) {
        return;
    }
    if zero {
        // nothing is a remainder by zero
        t.case(&format!("op {} modulus zero {} {} F{}", op, a.show(), bb.show(), F::NUM_BITS), true);
        t.ev("zero moduli");
        let ins = ins_of::<F>(&[&a, &bb, &mo]);
        let bld = move |cs: &mut MonCS<F>, v: &[AllocatedNum<F>]| {
            let o = take(v, &[&a, &bb, &mo]);
            let n = cs.namespace(|| "m");
            match op {
                0 => o[0].mult_mod(n, &o[1], &o[2]).map(|_| vec![]),
                1 => o[0].red_mod(n, &o[2]).map(|_| vec![]),
                _ => o[0].mult_mod(n, &o[0], &o[2]).map(|_| vec![]),
            }
        };
        must_reject(t, "modulus zero", &ins, &bld, if w * (ka + kb) <= 60 { Some(60) } else { None });
        return;
    }
    // a declared minimum size of the modulus (as enforce_min_bits records it)
    let minb = if t.rng.chance(1, 2) { t.rng.range(1, m.bits() as usize) } else if t.rng.chance(1, 2) { m.bits() as usize } else { 0 };
    let val = if op == 1 { a.n() } else { a.n() * bb.n() };
    let (q, r) = (&val / &m, &val % &m);
    if op != 1 && val.bits() as usize > w * (ka + kb) && op == 2 {
        return; // assert_product_mod sizes its quotient for carried operands
    }
    if !ca || !cb {
        t.ev("uncarried operands");
    }
    if minb > 0 {
        t.ev("moduli with a declared minimum size");
    }
    if minb == m.bits() as usize {
        t.ev("moduli with an exact declared size");
    }
    let (x, y, z) = (a.clone(), bb.clone(), mo.clone());
    let (qq, rr) = (q.clone(), r.clone());
    let small = w * (ka + kb) <= 60;
    let host = if small { Some(Hostile { budget: 80, tries: 2 }) } else { None };
    match op {
        0 => {
            t.case(&format!("mult_mod {} * {} mod {} min_bits {} F{}", a.show(), bb.show(), mo.show(), minb, F::NUM_BITS), true);
            let bld = move |cs: &mut MonCS<F>, v: &[AllocatedNum<F>]| {
                let mut o = take(v, &[&x, &y, &z]);
                o[2].params.min_bits = minb;
                let (q, r) = o[0].mult_mod(cs.namespace(|| "mm"), &o[1], &o[2])?;
                assert!(!cs.witness || (claimed(&q, &qq) && claimed(&r, &rr)), "quotient/remainder objects report {:?}, {:?}", q.value, r.value);
                let mut v = outs(&q);
                // the quotient's size is the gadget's choice: one wire summing up its limbs would
                // alias, so pad the claim to a fixed number of limbs
                while v.len() < 14 {
                    v.push((Lin::<F>::zero(), Some(F::ZERO)));
                }
                v.extend(outs(&r));
                Ok(v)
            };
            let mut e = fs::<F>(&split(&q, w, 14));
            e.extend(fs::<F>(&split(&r, w, km)));
            fun(t, "mult_mod", &ins_of(&[&a, &bb, &mo]), &bld, &e, host);
            t.ev("modular products");
            forge_qr::<F>(t, &a, Some(&bb), &mo, minb, &q, &r);
        }
        1 => {
            t.case(&format!("red_mod {} mod {} min_bits {} F{}", a.show(), mo.show(), minb, F::NUM_BITS), true);
            let bld = move |cs: &mut MonCS<F>, v: &[AllocatedNum<F>]| {
                let mut o = take(v, &[&x, &z]);
                o[1].params.min_bits = minb;
                let r = o[0].red_mod(cs.namespace(|| "rm"), &o[1])?;
                assert!(!cs.witness || claimed(&r, &rr), "remainder object reports {:?}", r.value);
                Ok(outs(&r))
            };
            fun(t, "red_mod", &ins_of(&[&a, &mo]), &bld, &fs::<F>(&split(&r, w, km)), host);
            t.ev("reductions");
            forge_qr::<F>(t, &a, None, &mo, minb, &q, &r);
        }
        _ => {
            // claimed remainder: the true one, or something not even congruent
            let good = t.rng.chance(1, 2);
            let c = if good {
                r.clone()
            } else {
                let d = match t.rng.below(3) {
                    0 => b(1),
                    1 => pow2(t.rng.range(0, w * km - 1)),
                    _ => t.rng.big_bits(w * km),
                };
                (&r + d) & (pow2(w * km) - 1)
            };
            let good = c == r;
            if !good && (&c % &m) == r {
                return;
            }
            let ro = Opnd::canon(&c, w, km);
            t.case(&format!("assert_product_mod {} * {} mod {} == {} F{}", a.show(), bb.show(), mo.show(), ro.show(), F::NUM_BITS), true);
            let u = ro.clone();
            let bld = move |cs: &mut MonCS<F>, v: &[AllocatedNum<F>]| {
                let o = take(v, &[&x, &y, &z, &u]);
                let q = o[0].assert_product_mod(cs.namespace(|| "apm"), &o[1], &o[2], &o[3])?;
                assert!(!cs.witness || claimed(&q, &qq), "quotient object reports {:?}", q.value);
                Ok(if good { outs(&q) } else { vec![] })
            };
            let ins = ins_of(&[&a, &bb, &mo, &ro]);
            if good {
                t.ev("modular assertions that hold");
                fun(t, "assert_product_mod", &ins, &bld, &fs::<F>(&split(&q, w, ka + kb)), host);
            } else {
                t.ev("modular assertions that fail");
                must_reject(t, "assert_product_mod", &ins, &bld, if small { Some(80) } else { None });
            }
        }
    }
}
/// the specific forgery: quotient off by d, remainder compensated with d times the modulus
fn forge_qr<F: PrimeField>(t: &mut T, a: &Opnd, bb: Option<&Opnd>, mo: &Opnd, minb: usize, q: &BigInt, r: &BigInt) {
    let w = a.w;
    let m = mo.n();
    for d in [1i64, 2, -1] {
        let (q2, r2) = (q - d, r + &m * d);
        if q2 < b(0) || r2 < b(0) || r2 >= pow2(w * mo.k()) {
            continue;
        }
        let mut l: Vec<&Opnd> = vec![a];
        if let Some(x) = bb {
            l.push(x);
        }
        l.push(mo);
        let ins = ins_of::<F>(&l);
        let ops: Vec<Opnd> = l.iter().map(|x| (*x).clone()).collect();
        let two = bb.is_some();
        let bld = move |cs: &mut MonCS<F>, v: &[AllocatedNum<F>]| {
            let mut o = take(v, &ops.iter().collect::<Vec<_>>());
            o.last_mut().unwrap().params.min_bits = minb;
            let r = if two { o[0].mult_mod(cs.namespace(|| "mm"), &o[1], &o[2])?.1 } else { o[0].red_mod(cs.namespace(|| "rm"), &o[1])? };
            Ok(outs(&r))
        };
        let s = run_gadget(MonCS::wit(), &ins, &bld);
        let Out::Ok(o) = &s.out else { return };
        let mut sys = crate::solver::Sys::new(&s.cs);
        let def = sys.defaults(&s.cs);
        let mut known = vec![None; def.len()];
        for v in &s.ins {
            let i = sys.idx(*v);
            known[i] = Some(def[i]);
        }
        for (x, (lc, _)) in fs::<F>(&split(&r2, w, mo.k())).iter().zip(o) {
            sys.force(&lc_of(lc), *x);
        }
        t.ev("remainders past the modulus sought");
        if sys.solve(&known, &def, &mut t.rng, 60).is_some() {
            t.viol(if two { "mult_mod/remainder-not-reduced" } else { "red_mod/remainder-not-reduced" }, format!("{} of {} by modulus {}: a satisfying witness has remainder {} (true remainder {})", if two { "modular product" } else { "reduction" }, l[..l.len() - 1].iter().map(|x| x.show()).collect::<Vec<_>>().join(" * "), hex(&m), hex(&r2), hex(r)));
            return;
        }
    }
}

pub fn c12(r: &Run) -> i32 {
    let n = r.n(12000, 300000);
    r.par("mod-f61", n * 2, |t| modular_case::<F61>(t));
    r.par("mod-f127", n, |t| modular_case::<F127>(t));
    r.par("mod-pal", n, |t| modular_case::<Pal>(t));
    r.par("mod-fr", n / 4, |t| modular_case::<Fr>(t));
    r.finish(
        "operands (carried and uncarried words), moduli from 1 to full width with no, a loose or an exact declared minimum size, and claimed remainders that are right, off by one, off by a power of two or random; distinct = distinct (operation, operands, field)",
        &["operand words stay within their declared bound, the modulus is positive and the field has room for the products", "forgeries are sought with a bounded solver: not finding one is not a proof"],
        &[("modular products", 1000), ("reductions", 1000), ("modular assertions that hold", 300), ("modular assertions that fail", 300), ("uncarried operands", 300), ("moduli with an exact declared size", 300), ("remainders past the modulus sought", 500), ("zero moduli", 100)],
    )
}

// ---------------------------------------------------------------- C20
fn mismatch_case<F: PrimeField>(t: &mut T) {
    use validate_btc_header::util::bit::Bit;
    use validate_btc_header::util::gadget::Gadget;
    let cap = F::CAPACITY as usize;
    let top = (cap - 8) / 3;
    let w1 = t.rng.range(2, top);
    let mut w2 = t.rng.range(2, top);
    if t.rng.chance(1, 3) {
        w2 = 2 * w1;
    }
    if t.rng.chance(1, 3) {
        w2 = w1 + 1;
    }
    if w1 == w2 {
        w2 += 1;
    }
    let (k1, k2) = (t.rng.range(1, 4), t.rng.range(1, 4));
    let k1 = if t.rng.chance(1, 2) { k2 } else { k1 };
    // the same small number, so that only the layouts differ
    let v = if t.rng.chance(1, 2) { t.rng.big_bits(2.min(w1)) + 1 } else { t.rng.big_corner((w1 * k1).min(w2 * k2)) };
    let a = Opnd::canon(&v, w1, k1);
    let c = Opnd::canon(&v, w2, k2);
    let a2 = Opnd::canon(&b(1), w1, k1);
    let op = t.rng.below(20);
    let names = ["equal", "is_equal", "concat", "equal_when_carried", "equal_when_carried_regroup", "divides", "mult", "add", "sub", "min", "assert_product_mod other", "assert_product_mod modulus", "assert_product_mod remainder", "mult_mod other", "mult_mod modulus", "red_mod", "mux", "is_equal limb count", "mux_tree inputs", "switch"];
    let name = names[op as usize];
    t.case(&format!("{} widths {}x{} / {}x{} value {} F{}", name, w1, k1, w2, k2, hex(&v), F::NUM_BITS), true);
    let setup = t.rng.chance(1, 2);
    let cs = if setup { MonCS::shape() } else { MonCS::wit() };
    let ins = ins_of::<F>(&[&a, &c, &a2]);
    let (x, y, z) = (a.clone(), c.clone(), a2.clone());
    let k3 = k1 + 1;
    let bld = move |cs: &mut MonCS<F>, v: &[AllocatedNum<F>]| -> Result<Outs<F>, bellpepper_core::SynthesisError> {
        let o = take(v, &[&x, &y, &z]);
        let (p, q, one) = (&o[0], &o[1], &o[2]);
        let n = cs.namespace(|| "op");
        let e: Outs<F> = vec![];
        match op {
            0 => p.equal(n, q).map(|_| e),
            1 => p.is_equal(n, q).map(|_| e),
            2 => p.concat(q).map(|_| e),
            3 => p.equal_when_carried(n, q).map(|_| e),
            4 => p.equal_when_carried_regroup(n, q).map(|_| e),
            5 => p.divides(n, q).map(|_| e),
            6 => p.mult(n, q).map(|_| e),
            7 => p.add::<MonCS<F>>(q).map(|_| e),
            8 => p.sub(n, q).map(|_| e),
            9 => p.min(n, q).map(|_| e),
            10 => p.assert_product_mod(n, q, one, p).map(|_| e),
            11 => one.assert_product_mod(n, one, q, one).map(|_| e),
            12 => p.assert_product_mod(n, one, one, q).map(|_| e),
            13 => p.mult_mod(n, q, one).map(|_| e),
            14 => p.mult_mod(n, one, q).map(|_| e),
            15 => p.red_mod(n, q).map(|_| e),
            16 => BigNat::mux(n, &Bit::new_true::<MonCS<F>>(), p, q).map(|_| e),
            17 => {
                let big = p.with_n_limbs::<MonCS<F>>(k3);
                p.is_equal(n, &big).map(|_| e)
            }
            18 => {
                let b1 = [Bit::new_true::<MonCS<F>>(), Bit::new_false::<MonCS<F>>()];
                let v = vec![p.clone(), one.clone(), p.clone()];
                BigNat::mux_tree(n, b1.iter(), &v).map(|_| e)
            }
            _ => BigNat::switch(n, &Bit::new_true::<MonCS<F>>(), p, q).map(|_| e),
        }
    };
    let s = run_gadget(cs, &ins, &bld);
    match &s.out {
        Out::Err(_) => t.ev("mismatches reported as errors"),
        Out::Panic(m) => t.viol(&format!("{}/mismatch-panics", name), format!("{} of operands laid out {}x{} and {}x{} limbs panicked ({}) instead of returning an error", name, w1, k1, w2, k2, m)),
        Out::Ok(_) => t.viol(&format!("{}/mismatch-accepted", name), format!("{} of operands laid out {}x{} and {}x{} limbs was synthesized ({}) instead of returning an error", name, w1, k1, w2, k2, if setup { "witness-free" } else if s.cs.sat() { "and satisfied" } else { "unsatisfied" })),
    }
}
/// values, limb lists and input lists that do not have the requested shape
fn unfit_case<F: PrimeField>(t: &mut T) {
    use crate::checks::structs::{own, sel};
    use validate_btc_header::util::gadget::Gadget;
    let cap = F::CAPACITY as usize;
    let w = t.rng.range(1, cap - 1);
    let k = t.rng.range(1, 4);
    let err = |t: &mut T, name: &str, what: String, s: &Seen<F>| match &s.out {
        Out::Err(_) => t.ev("unfit shapes reported as errors"),
        Out::Panic(m) => t.viol(&format!("{}/unfit-panics", name), format!("{} panicked ({}) instead of returning an error", what, m)),
        Out::Ok(_) => t.viol(&format!("{}/unfit-accepted", name), format!("{} was synthesized{} instead of returning an error", what, if s.cs.witness && s.cs.sat() { " and satisfied" } else { "" })),
    };
    match t.rng.below(6) {
        0 => {
            let (k0, mut k1) = (t.rng.range(0, 5), t.rng.range(0, 5));
            if k0 == k1 {
                k1 += 1;
            }
            let sw = t.rng.below(3);
            let name = ["default mux", "default switch", "default assert_equal"][sw as usize];
            let what = format!("{} of {} and {} wires", name, k0, k1);
            t.case(&format!("{} F{}", what, F::NUM_BITS), true);
            // the shared wires agree, the others are zero: nothing but the counts differs
            let mut ins: Vec<F> = vec![if t.rng.chance(1, 2) { F::ONE } else { F::ZERO }];
            let x: Vec<F> = (0..k0.min(k1)).map(|_| t.rng.field()).collect();
            for k in [k0, k1] {
                let mut y = x.clone();
                y.resize(k, F::ZERO);
                ins.extend(y);
            }
            let bld = move |cs: &mut MonCS<F>, a: &[AllocatedNum<F>]| {
                let (x, y) = (own(&a[1..1 + k0]), own(&a[1 + k0..]));
                let n = cs.namespace(|| "op");
                match sw {
                    0 => Gadget::mux(n, &sel(&a[0]), &x, &y).map(|_| vec![]),
                    1 => Gadget::switch(n, &sel(&a[0]), &x, &y).map(|_| vec![]),
                    _ => Gadget::assert_equal(n, &x, &y).map(|_| vec![]),
                }
            };
            let cs = if t.rng.chance(1, 2) { MonCS::shape() } else { MonCS::wit() };
            let s = run_gadget(cs, &ins, &bld);
            err(t, name, what, &s);
        }
        1 => {
            let d = t.rng.range(0, 4);
            let mut n = t.rng.range(0, 20);
            if n == 1 << d {
                n += 1;
            }
            let what = format!("mux_tree of {} numbers by {} bits", n, d);
            t.case(&format!("{} w={} F{}", what, w, F::NUM_BITS), true);
            let mut ins: Vec<F> = (0..d).map(|_| if t.rng.chance(1, 2) { F::ONE } else { F::ZERO }).collect();
            ins.extend((0..n).map(|_| f_of::<F>(&t.rng.big_bits(w))));
            let bld = move |cs: &mut MonCS<F>, a: &[AllocatedNum<F>]| {
                let bits: Vec<_> = a[..d].iter().map(sel).collect();
                let v: Vec<BigNat<F>> = a[d..].iter().map(|x| bn(std::slice::from_ref(x), w)).collect();
                BigNat::mux_tree(cs.namespace(|| "tree"), bits.iter(), &v).map(|_| vec![])
            };
            let cs = if t.rng.chance(1, 2) { MonCS::shape() } else { MonCS::wit() };
            let s = run_gadget(cs, &ins, &bld);
            err(t, "mux_tree", what, &s);
        }
        2 => {
            let mut n = t.rng.range(0, 6);
            if n == k {
                n += 1;
            }
            let what = format!("alloc_from_limbs of {} values as {} limbs of {} bits", n, k, w);
            t.case(&format!("{} F{}", what, F::NUM_BITS), true);
            let v: Vec<F> = (0..n).map(|i| if i < k { f_of(&t.rng.big_bits(w)) } else { F::ZERO }).collect();
            let bld = move |cs: &mut MonCS<F>, _a: &[AllocatedNum<F>]| BigNat::alloc_from_limbs(cs.namespace(|| "n"), || Ok(v.clone()), None, w, k).map(|_| vec![]);
            let s = run_gadget(MonCS::wit(), &[], &bld);
            err(t, "alloc_from_limbs", what, &s);
        }
        3 => {
            // too large by little or much, or negative
            let v = match t.rng.below(4) {
                0 => pow2(w * k),
                1 => pow2(w * k) + t.rng.big_bits(w * k),
                2 => pow2(w * k + t.rng.range(0, 80)) + t.rng.big_bits(w * k),
                _ => b(0) - (t.rng.big_bits(w * k) + 1),
            };
            let direct = t.rng.chance(1, 2);
            let name = if direct { "alloc_from_nat" } else { "Gadget::alloc" };
            let what = format!("{} of {} as {} limbs of {} bits", name, hex(&v), k, w);
            t.case(&format!("{} F{}", what, F::NUM_BITS), true);
            let bld = move |cs: &mut MonCS<F>, _a: &[AllocatedNum<F>]| {
                let n = cs.namespace(|| "n");
                if direct {
                    BigNat::alloc_from_nat(n, || Ok(v.clone()), w, k).map(|_| vec![])
                } else {
                    <BigNat<F> as Gadget>::alloc(n, Some(&v), (), &validate_btc_header::mp::bignat::BigNatParams::new(w, k)).map(|_| vec![])
                }
            };
            let s = run_gadget(MonCS::wit(), &[], &bld);
            err(t, name, what, &s);
        }
        4 => {
            // a field element that needs more limbs than asked for
            let x: F = t.rng.field();
            let w = t.rng.range(1, 64.min(cap - 1));
            let need = n_of(&x).bits() as usize;
            let k = need / w;
            if k == 0 || need <= w * k {
                return;
            }
            let k = t.rng.range(1, k);
            t.case(&format!("from_num {} as {} limbs of {} bits F{}", hx(&x), k, w, F::NUM_BITS), true);
            let bld = move |cs: &mut MonCS<F>, a: &[AllocatedNum<F>]| BigNat::from_num(cs.namespace(|| "n"), Num::from(a[0].clone()), w, k).map(|_| vec![]);
            must_reject(t, "from_num", &[x], &bld, if w * k <= 64 { Some(20) } else { None });
            t.ev("unfit shapes refused");
        }
        _ => {
            // operations that would need a number of other length
            let k1 = t.rng.range(1, 4) + k;
            let v = t.rng.big_corner(w * k);
            t.case(&format!("is_equal of {} and {} limbs of {} bits, both {} F{}", k, k1, w, hex(&v), F::NUM_BITS), true);
            let (a, c) = (Opnd::canon(&v, w, k), Opnd::canon(&v, w, k1));
            let ins = ins_of::<F>(&[&a, &c]);
            let flip = t.rng.chance(1, 2);
            let what = format!("is_equal of {} limbs and {} limbs", k, k1);
            let bld = move |cs: &mut MonCS<F>, z: &[AllocatedNum<F>]| {
                let o = take(z, &[&a, &c]);
                let (p, q) = if flip { (&o[1], &o[0]) } else { (&o[0], &o[1]) };
                p.is_equal(cs.namespace(|| "eq"), q).map(|_| vec![])
            };
            let cs = if t.rng.chance(1, 2) { MonCS::shape() } else { MonCS::wit() };
            let s = run_gadget(cs, &ins, &bld);
            err(t, "is_equal", what, &s);
        }
    }
}
pub fn c20(r: &Run) -> i32 {
    let n = r.n(60000, 1000000);
    r.par("unfit-pal", n / 2, |t| unfit_case::<Pal>(t));
    r.par("unfit-f61", n / 2, |t| unfit_case::<F61>(t));
    r.par("mismatch-pal", n, |t| mismatch_case::<Pal>(t));
    r.par("mismatch-f127", n, |t| mismatch_case::<F127>(t));
    r.wrapping_build();
    r.finish(
        "operand pairs with different limb widths (also double and off by one), limb counts, wire counts and selector/input counts, for every two-operand operation, with and without witness; values and limb lists that do not fit the requested shape, by little or much; distinct = distinct (operation, layouts, value, field)",
        &["an operation on operands that cannot be combined must return an error: any accepted circuit would relate numbers in different bases"],
        &[("mismatches reported as errors", 10000), ("unfit shapes reported as errors", 8000), ("unfit shapes refused", 1000)],
    )
}
