//! C04: every circuit has one shape, with or without a witness.
use super::bn::*;
use super::hdr;
use super::structs::{as_arg, own, sel, wires_outs};
use crate::btc;
use crate::fields::*;
use crate::gad::*;
use crate::mon::*;
use crate::report::*;
use crate::rng::*;
use bellpepper_core::num::AllocatedNum;
use bellpepper_core::{ConstraintSystem, LinearCombination};
use ff::PrimeField;
use num_bigint::BigInt;
use validate_btc_header::btc_validation::difficulty_update::calculate_difficulty_update;
use validate_btc_header::btc_validation::median::{leq, less_than, verify_median_of, verify_median_timestamp};
use validate_btc_header::mp::bignat::BigNat;
use validate_btc_header::util::bit::{Bit, Bitvector};
use validate_btc_header::util::gadget::Gadget;
use validate_btc_header::util::num::Num;

const KINDS: u64 = 36;
fn vals<F: PrimeField>(a: &[AllocatedNum<F>]) -> Option<Vec<F>> {
    a.iter().map(|x| x.get_value()).collect()
}
/// one gadget with random parameters and pairs of witnesses, edge values included
fn gadget<F: PrimeField>(t: &mut T) {
    let cap = F::CAPACITY as usize;
    let kind = t.idx % KINDS;
    let w = t.rng.range(2, (cap / 3).min(64));
    let (k, k2, k3) = (t.rng.range(1, 4), t.rng.range(1, 4), t.rng.range(1, 3));
    let n = t.rng.range(1, cap.min(253));
    let cmpn = t.rng.range(1, (cap - 3).min(250));
    let sc: F = t.rng.field();
    // numbers of limbs and width of every input
    let lim = |k: usize, w: usize| vec![w; k];
    let (name, ws): (&str, Vec<usize>) = match kind {
        0 => ("less_than", vec![cmpn, cmpn]),
        1 => ("leq", vec![cmpn, cmpn]),
        2 => ("BigNat::equals", vec![n, n]),
        3 => ("Num::fits_in_bits", vec![n]),
        4 => ("Num::decompose", vec![n]),
        5 => ("Num::as_sapling_allocated_num", vec![n]),
        6 => ("Num::is_equal", vec![n.min(64)]),
        7 => ("BigNat::from_num", vec![cap]),
        8 => ("BigNat::alloc_from_nat", lim(k, w)),
        9 => ("BigNat::alloc_from_limbs", lim(k, w)),
        10 => ("BigNat::inputize", lim(k, w)),
        11 => ("BigNat::equal", [lim(k, w), lim(k2, w)].concat()),
        12 => ("BigNat::is_equal", [lim(k, w), lim(k, w)].concat()),
        13 => ("BigNat::assert_well_formed", lim(k, w)),
        14 => ("BigNat::decompose", lim(k, w)),
        15 => ("BigNat::enforce_full_bits", lim(k, w)),
        16 => ("BigNat::enforce_min_bits", lim(k, w)),
        17 => ("BigNat::concat", [lim(k, w), lim(k2, w)].concat()),
        18 => ("BigNat::equal_when_carried", [lim(k, w), lim(k2, w)].concat()),
        19 => ("BigNat::equal_when_carried_regroup", [lim(k, w), lim(k2, w)].concat()),
        20 => ("BigNat::divides", [lim(k, w), lim(k2, w)].concat()),
        21 => ("BigNat::shift and scale", lim(k, w)),
        22 => ("BigNat::sub", [lim(k, w), lim(k, w)].concat()),
        23 => ("BigNat::mult", [lim(k, w), lim(k2, w)].concat()),
        24 => ("BigNat::add", [lim(k, w), lim(k2, w)].concat()),
        25 => ("BigNat::min", [lim(k, w), lim(k, w)].concat()),
        26 => ("BigNat::assert_product_mod", [lim(k, w), lim(k2, w), lim(k3, w), lim(k3, w)].concat()),
        27 => ("BigNat::mult_mod", [lim(k, w), lim(k2, w), lim(k3, w)].concat()),
        28 => ("BigNat::red_mod", [lim(k, w), lim(k2, w)].concat()),
        29 => ("BigNat::group_limbs", lim(k, w)),
        30 => ("BigNat::mux", [vec![1], lim(k, w), lim(k2, w)].concat()),
        31 => ("Gadget::mux_tree", [lim(k3, 1), lim(1 << k3, n)].concat()),
        32 => ("Gadget::switch, as_nums, inputize, assert_equal", [vec![1], lim(k, n), lim(k, n)].concat()),
        33 => ("Polynomial::alloc_product and sum", lim(k + k2, n)),
        34 => ("Bit and Bitvector", vec![w]),
        _ => ("verify_median_timestamp", vec![32; 2 * k + 2]),
    };
    let mut draw = |t: &mut T| -> Vec<F> {
        let style = t.rng.below(4);
        let mut v: Vec<BigInt> = ws
            .iter()
            .map(|b| match style {
                0 => BigInt::from(0),
                1 => pow2(*b) - 1,
                2 => t.rng.big_bits(*b),
                _ => t.rng.big_corner(*b),
            })
            .collect();
        if t.rng.chance(1, 2) && v.len() % 2 == 0 {
            let h = v.len() / 2;
            for i in 0..h {
                v[h + i] = v[i].clone(); // equal halves
            }
        }
        fs(&v)
    };
    let (x, y) = (draw(t), draw(t));
    let build = move |cs: &mut MonCS<F>, a: &[AllocatedNum<F>]| -> Result<Outs<F>, bellpepper_core::SynthesisError> {
        let z = BigInt::from(0);
        let o = |g: &BigNat<F>| -> Outs<F> { g.limbs.iter().map(|l| (l.clone(), None)).chain([(LinearCombination::zero() + (f_of::<F>(&(&g.params.max_word % modulus::<F>())), MonCS::<F>::one()), None), (LinearCombination::zero() + (F::from(g.params.min_bits as u64), MonCS::<F>::one()), None)]).collect() };
        let num = |i: usize| Num::from(a[i].clone());
        let val = |r: std::ops::Range<usize>| -> Option<BigInt> { vals(&a[r]).map(|v| joined(&v.iter().map(n_of).collect::<Vec<_>>(), w)) };
        Ok(match kind {
            0 => vec![bool_out(&less_than(cs.namespace(|| "g"), &a[0], &a[1], cmpn)?)],
            1 => vec![bool_out(&leq(cs.namespace(|| "g"), &a[0], &a[1], cmpn)?)],
            2 => vec![bool_out(&BigNat::equals(cs.namespace(|| "g"), &a[0], &a[1])?)],
            3 => {
                num(0).fits_in_bits(cs.namespace(|| "g"), n)?;
                vec![]
            }
            4 => bits_out(&num(0).decompose(cs.namespace(|| "g"), n)?),
            5 => vec![(lc1(&num(0).as_sapling_allocated_num(cs.namespace(|| "g"))?), None)],
            6 => {
                let v = a[0].get_value().map(|v| n_of(&v));
                let bits = (0..n.min(64)).map(|i| Bit::alloc(cs.namespace(|| format!("b{}", i)), v.as_ref().map(|v| v.bit(i as u64)))).collect::<Result<Vec<_>, _>>()?;
                num(0).is_equal(cs.namespace(|| "g"), &Bitvector::from_bits(bits))?;
                vec![]
            }
            7 => o(&BigNat::from_num(cs.namespace(|| "g"), num(0), w, (cap + w) / w + 1)?),
            8 => o(&BigNat::alloc_from_nat(cs.namespace(|| "g"), || val(0..k).ok_or(bellpepper_core::SynthesisError::AssignmentMissing), w, k)?),
            9 => o(&BigNat::alloc_from_limbs(cs.namespace(|| "g"), || vals(a).ok_or(bellpepper_core::SynthesisError::AssignmentMissing), None, w, k)?),
            10 => {
                bn(a, w).inputize(cs.namespace(|| "g"))?;
                vec![]
            }
            11 => {
                bn(&a[..k], w).equal(cs.namespace(|| "g"), &bn(&a[k..], w))?;
                vec![]
            }
            12 => vec![bool_out(&bn(&a[..k], w).is_equal(cs.namespace(|| "g"), &bn(&a[k..], w))?)],
            13 => {
                bn(a, w).assert_well_formed(cs.namespace(|| "g"))?;
                vec![]
            }
            14 => {
                let d = bn(a, w).decompose(cs.namespace(|| "g"))?;
                let mut r = bits_out(&d);
                r.extend(o(&BigNat::recompose(&d, w)));
                r
            }
            15 => {
                let mut g = bn(a, w);
                g.enforce_full_bits(cs.namespace(|| "g"))?;
                o(&g)
            }
            16 => {
                let mut g = bn(a, w);
                g.enforce_min_bits(cs.namespace(|| "g"), w * k - w / 2)?;
                o(&g)
            }
            17 => o(&bn(&a[..k], w).concat(&bn(&a[k..], w))?),
            18 => {
                bn(&a[..k], w).equal_when_carried(cs.namespace(|| "g"), &bn(&a[k..], w))?;
                vec![]
            }
            19 => {
                bn(&a[..k], w).equal_when_carried_regroup(cs.namespace(|| "g"), &bn(&a[k..], w))?;
                vec![]
            }
            20 => {
                bn(&a[..k], w).divides(cs.namespace(|| "g"), &bn(&a[k..], w))?;
                vec![]
            }
            21 => {
                let mut r = o(&bn(a, w).shift::<MonCS<F>>(F::from(5)));
                let _ = sc;
                r.extend(o(&bn(a, w).scale::<MonCS<F>>(F::from(3))));
                r.extend(o(&bn(a, w).truncate_limbs(1)));
                r.extend(o(&bn(a, w).with_n_limbs::<MonCS<F>>(k + 2)));
                r
            }
            22 => o(&bn(&a[..k], w).sub(cs.namespace(|| "g"), &bn(&a[k..], w))?),
            23 => o(&bn(&a[..k], w).mult(cs.namespace(|| "g"), &bn(&a[k..], w))?),
            24 => o(&bn(&a[..k], w).add::<MonCS<F>>(&bn(&a[k..], w))?),
            25 => o(&bn(&a[..k], w).min(cs.namespace(|| "g"), &bn(&a[k..], w))?),
            26 => o(&bn(&a[..k], w).assert_product_mod(cs.namespace(|| "g"), &bn(&a[k..k + k2], w), &bn(&a[k + k2..k + k2 + k3], w), &bn(&a[k + k2 + k3..], w))?),
            27 => {
                let (q, r) = bn(&a[..k], w).mult_mod(cs.namespace(|| "g"), &bn(&a[k..k + k2], w), &bn(&a[k + k2..], w))?;
                [o(&q), o(&r)].concat()
            }
            28 => o(&bn(&a[..k], w).red_mod(cs.namespace(|| "g"), &bn(&a[k..], w))?),
            29 => o(&bn(a, w).group_limbs(k2.min((cap - 1) / w))),
            30 => o(&BigNat::mux(cs.namespace(|| "g"), &sel(&a[0]), &bn(&a[1..1 + k], w), &bn(&a[1 + k..], w))?),
            31 => {
                let s: Vec<_> = a[..k3].iter().map(sel).collect();
                let v: Vec<_> = a[k3..].iter().map(|x| own(std::slice::from_ref(x))).collect();
                wires_outs(&Gadget::mux_tree(cs.namespace(|| "g"), s.iter(), &v)?)
            }
            32 => {
                let (u, v) = (own(&a[1..1 + k]), own(&a[1 + k..]));
                let (p, q) = Gadget::switch(cs.namespace(|| "g"), &sel(&a[0]), &u, &v)?;
                let ns = p.as_nums(cs.namespace(|| "n"))?;
                q.inputize(cs.namespace(|| "i"))?;
                Gadget::assert_equal(cs.namespace(|| "e"), &p, &q)?;
                [wires_outs(&p), wires_outs(&q), ns.iter().map(|x| (lc1(x), None)).collect()].concat()
            }
            33 => {
                let (p, q) = (as_arg(BigNat::<F>::from_poly, bn(&a[..k], 1)), as_arg(BigNat::<F>::from_poly, bn(&a[k..], 1)));
                let r = p.alloc_product(cs.namespace(|| "g"), &q)?;
                let s = r.sum(&p);
                r.coefficients.iter().chain(&s.coefficients).map(|l| (l.clone(), None)).collect()
            }
            34 => {
                let v = a[0].get_value().map(|v| n_of(&v));
                let mut bv = Bitvector::from_bits((0..w).map(|i| Bit::alloc(cs.namespace(|| format!("b{}", i)), v.as_ref().map(|v| v.bit(i as u64)))).collect::<Result<Vec<_>, _>>()?);
                let last = bv.pop().unwrap();
                last.constrain_value(cs.namespace(|| "c"), true);
                bv.push(last.not::<MonCS<F>>());
                bv.insert(0, Bit::new_true::<MonCS<F>>());
                let bv = bv.shl(1).shr(1).reversed().truncate(w);
                bits_out(&bv)
            }
            _ => {
                let v: Vec<u32> = a.iter().map(|x| x.get_value().map(|v| u32::try_from(n_of(&v)).unwrap_or(0)).unwrap_or(7)).collect();
                let _ = &z;
                vec![bool_out(&verify_median_timestamp::<F, _>(cs.namespace(|| "g"), &mut v[1..].to_vec(), v[0])?)]
            }
        })
    };
    t.case(&format!("{} w={} k={},{},{} n={} on {} and {} F{}", name, w, k, k2, k3, n, hv(&x), hv(&y), F::NUM_BITS), true);
    t.ev(&format!("gadget: {}", name));
    shape(t, name, &x, &y, &build);
}
/// the header step: parameter setup with the default header against runs on valid and invalid headers
fn header(t: &mut T, c: &btc::Corpus) {
    let good = c.good();
    let z0 = vec![Pal::from(0); 16];
    let d = hdr::run(MonCS::shape(), &Default::default(), &z0);
    if !matches!(d.out, Out::Ok(_)) {
        t.viol("header_step/setup-fails", format!("witness-free synthesis of the default header {}", d.out.why()));
        return;
    }
    t.ev("setup-mode (witness-free) syntheses completed");
    let outs = |r: &hdr::Ran| match &r.out {
        Out::Ok(o) => Some(o.iter().map(|x| vid(x.get_variable())).collect::<Vec<_>>()),
        _ => None,
    };
    let dd = d.cs.shape_digest();
    let (n, h) = good[t.rng.below(good.len() as u64) as usize].clone();
    let b = t.rng.chance(1, 2);
    let Some(s) = btc::state_for(&mut t.rng, &h, b) else { return };
    t.case(&format!("header step {} on {}", n, hdr::show(&s)), true);
    let mut runs = vec![("without a witness", hdr::run(MonCS::shape(), &hdr::circuit(&h), &hdr::zf(&s))), ("on a valid header", hdr::run(MonCS::wit(), &hdr::circuit(&h), &hdr::zf(&s)))];
    if let Some((q, _)) = hdr::broken_state(t, c, &h) {
        runs.push(("on an invalid state", hdr::run(MonCS::wit(), &hdr::circuit(&h), &hdr::zf(&q))));
    }
    if let Some((h, q, _)) = hdr::broken_header(t, c) {
        runs.push(("on an invalid header", hdr::run(MonCS::wit(), &hdr::circuit(&h), &hdr::zf(&q))));
        runs.push(("without a witness, on an invalid header", hdr::run(MonCS::shape(), &hdr::circuit(&h), &z0)));
    }
    for (what, r) in &runs {
        if what.starts_with("without") && !matches!(r.out, Out::Ok(_)) {
            t.viol("header_step/setup-fails", format!("witness-free synthesis of header {} {}", n, r.out.why()));
            return;
        }
        let Some(o) = outs(r) else { continue };
        t.ev("shape digests compared");
        t.ev(&format!("header step shapes {}", what));
        if r.cs.shape_digest() != dd || Some(o) != outs(&d) {
            t.viol("header_step/shape-differs", format!("header step {} ({} on {}): {:?}, parameter setup: {:?} (inputs, aux, constraints, digest)", what, n, hdr::show(&s), r.cs.shape_digest(), dd));
            return;
        }
    }
}
pub fn c04(r: &Run) -> i32 {
    let c = btc::corpus();
    r.par("header", r.n(60, 1500), |t| header(t, &c));
    r.par("gadgets-pal", r.n(36 * 80, 36 * 2000), |t| gadget::<Pal>(t));
    r.par("gadgets-fr", r.n(36 * 40, 36 * 800), |t| gadget::<Fr>(t));
    r.par("gadgets-f127", r.n(36 * 40, 36 * 800), |t| gadget::<F127>(t));
    r.par("gadgets-f61", r.n(36 * 40, 36 * 800), |t| gadget::<F61>(t));
    r.par("median", r.n(60, 1000), |t| {
        let mut d = |t: &mut T| -> Vec<Pal> {
            let m = t.rng.u32();
            let mut v: Vec<Pal> = btc::times_with_median(&mut t.rng, m).iter().map(|x| Pal::from(*x as u64)).collect();
            v.push(Pal::from(if t.rng.chance(1, 2) { m } else { t.rng.u32() } as u64));
            v
        };
        let (x, y) = (d(t), d(t));
        t.case(&format!("median {} and {}", hv(&x), hv(&y)), true);
        shape(t, "verify_median_of", &x, &y, &|cs, a| Ok(vec![bool_out(&verify_median_of(cs.namespace(|| "g"), &a[..11], &a[11])?)]));
    });
    r.par("difficulty", r.n(60, 1000), |t| {
        let mut d = |t: &mut T| -> Vec<Pal> { vec![f_of(&t.rng.big_bits(240)), Pal::from(btc::SPAN / 4 + 1 + t.rng.below(3 * btc::SPAN))] };
        let (x, y) = (d(t), d(t));
        t.case(&format!("difficulty {} and {}", hv(&x), hv(&y)), true);
        shape(t, "calculate_difficulty_update", &x, &y, &|cs, a| {
            let g = calculate_difficulty_update(cs.namespace(|| "g"), &a[0], &a[1])?;
            Ok(g.limbs.iter().map(|l| (l.clone(), None)).collect())
        });
    });
    r.finish(
        "distinct (gadget, parameters, pair of witnesses) and (header, state) whose emitted circuits were compared, constraint by constraint and output by output, with the witness-free synthesis",
        &["circuits are compared by a 64-bit digest over every variable index and coefficient, in order"],
        &[("setup-mode (witness-free) syntheses completed", 1000), ("shape digests compared", 1000), ("header step shapes on a valid header", 30)],
    )
}
