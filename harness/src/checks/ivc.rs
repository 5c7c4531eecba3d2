//! C22: recursive proofs over chains of headers, end to end.
use super::hdr::*;
use crate::btc::*;
use crate::fields::*;
use crate::gad::{hv, hx};
use crate::report::*;
use crate::rng::*;
use ff::{Field, PrimeField};
use nova_snark::provider::{PallasEngine, VestaEngine};
use nova_snark::traits::{circuit::TrivialCircuit, snark::RelaxedR1CSSNARKTrait, Engine};
use nova_snark::{CompressedSNARK, PublicParams, RecursiveSNARK};
use validate_btc_header::btc_validation::header_step::BlockHeader;

type E1 = PallasEngine;
type E2 = VestaEngine;
type C1 = BlockHeader<Pal>;
type Ves = <E2 as Engine>::Scalar;
type C2 = TrivialCircuit<Ves>;
type EE1 = nova_snark::provider::ipa_pc::EvaluationEngine<E1>;
type EE2 = nova_snark::provider::ipa_pc::EvaluationEngine<E2>;
type S1 = nova_snark::spartan::snark::RelaxedR1CSSNARK<E1, EE1>;
type S2 = nova_snark::spartan::snark::RelaxedR1CSSNARK<E2, EE2>;
type Pp = PublicParams<E1, E2, C1, C2>;
type Rs = RecursiveSNARK<E1, E2, C1, C2>;

fn setup(t: &mut T) -> Option<Pp> {
    match call(|| Pp::setup(&C1::default(), &C2::default(), &*S1::ck_floor(), &*S2::ck_floor())) {
        Out::Ok(p) => {
            t.ev("parameter setups");
            Some(p)
        }
        o => {
            t.viol("ivc/setup-fails", format!("parameter setup with the default header {}", o.why()));
            None
        }
    }
}
/// fold headers from z0; the number of the step that failed and why, or the proof
fn fold(pp: &Pp, z0: &[Pal], hs: &[Hdr]) -> Result<Rs, (usize, String)> {
    let c: Vec<C1> = hs.iter().map(circuit).collect();
    let c2 = C2::default();
    let mut rs = match call(|| Rs::new(pp, &c[0], &c2, z0, &[Ves::ZERO])) {
        Out::Ok(r) => r,
        o => return Err((0, o.why())),
    };
    for (i, x) in c.iter().enumerate() {
        match call(|| rs.prove_step(pp, x, &c2)) {
            Out::Ok(()) => {}
            o => return Err((i, o.why())),
        }
    }
    Ok(rs)
}
fn check(pp: &Pp, rs: &Rs, n: usize, z0: &[Pal]) -> Result<Vec<Pal>, String> {
    match call(|| rs.verify(pp, n, z0, &[Ves::ZERO])) {
        Out::Ok((z, _)) => Ok(z),
        o => Err(o.why()),
    }
}
fn good_case(t: &mut T, pp: &Pp, what: &str, s: &State, hs: &[Hdr]) -> Option<Rs> {
    let mut q = s.clone();
    for h in hs {
        q = step(&q, h).unwrap();
    }
    let (z0, zn) = (zf(s), zf(&q));
    let d = format!("{} ({} headers) from {}", what, hs.len(), show(s));
    t.case(&d, true);
    let rs = match fold(pp, &z0, hs) {
        Ok(r) => r,
        Err((i, e)) => {
            t.viol("ivc/rejects-valid", format!("{}: folding header {} {}", d, i, e));
            return None;
        }
    };
    t.evn("steps folded", hs.len() as u64);
    match check(pp, &rs, hs.len(), &z0) {
        Ok(z) if z == zn => t.ev("proofs verified with the state the rules give"),
        Ok(z) => {
            t.viol("ivc/wrong-output", format!("{}: the proof verifies with final state {}, the rules give {}", d, hv(&z), hv(&zn)));
            return None;
        }
        Err(e) => {
            t.viol("ivc/verify-fails", format!("{}: verification of an honest proof {}", d, e));
            return None;
        }
    }
    for n in [0, hs.len() - 1, hs.len() + 1, hs.len() + 2016] {
        t.ev("altered claims checked");
        if check(pp, &rs, n, &z0).is_ok() {
            t.viol("ivc/step-count", format!("{}: the proof also verifies for {} steps", d, n));
            return None;
        }
    }
    for i in 0..16 {
        let mut z = z0.clone();
        z[i] += if t.rng.chance(1, 2) { Pal::ONE } else { Pal::from(2).pow_vartime([t.rng.below(250)]) };
        t.ev("altered claims checked");
        if check(pp, &rs, hs.len(), &z).is_ok() {
            t.viol("ivc/initial-state", format!("{}: the proof also verifies for initial state {}", d, hv(&z)));
            return None;
        }
    }
    // the claimed final state, altered inside the proof
    let bytes = bincode::serialize(&rs).unwrap();
    let pat: Vec<u8> = zn.iter().flat_map(|x| bincode::serialize(x).unwrap()).collect();
    let w = pat.len() / 16;
    if let Some(p) = bytes.windows(pat.len()).rposition(|x| x == &pat[..]) {
        for i in 0..16 {
            let mut z = zn.clone();
            z[i] += if t.rng.chance(1, 2) { Pal::ONE } else { t.rng.field::<Pal>() };
            let mut b = bytes.clone();
            b[p + i * w..p + (i + 1) * w].copy_from_slice(&bincode::serialize(&z[i]).unwrap());
            let Ok(r2) = bincode::deserialize::<Rs>(&b) else { continue };
            t.ev("altered claims checked");
            t.ev("proofs with an altered final state");
            if check(pp, &r2, hs.len(), &z0).is_ok() {
                t.viol("ivc/final-state", format!("{}: the proof also verifies with output {} changed to {}", d, i, hx(&z[i])));
                return None;
            }
        }
    }
    Some(rs)
}
/// no proof of a chain that breaks a rule may verify
fn bad_case(t: &mut T, pp: &Pp, what: &str, s: &State, hs: &[Hdr]) {
    let mut q = s.clone();
    let mut why = "";
    let mut at = 0;
    for h in hs {
        match step(&q, h) {
            Ok(x) => q = x,
            Err(e) => {
                why = e;
                break;
            }
        }
        at += 1;
    }
    if at == hs.len() {
        return;
    }
    let d = format!("{} ({} headers, header {} invalid: {}) from {}", what, hs.len(), at, why, show(s));
    t.case(&d, true);
    t.ev("invalid chains folded");
    t.ev(&format!("invalid chain: {}", why));
    let z0 = zf(s);
    match fold(pp, &z0, hs) {
        Err((i, e)) => {
            t.ev("invalid chains refused while folding");
            if i < at {
                t.viol("ivc/rejects-valid", format!("{}: already header {} {}", d, i, e));
            }
        }
        Ok(rs) => {
            t.ev("invalid chains folded to a proof");
            if let Ok(z) = check(pp, &rs, hs.len(), &z0) {
                t.viol("ivc/accepts-invalid", format!("{}: the proof verifies, with final state {}", d, hv(&z)));
            }
        }
    }
}
fn chain_of(t: &mut T, c: &Corpus) -> Option<(String, State, Vec<Hdr>)> {
    let ch = c.chains();
    for _ in 0..40 {
        let (n, v) = &ch[t.rng.below(ch.len() as u64) as usize];
        if let Some(s) = chain_start(&mut t.rng, n, v) {
            return Some((n.clone(), s, v.clone()));
        }
    }
    None
}
pub fn c22(r: &Run) -> i32 {
    let c = corpus();
    let pp = std::sync::Mutex::new(None);
    r.par_always("setup", 1, |t| *pp.lock().unwrap() = setup(t));
    let Some(pp) = pp.into_inner().unwrap() else { return r.finish("parameter setup", &[], &[]) };
    let pp = &pp;
    r.seq("chains", r.n(6, 60), |t| {
        let Some((n, s, hs)) = chain_of(t, &c) else { return };
        let k = if t.idx < 2 { hs.len() } else { t.rng.range(1, hs.len()) };
        good_case(t, pp, &n, &s, &hs[..k]);
    });
    r.seq("single", r.n(6, 80), |t| {
        let good = c.good();
        let (n, h) = good[t.rng.below(good.len() as u64) as usize];
        let b = t.rng.chance(1, 2);
        let Some(s) = state_for(&mut t.rng, h, b) else { return };
        good_case(t, pp, n, &s, &[*h]);
    });
    r.seq("invalid-state", r.n(14, 250), |t| {
        let good = c.good();
        let (n, h) = good[t.rng.below(good.len() as u64) as usize];
        let Some((s, _)) = broken_state(t, &c, h) else { return };
        bad_case(t, pp, n, &s, &[*h]);
    });
    r.seq("invalid-header", r.n(8, 150), |t| {
        let Some((h, s, _)) = broken_header(t, &c) else { return };
        bad_case(t, pp, "broken header", &s, &[h]);
    });
    r.seq("invalid-chain", r.n(8, 120), |t| {
        let Some((n, s, mut v)) = chain_of(t, &c) else { return };
        let k = t.rng.range(0, v.len() - 1);
        let what = match t.rng.below(5) {
            0 => {
                v.insert(k, v[k]);
                "a header twice"
            }
            1 => {
                v.remove(k);
                "a header missing"
            }
            2 => {
                let j = t.rng.range(0, v.len() - 1);
                v.swap(k, j);
                "headers swapped"
            }
            3 => {
                let i = t.rng.below(80) as usize;
                v[k][i] ^= 1 << t.rng.below(8);
                "a bit flipped"
            }
            _ => {
                v[k] = t.rng.pick(&c.all).1;
                "a header replaced"
            }
        };
        v.truncate((k + 2).min(v.len()));
        if !v.is_empty() {
            bad_case(t, pp, &format!("{}: {}", n, what), &s, &v);
        }
    });
    r.seq("compressed", r.n(1, 4), |t| {
        let Some((n, s, hs)) = chain_of(t, &c) else { return };
        let hs = &hs[..2];
        let Some(rs) = good_case(t, pp, &n, &s, hs) else { return };
        let z0 = zf(&s);
        let zn = zf(&step(&step(&s, &hs[0]).unwrap(), &hs[1]).unwrap());
        let (pk, vk) = match call(|| CompressedSNARK::<_, _, _, _, S1, S2>::setup(pp)) {
            Out::Ok(k) => k,
            o => return t.viol("ivc/compressed-setup", o.why()),
        };
        let p = match call(|| CompressedSNARK::<_, _, _, _, S1, S2>::prove(pp, &pk, &rs)) {
            Out::Ok(p) => p,
            o => return t.viol("ivc/compressed-prove", o.why()),
        };
        match call(|| p.verify(&vk, hs.len(), &z0, &[Ves::ZERO])) {
            Out::Ok((z, _)) if z == zn => t.ev("compressed proofs verified with the state the rules give"),
            Out::Ok((z, _)) => t.viol("ivc/compressed-output", format!("compressed proof verifies with {}, the rules give {}", hv(&z), hv(&zn))),
            o => t.viol("ivc/compressed-verify", o.why()),
        }
        for i in 0..16 {
            let mut z = z0.clone();
            z[i] += Pal::ONE;
            t.ev("altered claims checked");
            if let Out::Ok(_) = call(|| p.verify(&vk, hs.len(), &z, &[Ves::ZERO])) {
                t.viol("ivc/compressed-initial", format!("compressed proof also verifies for initial state {}", hv(&z)));
            }
        }
        if let Out::Ok(_) = call(|| p.verify(&vk, hs.len() + 1, &z0, &[Ves::ZERO])) {
            t.viol("ivc/compressed-steps", "compressed proof also verifies for another number of steps".into());
        }
    });
    r.finish(
        "distinct chains of headers folded with Nova over Pallas/Vesta, valid and invalid, and altered claims about the valid ones",
        &["the proof system itself (Nova) is taken as given; altered claims are single alterations"],
        &[("proofs verified with the state the rules give", 6), ("invalid chains folded", 10), ("altered claims checked", 100), ("compressed proofs verified with the state the rules give", 1)],
    )
}
