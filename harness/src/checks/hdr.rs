//! C01-C03: the header step as a whole, judged against the independent rules in `btc`.
use crate::btc::*;
use crate::fields::*;
use crate::gad::*;
use crate::mon::*;
use crate::report::*;
use crate::rng::*;
use crate::solver::{splice, Sys};
use bellpepper_core::num::AllocatedNum;
use ff::{Field, PrimeField};
use nova_snark::traits::circuit::StepCircuit;
use num_bigint::BigInt;
use validate_btc_header::btc_validation::header_step::BlockHeader;

pub struct Ran {
    pub cs: MonCS<Pal>,
    pub ins: Vec<Vid>,
    pub out: Out<Vec<AllocatedNum<Pal>>>,
}
pub fn circuit(h: &Hdr) -> BlockHeader<Pal> {
    BlockHeader::<Pal>::new_blocks(vec![words(h)]).pop().unwrap()
}
pub fn run(mut cs: MonCS<Pal>, c: &BlockHeader<Pal>, z: &[Pal]) -> Ran {
    let a: Vec<_> = z.iter().enumerate().map(|(i, v)| anum(&mut cs, &format!("z{}", i), *v)).collect();
    let ins = a.iter().map(|x| vid(x.get_variable())).collect();
    let out = call(|| c.synthesize(&mut cs, &a));
    Ran { cs, ins, out }
}
pub fn zf(s: &State) -> Vec<Pal> {
    s.z().iter().map(f_of).collect()
}
fn hexs(h: &[u8]) -> String {
    h.iter().map(|x| format!("{:02x}", x)).collect()
}
pub fn show(s: &State) -> String {
    format!("{{last hash {:#x}, times {:?}, target {:#x}, epoch start {}, counter {}, work {:#x}}}", s.hash, s.times, s.target, s.epoch, s.counter, s.work)
}

/// honest synthesis of a valid header: accepted, satisfied, and exactly the next state
fn expect_step(t: &mut T, name: &str, h: &Hdr, s: &State) -> Option<Vec<Pal>> {
    let want = step(s, h).unwrap();
    let r = run(MonCS::wit(), &circuit(h), &zf(s));
    let d = || format!("header {} ({}) on state {}", name, hexs(h), show(s));
    let Out::Ok(o) = &r.out else {
        t.viol("header_step/rejects-valid", format!("{}: a valid header, yet synthesis {}", d(), r.out.why()));
        return None;
    };
    t.evn("constraints checked", r.cs.cons.len() as u64);
    let bad = r.cs.violated();
    if !bad.is_empty() {
        t.viol("header_step/honest-unsat", format!("{}: a valid header, yet {} constraints are not satisfied (first: #{})", d(), bad.len(), bad[0]));
        return None;
    }
    t.ev("valid headers accepted");
    let e = zf(&want);
    if o.len() != e.len() {
        t.viol("header_step/arity", format!("{}: {} outputs", d(), o.len()));
        return None;
    }
    let mut z = vec![];
    for i in 0..e.len() {
        let w = r.cs.val(vid(o[i].get_variable()));
        t.ev("output wires compared with the reference");
        if w != e[i] {
            t.viol("header_step/wrong-output", format!("{}: output {} is {}, the rules give {}", d(), i, hx(&w), hx(&e[i])));
            return None;
        }
        if o[i].get_value() != Some(e[i]) {
            t.viol("header_step/wrong-value", format!("{}: output {} reports value {:?}, the rules give {}", d(), i, o[i].get_value(), hx(&e[i])));
            return None;
        }
        z.push(w);
    }
    if s.counter == 0 {
        t.ev("epoch boundaries crossed");
    }
    if s.counter == 2015 {
        t.ev("counter wraps");
    }
    Some(z)
}
/// the state before the first header of a mined chain
pub fn chain_start(r: &mut Rng, n: &str, v: &[Hdr]) -> Option<State> {
    let before = v.iter().position(|h| bits(h) != bits(&v[0]))?;
    let last = time(&v[before - 1]);
    let factor: (u64, u64) = match n {
        "down70" => (7, 10),
        "up150" => (3, 2),
        "down40" => (2, 5),
        "up399" => (399, 100),
        _ => return None,
    };
    let mut s = state_for(r, &v[0], false)?;
    // timestamps below the chain's, so that every header stays above the median
    let m = time(&v[0]) - 1 - r.below(40000) as u32;
    s.times = times_with_median(r, m);
    s.counter = 2016 - before as u64;
    s.epoch = (last as u64 - SPAN * factor.0 / factor.1) as u32;
    let mut q = s.clone();
    for h in v {
        q = step(&q, h).ok()?;
    }
    Some(s)
}
fn chain_case(t: &mut T, c: &Corpus) {
    let ch = c.chains();
    if ch.is_empty() {
        return;
    }
    let (n, v) = &ch[t.idx as usize % ch.len()];
    let mut s = None;
    for _ in 0..50 {
        s = chain_start(&mut t.rng, n, v);
        if s.is_some() {
            break;
        }
    }
    let Some(mut s) = s else { return };
    t.case(&format!("chain {} from {}", n, show(&s)), true);
    t.ev("chains followed");
    for (i, h) in v.iter().enumerate() {
        let Some(z) = expect_step(t, &format!("{}.{}", n, i), h, &s) else { return };
        s = step(&s, h).unwrap();
        if z != zf(&s) {
            return;
        }
        t.ev("chain steps followed");
    }
}

/// z_0 the crate publishes, on the block it is documented for
fn initial(t: &mut T, c: &Corpus) {
    let z = match callv(|| BlockHeader::<Pal>::initial_z_i_scalars()) {
        Out::Ok(z) => z,
        o => {
            t.viol("initial_z/panics", format!("initial_z_i_scalars {}", o.why()));
            return;
        }
    };
    let h = c.get("block123456").unwrap();
    let s = State {
        hash: prev(&h),
        times: [1305191152, 1305191688, 1305193319, 1305194571, 1305194986, 1305195947, 1305197900, 1305199436, 1305200301, 1305200460, 1305200584],
        target: naive_target(0x1a6a93b3),
        epoch: 1304975844,
        counter: 480,
        work: BigInt::from(0),
    };
    t.case("initial state for block 123456", true);
    if z != zf(&s) {
        t.viol("initial_z/wrong", format!("initial_z_i_scalars is {}, the state before block 123456 is {}", hv(&z), hv(&zf(&s))));
        return;
    }
    expect_step(t, "block123456", &h, &s);
}

pub fn c01(r: &Run) -> i32 {
    let c = corpus();
    r.par("initial", 1, |t| initial(t, &c));
    r.par("chains", r.n(16, 400), |t| chain_case(t, &c));
    r.par("valid", r.n(240, 6000), |t| {
        let good = c.good();
        let (n, h) = good[t.idx as usize % good.len()];
        let boundary = t.rng.chance(2, 5);
        let Some(s) = state_for(&mut t.rng, h, boundary) else {
            t.ev("no such state found");
            return;
        };
        t.case(&format!("{} on {}", n, show(&s)), true);
        expect_step(t, n, h, &s);
    });
    r.wrapping_build();
    r.finish(
        "distinct (header, state) pairs: real and mined headers with full proof of work, on generated well-formed states, singly and in chains threaded through the circuit's own outputs",
        &["the mined corpus has minimum to moderate difficulty; targets below 2^200 are represented by real blocks only", "states whose retarget exceeds the maximum target or whose timespan is outside the enforced bounds are refused by design and are not 'valid'"],
        &[("valid headers accepted", 100), ("epoch boundaries crossed", 20), ("counter wraps", 8), ("chain steps followed", 10)],
    )
}

// ---------------------------------------------------------------- C02
/// a state on which the otherwise valid header breaks (at least) one rule
pub fn broken_state(t: &mut T, c: &Corpus, h: &Hdr) -> Option<(State, &'static str)> {
    if t.rng.chance(1, 3) {
        return barely_broken(t, h);
    }
    let r = &mut t.rng;
    let boundary = r.chance(1, 2);
    let mut s = state_for(r, h, boundary)?;
    let tm = time(h);
    let tg = target(bits(h))?;
    let u = unit(bits(h));
    let p = modulus::<Pal>();
    let kind = r.below(if boundary { 9 } else { 5 });
    match kind {
        0 => {
            s.hash = match r.below(7) {
                0 => &s.hash + 1,
                1 if s.hash > BigInt::from(0) => &s.hash - 1,
                2 => {
                    let k = pow2(r.below(224) as u32);
                    if (&s.hash / &k) % 2 == BigInt::from(0) { &s.hash + k } else { &s.hash - k }
                }
                3 => hash(&r.pick(&c.all).1) % pow2(224),
                4 => {
                    let mut b = s.hash.to_bytes_le().1;
                    b.resize(32, 0);
                    BigInt::from_bytes_be(num_bigint::Sign::Plus, &b) % &p
                }
                5 => BigInt::from(0),
                _ => r.big_bits(224),
            };
        }
        1 => {
            let m = match r.below(4) {
                0 => tm,
                1 => tm.saturating_add(1),
                2 => tm.saturating_add(r.below(10000) as u32),
                _ => tm + r.below((u32::MAX - tm) as u64 + 1) as u32,
            };
            let last = s.times[10];
            s.times = times_with_median(r, m);
            // keep the boundary timespan what it was, where the median stays put
            if boundary {
                let i = r.below(11) as usize;
                s.times.swap(i, 10);
                let span = last as i64 - s.epoch as i64;
                let e = s.times[10] as i64 - span;
                if e < 0 {
                    return None;
                }
                s.epoch = e as u32;
            }
        }
        2 | 3 if !boundary => {
            s.target = match r.below(8) {
                0 => &tg + 1,
                1 => &tg - 1,
                2 => &tg + &u,
                3 => &tg - &u,
                4 => &tg << 8,
                5 => &tg >> 8,
                6 => {
                    // what a retarget at some span would turn into tg
                    let span = SPAN / 4 + 1 + r.below(3 * SPAN);
                    if let Some(e) = s.times[10].checked_sub(span as u32) {
                        s.epoch = e;
                    }
                    (&tg * SPAN + span - 1) / span
                }
                _ => max_target() - r.big_bits(200),
            };
            if s.target > max_target() {
                s.target = max_target();
            }
        }
        2 => {
            // off the interval of previous targets that retarget to tg
            let span = s.times[10] as u64 - s.epoch as u64;
            let lo: BigInt = (&tg * SPAN + span - 1) / span;
            let hi: BigInt = ((&tg + &u) * SPAN + span - 1) / span - 1;
            s.target = match r.below(4) {
                0 => &lo - 1,
                1 => &hi + 1,
                2 => &lo - 1 - r.big_bits(lo.bits() as usize - 1),
                _ => &hi + 1 + r.big_bits(hi.bits() as usize - 1),
            };
        }
        4 if !boundary => {
            // a boundary after all, and two weeks it was not
            s.counter = 0;
            let span = SPAN / 4 + 1 + r.below(15 * SPAN / 4 - 1);
            s.epoch = s.times[10].checked_sub(span as u32)?;
        }
        3 => {
            s.target = tg.clone(); // unchanged target although the timespan is not two weeks
        }
        4 => {
            // a timespan out of bounds, with a target that scales
            let span: u64 = match r.below(6) {
                0 => SPAN / 4,
                1 => SPAN / 4 - 1,
                2 => SPAN * 4,
                3 => SPAN * 4 + 1,
                4 => 1 + r.below(SPAN / 4),
                _ => SPAN * 4 + r.below(SPAN * 8),
            };
            if (s.times[10] as u64) < span {
                return None;
            }
            s.epoch = (s.times[10] as u64 - span) as u32;
            s.target = (&tg * SPAN + span - 1) / span;
        }
        5 => {
            // time runs backwards over the epoch
            s.epoch = s.times[10].saturating_add(r.below(2 * SPAN) as u32);
        }
        _ => {
            s.counter = 1 + r.below(2015); // not a boundary at all
        }
    }
    if s.target > max_target() {
        return None;
    }
    match step(&s, h) {
        Ok(_) => None,
        Err(e) => Some((s, e)),
    }
}
/// a state on which the header is invalid by as little as it can be
fn barely_broken(t: &mut T, h: &Hdr) -> Option<(State, &'static str)> {
    let r = &mut t.rng;
    let hard = target(bits(h)).map_or(false, |g| g * 5 < max_target());
    let kind = if hard && r.chance(1, 3) { 6 } else { r.below(8) };
    let boundary = kind > 2 || r.chance(1, 2);
    let mut s = state_for(r, h, boundary)?;
    let tg = target(bits(h))?;
    let u = unit(bits(h));
    // the least previous target that retargets to at least x
    let least = |x: &BigInt, span: u64| -> BigInt { (x * SPAN + span - 1) / span };
    match kind {
        0 if r.chance(1, 2) => s.hash = &s.hash + 1,
        0 => s.hash = &s.hash - 1,
        1 => s.times = times_with_median(r, time(h)),
        2 if boundary => s.counter = *r.pick(&[1, 2015]),
        2 => s.target = if r.chance(1, 2) { &tg + &u } else { &tg - &u },
        3 | 4 | 5 => {
            // one step of precision too high or too low, just so
            if r.chance(1, 2) {
                let span = SPAN / 4 + 1 + r.below(SPAN * 3 / 4);
                s.epoch = s.times[10].checked_sub(span as u32)?;
            }
            let span = s.times[10] as u64 - s.epoch as u64;
            s.target = if r.chance(2, 3) { least(&(&tg + &u), span) } else { least(&tg, span) - 1 };
        }
        6 => {
            let span = *r.pick(if hard { &[SPAN / 4, SPAN / 4, SPAN / 4 - 1, SPAN * 4] } else { &[SPAN * 4, SPAN * 4, SPAN * 4 + 1, SPAN / 4] });
            s.epoch = s.times[10].checked_sub(span as u32)?;
            s.target = least(&tg, span);
        }
        _ => {
            s.epoch = s.times[10] - r.below(2) as u32;
            s.target = max_target();
        }
    }
    if s.target > max_target() {
        return None;
    }
    match step(&s, h) {
        Ok(_) => None,
        Err(e) => {
            t.ev("barely invalid states");
            Some((s, e))
        }
    }
}
/// a header that cannot be valid on any state, with the state that suits it best
pub fn broken_header(t: &mut T, c: &Corpus) -> Option<(Hdr, State, &'static str)> {
    let r = &mut t.rng;
    let p = modulus::<Pal>();
    let mut h = r.pick(&c.all).1;
    match r.below(6) {
        // no proof of work: flip something in a good one
        0 => {
            let i = r.below(80) as usize;
            h[i] ^= 1 << r.below(8);
        }
        1 => {
            for i in 0..80 {
                h[i] = r.below(256) as u8;
            }
            if r.chance(2, 3) {
                h[32..36].copy_from_slice(&[0; 4]);
                let k = r.below(5) as usize;
                let b = [0x1d00ffffu32, 0x1c7fffff, 0x1b04864c, 0x207fffff, 0x1e00ffff][k];
                h[72..76].copy_from_slice(&b.to_le_bytes());
            }
        }
        2 => {
            let e = *r.pick(&[0u32, 1, 2, 3, 4, 0x1c, 0x1d, 0x1e, 0x1f, 0x20, 0x21, 0x22, 0x23, 0x43, 0xff]);
            let m = *r.pick(&[0u32, 1, 0x7f, 0x80, 0x7fff, 0x8000, 0xffff, 0x10000, 0x7fffff, 0x800000, 0xffffff]);
            h[72..76].copy_from_slice(&(e << 24 | m).to_le_bytes());
        }
        _ => {
            let bad: Vec<_> = c.all.iter().filter(|x| !c.good().iter().any(|g| g.0 == x.0)).collect();
            if bad.is_empty() {
                return None;
            }
            h = bad[r.below(bad.len() as u64) as usize].1;
        }
    }
    let boundary = r.chance(1, 3);
    let tm = time(&h).max(1);
    let m = tm - 1 - r.below((tm as u64).min(1000)) as u32;
    let times = times_with_median(r, m);
    let mut tg = naive_target(bits(&h));
    match r.below(5) {
        0 => tg = naive_target(bits(&h) & 0xff7fffff),
        1 => tg = tg.min(max_target()),
        _ => {}
    }
    let tg = tg % &p;
    let mut s = State { hash: prev(&h) % &p, times, target: tg.clone(), epoch: times[10].saturating_sub(SPAN as u32), counter: if boundary { 0 } else { 1 + r.below(2015) }, work: r.big_bits(80) };
    if s.epoch == 0 {
        s.epoch = times[10].saturating_sub(SPAN as u32 / 2);
        s.target = &tg * 2;
    }
    match step(&s, &h) {
        Ok(_) => None,
        Err(e) => Some((h, s, e)),
    }
}
fn rejected(t: &mut T, h: &Hdr, s: &State, why: &str) -> Option<Ran> {
    let r = run(MonCS::wit(), &circuit(h), &zf(s));
    t.ev(&format!("invalid: {}", why));
    if let Out::Ok(_) = &r.out {
        t.evn("constraints checked", r.cs.cons.len() as u64);
        if r.cs.sat() {
            t.viol("header_step/accepts-invalid", format!("header {} on state {}: invalid ({}), yet synthesis succeeds and satisfies every constraint", hexs(h), show(s), why));
            return None;
        }
        t.ev("invalid headers left unsatisfied");
    } else {
        t.ev("invalid headers refused by synthesis");
    }
    Some(r)
}
/// positions of the header's bits among the variables, by value: words are looked for in the
/// order and bit order of any sensible allocation; None if not found
pub fn header_bits(h: &Hdr, w: &[Pal]) -> Option<Vec<usize>> {
    let bit = |i: usize| if h[i / 8] >> (7 - i % 8) & 1 == 1 { Pal::ONE } else { Pal::ZERO };
    let orders: [&dyn Fn(usize) -> usize; 3] = [&|i| i / 64 * 64 + 63 - i % 64, &|i| i, &|i| i / 8 * 8 + 7 - i % 8];
    for o in orders {
        let pat: Vec<Pal> = (0..640).map(|i| bit(o(i))).collect();
        if let Some(p) = w.windows(640).position(|x| x == &pat[..]) {
            return Some((p..p + 640).collect());
        }
    }
    let p = scattered_bits(w.len())?;
    if (0..640).all(|i| w[p[i]] == bit(i)) { Some(p) } else { None }
}
/// Header bits that are not allocated in a row: the first variables that follow them over many headers.
fn scattered_bits(n: usize) -> Option<Vec<usize>> {
    static FOUND: std::sync::OnceLock<Option<(usize, Vec<usize>)>> = std::sync::OnceLock::new();
    let f = FOUND.get_or_init(|| {
        let mut r = crate::rng::Rng::new(1, "locate", 0);
        let c = corpus();
        let h0 = c.good().first()?.1;
        let s = state_for(&mut r, &h0, false)?;
        let (mut sig, mut bits) = (vec![], vec![0u64; 640]);
        for k in 0..64 {
            let mut h = h0;
            for b in h.iter_mut() {
                *b = r.below(256) as u8;
            }
            h[75] = 3 + r.below(27) as u8;
            let g = run(MonCS::wit(), &circuit(&h), &zf(&s));
            let w: Vec<Pal> = g.cs.inputs.iter().chain(g.cs.aux.iter()).cloned().collect();
            if !matches!(g.out, Out::Ok(_)) || k > 0 && w.len() != sig.len() {
                return None;
            }
            sig.resize(w.len(), Some(0u64));
            for (x, v) in sig.iter_mut().zip(&w) {
                *x = match *x {
                    Some(y) if *v == Pal::ONE => Some(y | 1 << k),
                    Some(y) if *v == Pal::ZERO => Some(y),
                    _ => None,
                };
            }
            for i in 0..640 {
                bits[i] |= (h[i / 8] as u64 >> (7 - i % 8) & 1) << k;
            }
        }
        let mut first = std::collections::HashMap::new();
        for (v, x) in sig.iter().enumerate() {
            if let Some(x) = x {
                first.entry(*x).or_insert(v);
            }
        }
        let mut p: Vec<Option<usize>> = bits.iter().map(|b| if *b == 0 { None } else { first.get(b).cloned() }).collect();
        // the exponent's high bits are never set: in line with the others
        for i in (600..603).rev() {
            let (a, b) = (p[i + 1]? as i64, p[i + 2]? as i64);
            let v = (2 * a - b).max(0) as usize;
            p[i] = Some(v).filter(|v| sig.get(*v) == Some(&Some(0)));
        }
        Some((sig.len(), p.into_iter().collect::<Option<Vec<_>>>()?))
    });
    f.as_ref().filter(|x| x.0 == n).map(|x| x.1.clone())
}
/// pin the state (invalid for the header) and, if it can be located, the header: is there any witness?
fn hostile_state(t: &mut T, c: &Corpus) {
    let good = c.good();
    let (n, h) = good[t.rng.below(good.len() as u64) as usize];
    let Some((s, why)) = broken_state(t, c, h) else { return };
    let Some(s0) = state_for(&mut t.rng, h, s.counter == 0).or_else(|| state_for(&mut t.rng, h, false)) else { return };
    let r = run(MonCS::wit(), &circuit(h), &zf(&s0));
    if !matches!(r.out, Out::Ok(_)) || !r.cs.sat() {
        return;
    }
    t.case(&format!("hostile {} on {}", n, show(&s)), true);
    forge(t, &r, h, &s, None, why);
}
/// look for an assignment with input state `s`, header bits pinned, optionally one output forced
fn forge(t: &mut T, r: &Ran, h: &Hdr, s: &State, out: Option<(usize, Pal)>, why: &str) -> bool {
    let mut sys = Sys::new(&r.cs);
    let mut w = sys.defaults(&r.cs);
    let mut fixed = vec![false; w.len()];
    for (v, x) in r.ins.iter().zip(zf(s)) {
        let i = sys.idx(*v);
        w[i] = x;
        fixed[i] = true;
    }
    let pinned = header_bits(h, &w);
    if let Some(p) = &pinned {
        t.ev("header bits located and pinned");
        for i in p {
            fixed[*i] = true;
        }
    }
    let Out::Ok(o) = &r.out else { return false };
    if let Some((k, x)) = out {
        sys.force(&lc_of(&lc1(&o[k])), x);
    }
    t.ev("hostile witnesses sought");
    let mode = t.rng.below(3);
    let got = if mode == 0 && pinned.is_some() {
        let known: Vec<Option<Pal>> = (0..w.len()).map(|i| if fixed[i] { Some(w[i]) } else { None }).collect();
        sys.solve(&known, &w, &mut t.rng, 30)
    } else {
        let depth = t.rng.range(1, 6);
        let cap = *t.rng.pick(&[200usize, 1000, 4000]);
        sys.repair(&w, &|i| fixed[i], depth, cap, &mut t.rng, 30)
    };
    let Some(f) = got else { return false };
    judge(t, &sys, r, &f, why)
}
/// an accepted assignment must be a valid header (of the corpus: no other proof of work is at hand) and its next state
fn judge(t: &mut T, sys: &Sys<Pal>, r: &Ran, f: &[Pal], why: &str) -> bool {
    if !sys.check(f) {
        return false;
    }
    let Out::Ok(o) = &r.out else { return false };
    t.ev("satisfying assignments judged");
    let z: Vec<Pal> = r.ins.iter().map(|v| f[sys.idx(*v)]).collect();
    let zo: Vec<Pal> = o.iter().map(|a| f[sys.idx(vid(a.get_variable()))]).collect();
    let c = corpus();
    let n: Vec<BigInt> = z.iter().map(n_of).collect();
    let small = |x: &BigInt| u32::try_from(x.clone()).ok();
    let st = (|| {
        let mut times = [0; 11];
        for i in 0..11 {
            times[i] = small(&n[i + 1])?;
        }
        Some(State { hash: n[0].clone(), times, target: n[12].clone(), epoch: small(&n[13])?, counter: small(&n[14])? as u64, work: n[15].clone() })
    })();
    let Some(st) = st else { return false }; // not a well-formed state
    for (_, h) in &c.all {
        if let Ok(q) = step(&st, h) {
            if zf(&q) == zo {
                t.ev("satisfying assignments that are valid steps");
                return false;
            }
        }
    }
    let differs: Vec<String> = {
        let (_, d) = (0, sys.defaults(&r.cs));
        f.iter().zip(&d).enumerate().filter(|(_, (a, b))| a != b).take(40).map(|(i, (a, _))| format!("v{}={}", i, hx(a))).collect()
    };
    t.viol(
        "header_step/forged",
        format!("{}: an assignment satisfies all {} constraints with input state {} and output {}, which is no valid step. It differs from the honest run in {}", why, sys.cons.len(), hv(&z), hv(&zo), differs.join(" ")),
    );
    true
}

pub fn c02(r: &Run) -> i32 {
    let c = corpus();
    r.par("states", r.n(350, 10000), |t| {
        let good = c.good();
        let (n, h) = good[t.rng.below(good.len() as u64) as usize];
        let Some((s, why)) = broken_state(t, &c, h) else { return };
        t.case(&format!("{} on {}: {}", n, show(&s), why), true);
        rejected(t, h, &s, why);
    });
    r.par("headers", r.n(250, 8000), |t| {
        let Some((h, s, why)) = broken_header(t, &c) else { return };
        t.case(&format!("{} on {}: {}", hexs(&h), show(&s), why), true);
        rejected(t, &h, &s, why);
    });
    if !r.sub {
        r.par("hostile", r.n(120, 2500), |t| hostile_state(t, &c));
        r.par("wrong-turn", r.n(300, 4000), |t| wrong_turn(t, &c, 1));
        r.par("wrong-turn-header", r.n(100, 2000), |t| wrong_turn(t, &c, 2));
        r.par("graft", r.n(400, 4000), |t| graft(t, &c, false));
        r.par("hostile-header", r.n(100, 2000), |t| hostile_header(t, &c));
    }
    r.wrapping_build();
    r.finish(
        "distinct (header, state) pairs violating at least one rule by the independent reference, off-by-one cases included",
        &["a rejected pair is one whose synthesis fails or whose honest witness leaves a constraint unsatisfied; the hostile prover is a bounded search"],
        &[
            ("invalid: previous hash", 20),
            ("invalid: proof of work", 10),
            ("invalid: timestamp not above the median", 20),
            ("invalid: target is not the retargeted one", 20),
            ("invalid: target changed inside an epoch", 20),
            ("invalid: difficulty bits not canonical or above the maximum", 10),
            ("invalid: timespan out of bounds", 8),
            ("hostile witnesses sought", 20),
        ],
    )
}

// ---------------------------------------------------------------- C03
fn force_out(t: &mut T, c: &Corpus) {
    let good = c.good();
    let (n, h) = good[t.rng.below(good.len() as u64) as usize];
    let boundary = t.rng.chance(1, 2);
    let Some(s) = state_for(&mut t.rng, h, boundary) else { return };
    let r = run(MonCS::wit(), &circuit(h), &zf(&s));
    let Out::Ok(o) = &r.out else { return };
    if !r.cs.sat() {
        return;
    }
    let q = step(&s, h).unwrap();
    let e = zf(&q);
    let cand: Vec<usize> = (0..o.len()).filter(|i| !r.ins.contains(&vid(o[*i].get_variable()))).collect();
    let k = *t.rng.pick(&cand);
    let x = match t.rng.below(6) {
        0 => e[k] + Pal::ONE,
        1 => e[k] - Pal::ONE,
        2 => e[k] + Pal::from(2).pow_vartime([t.rng.below(253)]),
        3 => zf(&s)[k],
        4 => {
            let (_, h2) = t.rng.pick(&good).clone().clone();
            match k {
                0 => f_of(&hash(&h2)),
                11 | 13 => Pal::from(time(&h2) as u64),
                12 => f_of(&naive_target(bits(&h2))),
                _ => Pal::ZERO,
            }
        }
        _ => t.rng.field(),
    };
    if x == e[k] {
        return;
    }
    t.case(&format!("force output {} of {} on {} to {}", k, n, show(&s), hx(&x)), true);
    t.ev(&format!("outputs forced: {}", k));
    forge(t, &r, h, &s, Some((k, x)), &format!("output {} forced", k));
}
/// change one internal variable, repair around it with the input state kept, judge what comes out
fn perturb(t: &mut T, c: &Corpus) {
    let good = c.good();
    let (n, h) = good[t.rng.below(good.len() as u64) as usize];
    let boundary = t.rng.chance(1, 2);
    let Some(s) = state_for(&mut t.rng, h, boundary) else { return };
    let r = run(MonCS::wit(), &circuit(h), &zf(&s));
    if !matches!(r.out, Out::Ok(_)) || !r.cs.sat() {
        return;
    }
    let sys = Sys::new(&r.cs);
    let base = sys.defaults(&r.cs);
    let ins: Vec<usize> = r.ins.iter().map(|v| sys.idx(*v)).collect();
    t.case(&format!("perturb {} on {}", n, show(&s)), true);
    let big: Vec<usize> = (1..base.len()).filter(|i| base[*i] != Pal::ZERO && base[*i] != Pal::ONE && !ins.contains(i)).collect();
    for _ in 0..t.run.n(12, 40) {
        let i = if t.rng.chance(2, 3) { *t.rng.pick(&big) } else { t.rng.range(1, base.len() - 1) };
        if ins.contains(&i) {
            continue;
        }
        let mut w = base.clone();
        w[i] = match t.rng.below(4) {
            _ if w[i] == Pal::ZERO || w[i] == Pal::ONE => Pal::ONE - w[i],
            0 => w[i] + Pal::ONE,
            1 => w[i] - Pal::ONE,
            2 => t.rng.field(),
            _ => w[i] + Pal::from(2).pow_vartime([t.rng.below(253)]),
        };
        let depth = t.rng.range(1, 4);
        let cap = *t.rng.pick(&[20usize, 200, 1000]);
        t.ev("variables perturbed");
        if let Some(f) = sys.repair(&w, &|j| j == i || ins.contains(&j), depth, cap, &mut t.rng, 10) {
            t.ev("perturbations absorbed");
            if judge(t, &sys, &r, &f, &format!("variable {} changed to {}", i, hx(&w[i]))) {
                return;
            }
        }
    }
}
/// the numbers that mean something in a step: what a prover who takes a wrong turn would put
/// somewhere else
fn meanings(s: &State, h: &Hdr) -> Vec<Pal> {
    let mut d = zf(s);
    let mut n = |x: BigInt| d.push(f_of(&x));
    let tg = naive_target(bits(h));
    let q: BigInt = &s.target * (s.times[10].saturating_sub(s.epoch)) / SPAN;
    n(hash(h));
    n(prev(h));
    n(time(h).into());
    n(s.median().into());
    n(tg.clone());
    n(&tg << 8);
    n(&tg >> 8);
    n(max_target());
    if tg > BigInt::from(0) {
        n(max_target() / &tg);
    }
    n(s.times[10].saturating_sub(s.epoch).into());
    n(q.clone());
    if bits(h) >> 24 >= 3 {
        let u = unit(bits(h));
        n(&q / &u * &u);
        n(&q % &u);
        n(u);
    }
    for c in [0, 1, 2, SPAN, SPAN / 4, SPAN * 4, s.counter + 1, 2015, 2016, s.epoch as u64] {
        n(c.into());
    }
    let m = Pal::from((bits(h) & 0xffffff) as u64);
    if let Some(i) = Option::<Pal>::from(m.invert()) {
        d.push(f_of::<Pal>(&s.target) * i);
    }
    d.push(Pal::from(s.times[10] as u64) - Pal::from(s.epoch as u64));
    d
}
/// the longest stretch of bits after the header's: the hash computation
fn hash_stretch(base: &[Pal], from: usize) -> (usize, usize) {
    let (mut best, mut a) = ((from, from), from);
    for v in from..=base.len() {
        if v == base.len() || (base[v] != Pal::ZERO && base[v] != Pal::ONE) {
            if v - a > best.1 - best.0 {
                best = (a, v);
            }
            a = v + 1;
        }
    }
    best
}
/// another value for one variable after the header, everything before it kept (or, with slack,
/// what it depends on released too) and everything after it as it follows; on a valid state, on
/// an invalid one, or with a header that is never valid
fn wrong_turn(t: &mut T, c: &Corpus, kind: u8) {
    let good = c.good();
    // every third time at a target far below the limit, where all of a retarget's range is open
    let hard: Vec<_> = good.iter().cloned().filter(|(_, h)| naive_target(bits(h)) * 5 < max_target()).collect();
    let from = if !hard.is_empty() && t.rng.chance(1, 3) { &hard } else { &good };
    let (n, h) = from[t.rng.below(from.len() as u64) as usize];
    let boundary = t.rng.chance(1, 2);
    let (mut n, mut h) = (n.clone(), *h);
    let (s, why) = match kind {
        0 => match state_for(&mut t.rng, &h, boundary) {
            Some(s) => (s, "a valid step"),
            None => return,
        },
        1 => {
            let mut got = None;
            for _ in 0..8 {
                got = broken_state(t, c, &h);
                if got.is_some() {
                    break;
                }
                let (n2, h2) = good[t.rng.below(good.len() as u64) as usize];
                n = n2.clone();
                h = *h2;
            }
            match got {
                Some(x) => x,
                None => return,
            }
        }
        _ => match broken_header(t, c) {
            Some((h2, s, why)) => {
                h = h2;
                n = hexs(&h);
                (s, why)
            }
            None => return,
        },
    };
    let r = run(MonCS::wit(), &circuit(&h), &zf(&s));
    if !matches!(r.out, Out::Ok(_)) {
        return;
    }
    let sys = Sys::new(&r.cs);
    let base = sys.defaults(&r.cs);
    let violated = sys.violated(&base);
    let ins: Vec<usize> = r.ins.iter().map(|v| sys.idx(*v)).collect();
    let Some(p) = header_bits(&h, &base) else { return };
    let from = p.iter().max().unwrap() + 1;
    let hash = hash_stretch(&base, from);
    let mut frozen = vec![false; base.len()];
    for v in ins.iter().chain(&p).cloned().chain(hash.0..hash.1) {
        frozen[v] = true;
    }
    let wide: Vec<usize> = sys.wide().into_iter().filter(|v| *v >= from && !frozen[*v]).collect();
    let mut dict = meanings(&s, &h);
    dict.sort();
    dict.dedup();
    let telling: Vec<usize> = wide.iter().cloned().filter(|v| dict.contains(&base[*v])).collect();
    let numbers: Vec<usize> = telling.iter().cloned().filter(|v| base[*v] != Pal::ZERO && base[*v] != Pal::ONE).collect();
    let most = f_of::<Pal>(&max_target());
    let consts: Vec<Pal> = [SPAN / 4, SPAN, SPAN * 4, 2015].into_iter().map(Pal::from).chain([most]).collect();
    let fixed: Vec<usize> = telling.iter().cloned().filter(|v| consts.contains(&base[*v])).collect();
    let tg = naive_target(bits(&h));
    let tgt = f_of::<Pal>(&tg);
    let quot = if tgt == Pal::ZERO { Pal::ZERO } else { f_of(&(max_target() / &tg)) };
    // where what is wrong shows, and what leads there
    let nearby = if violated.len() > 6 { vec![] } else { sys.near(&violated, &|v| frozen[v], 8) };
    t.case(&format!("wrong turn from {} on {} ({})", n, show(&s), why), true);
    for _ in 0..t.run.n(30, 60) {
        let mut back = 0;
        let mut also = vec![];
        let (i, x) = if !fixed.is_empty() && t.rng.chance(1, 4) {
            // another number where one of the rules' constants stands
            t.ev("constants taken for others");
            let mut i = *t.rng.pick(&fixed);
            let much = quot != Pal::ZERO && quot != Pal::ONE && quot != Pal::from(2);
            if much && t.rng.chance(1, 3) {
                i = fixed.iter().cloned().find(|v| base[*v] == most).unwrap_or(i);
            }
            let mut x = *t.rng.pick(&dict);
            if base[i] != most && t.rng.chance(1, 2) {
                let span = s.times[10].saturating_sub(s.epoch) as u64;
                x = Pal::from(*t.rng.pick(&[0, 1, span.saturating_sub(1), span, span + 1, 2 * span, s.counter, s.counter + 1]));
            }
            if base[i] == most && much && t.rng.chance(2, 3) {
                // with all that comes of dividing it
                let k = Pal::from(*t.rng.pick(&[1u64, 1, 2, 5, 100]));
                x = most + k * tgt;
                also = wide.iter().filter(|v| **v > i && base[**v] == quot).map(|v| (*v, quot + k)).collect();
            }
            (i, Some(x))
        } else if !nearby.is_empty() && t.rng.chance(1, 3) {
            back = t.rng.range(1, 12);
            let i = if t.rng.chance(1, 2) { nearby[t.rng.below(nearby.len().min(6) as u64) as usize] } else { *t.rng.pick(&nearby) };
            let bit = base[i] == Pal::ZERO || base[i] == Pal::ONE;
            let x = match t.rng.below(4) {
                0 => None,
                _ if bit => Some(Pal::ONE - base[i]),
                1 if !dict.is_empty() => Some(*t.rng.pick(&dict)),
                _ => None,
            };
            (i, x)
        } else if !telling.is_empty() && t.rng.chance(2, 3) {
            if t.rng.chance(1, 2) {
                back = t.rng.range(1, 8);
            }
            let from = match t.rng.below(5) {
                0 => &wide,
                1 | 2 if !numbers.is_empty() => &numbers,
                _ => &telling,
            };
            let i = *t.rng.pick(from);
            let bit = base[i] == Pal::ZERO || base[i] == Pal::ONE;
            let x = if bit && t.rng.chance(2, 3) {
                Pal::ONE - base[i]
            } else if !bit && t.rng.chance(1, 4) {
                // slightly off
                let d = Pal::from(*t.rng.pick(&[1u64, 1, 2, 3, 7, 30, 1000]));
                if t.rng.chance(1, 2) { base[i] + d } else { base[i] - d }
            } else {
                *t.rng.pick(&dict)
            };
            (i, Some(x))
        } else {
            let i = if !wide.is_empty() && t.rng.chance(9, 10) { *t.rng.pick(&wide) } else { t.rng.range(from, base.len() - 1) };
            (i, Some(other_value(t, &base, i)))
        };
        if x == Some(base[i]) || ins.contains(&i) {
            continue;
        }
        t.ev("wrong turns tried");
        let stuck = |v: usize| if back > 0 { frozen[v] } else { ins.contains(&v) };
        if let Some(f) = sys.cascade(&base, &violated, &stuck, i, x, &also, back, &mut t.rng, if back > 0 { 60 } else { 12 }) {
            t.ev("wrong turns the constraints allow");
            if judge(t, &sys, &r, &f, &format!("{}, variable {} {}", why, i, x.map_or("left open".into(), |x| format!("changed to {}", hx(&x))))) {
                return;
            }
        }
    }
}
/// a header that is never valid, forced onto the circuit whatever honest synthesis does with it
fn hostile_header(t: &mut T, c: &Corpus) {
    let Some((h, s, why)) = broken_header(t, c) else { return };
    let good = c.good();
    let (_, h0) = good[t.rng.below(good.len() as u64) as usize];
    let Some(s0) = state_for(&mut t.rng, h0, s.counter == 0) else { return };
    let r = run(MonCS::wit(), &circuit(h0), &zf(&s0));
    if !matches!(r.out, Out::Ok(_)) || !r.cs.sat() {
        return;
    }
    let sys = Sys::new(&r.cs);
    let mut w = sys.defaults(&r.cs);
    let Some(p) = header_bits(h0, &w) else { return };
    let mut known = vec![None; w.len()];
    for (v, x) in r.ins.iter().zip(zf(&s)) {
        let i = sys.idx(*v);
        w[i] = x;
        known[i] = Some(x);
    }
    // the new header's bits, in the order the old one's were found in
    let bit = |h: &Hdr, i: usize| h[i / 8] >> (7 - i % 8) & 1 == 1;
    let orders: [&dyn Fn(usize) -> usize; 3] = [&|i| i / 64 * 64 + 63 - i % 64, &|i| i, &|i| i / 8 * 8 + 7 - i % 8];
    let Some(o) = orders.iter().find(|o| (0..640).all(|i| (w[p[i]] == Pal::ONE) == bit(h0, o(i)))) else { return };
    for i in 0..640 {
        w[p[i]] = if bit(&h, o(i)) { Pal::ONE } else { Pal::ZERO };
        known[p[i]] = Some(w[p[i]]);
    }
    t.case(&format!("hostile header {} on {} ({})", hexs(&h), show(&s), why), true);
    t.ev("hostile witnesses sought");
    t.ev("invalid headers forced onto the circuit");
    if let Some(f) = sys.solve(&known, &w, &mut t.rng, 60) {
        judge(t, &sys, &r, &f, &format!("header {}: {}", hexs(&h), why));
    }
}
/// a stretch of another run of the circuit put in place of this run's, its seams mended: what a
/// prover does who computes one part of the step for another state or header than the rest
fn graft(t: &mut T, c: &Corpus, valid: bool) {
    let good = c.good();
    let (n, h) = good[t.rng.below(good.len() as u64) as usize];
    let boundary = t.rng.chance(1, 2);
    let (s, why) = if valid {
        match state_for(&mut t.rng, h, boundary) {
            Some(s) => (s, "a valid step"),
            None => return,
        }
    } else {
        match broken_state(t, c, h) {
            Some(x) => x,
            None => return,
        }
    };
    // the donor: the same, but for one to three things, or cured of what is wrong with it
    let (mut s2, mut h2) = (s.clone(), *h);
    let header = if valid { t.rng.chance(1, 5) } else { t.rng.chance(1, 3) };
    let cure = !valid && t.rng.chance(1, 2) || header;
    if header && !valid {
        h2 = cured(&s, h);
    } else if header {
        let i = *t.rng.pick(&[0usize, 4, 36, 68, 69, 70, 72, 74, 75]);
        h2[i] = h2[i].wrapping_add(*t.rng.pick(&[1, 255, 2]));
    } else if cure {
        s2.hash = prev(h);
        let cures = [s.counter, if s.counter == 0 { 1 + t.rng.below(2015) } else { 0 }];
        match cures.iter().find(|k| step(&State { counter: **k, ..s2.clone() }, h).is_ok()) {
            Some(k) => s2.counter = *k,
            None => match state_for(&mut t.rng, h, s.counter == 0) {
                Some(x) => s2 = x,
                None => return,
            },
        }
    }
    for _ in 0..if cure { 0 } else { t.rng.range(1, 3) } {
        match t.rng.below(12) {
            9..=11 => {
                // a retarget of its own
                s2.counter = 0;
                let d = *t.rng.pick(&[0i64, 1, -1, 7, -7]);
                let span = *t.rng.pick(&[SPAN, SPAN, SPAN / 4 + 1, SPAN * 4 - 1]) as i64 + d;
                s2.epoch = (s2.times[10] as i64 - span).clamp(0, u32::MAX as i64) as u32;
            }
            0 => s2.counter = *t.rng.pick(&[0u64, 0, 1, 2014, 2015]),
            1 => s2.counter = if s.counter == 0 { 1 + t.rng.below(2015) } else { 0 },
            2 | 3 => {
                let d = *t.rng.pick(&[0i64, 1, -1, 2, 10, -10, 3600, -3600]);
                let span = *t.rng.pick(&[SPAN, SPAN, SPAN / 4 + 1, SPAN * 4 - 1, SPAN * 2]) as i64 + d;
                s2.epoch = (s2.times[10] as i64 - span).clamp(0, u32::MAX as i64) as u32;
            }
            4 => {
                let m = time(h).saturating_sub(1 + t.rng.below(5000) as u32);
                s2.times = times_with_median(&mut t.rng, m);
            }
            5 => {
                let (i, j) = (t.rng.below(11) as usize, t.rng.below(11) as usize);
                s2.times.swap(i, j);
            }
            6 => {
                let tg = naive_target(bits(h));
                s2.target = match t.rng.below(5) {
                    0 => tg,
                    1 => tg + unit(bits(h)),
                    2 => tg - unit(bits(h)),
                    3 => naive_target(bits(&t.rng.pick(&good).1)),
                    _ => max_target(),
                };
            }
            7 => {
                h2 = t.rng.pick(&good).1;
            }
            _ => {
                if let Some(x) = state_for(&mut t.rng, &h2, boundary) {
                    s2 = x;
                }
            }
        }
    }
    if !cure && t.rng.chance(1, 2) {
        s2.hash = prev(&h2);
    }
    let (r, r2) = (run(MonCS::wit(), &circuit(h), &zf(&s)), run(MonCS::wit(), &circuit(&h2), &zf(&s2)));
    if !matches!(r.out, Out::Ok(_)) || !matches!(r2.out, Out::Ok(_)) || r.cs.n_vars() != r2.cs.n_vars() {
        return;
    }
    let sys = Sys::new(&r.cs);
    let (base, donor) = (sys.defaults(&r.cs), sys.defaults(&r2.cs));
    // what follows from the donor's hash alone is of no use
    let own: Vec<bool> = if header {
        h2[76] ^= 1;
        let r3 = run(MonCS::wit(), &circuit(&h2), &zf(&s2));
        if !matches!(r3.out, Out::Ok(_)) || r3.cs.n_vars() != r2.cs.n_vars() {
            return;
        }
        sys.defaults(&r3.cs).iter().zip(&donor).map(|(a, b)| a == b).collect()
    } else {
        vec![true; donor.len()]
    };
    let ins: Vec<usize> = r.ins.iter().map(|v| sys.idx(*v)).collect();
    let Some(p) = header_bits(h, &base) else { return };
    let from = p.iter().max().unwrap() + 1;
    let hash = hash_stretch(&base, from);
    let mut frozen = vec![false; base.len()];
    for v in ins.iter().chain(&p).cloned().chain(hash.0..hash.1) {
        frozen[v] = true;
    }
    let differ: Vec<usize> = sys.wide().into_iter().filter(|v| base[*v] != donor[*v] && !frozen[*v] && own[*v]).collect();
    if differ.is_empty() {
        return;
    }
    t.case(&format!("graft on {} and {} ({}) from {} and {}", n, show(&s), why, hexs(&h2), show(&s2)), true);
    // where to cut: where the fewest constraints have a foot on either side
    let mut ends: Vec<usize> = differ.clone();
    ends.push(base.len());
    let ties = sys.ties(&|v| v < base.len() && base[v] != donor[v] && !frozen[v] && own[v]);
    let mut cuts: Vec<(usize, u64, usize, usize)> = vec![];
    for i in 0..differ.len() {
        for j in i + 1..ends.len() {
            let torn = ties.iter().filter(|k| {
                let inside = k.iter().filter(|v| **v >= ends[i] && **v < ends[j]).count();
                inside > 0 && inside < k.len()
            });
            cuts.push((torn.take(40).count(), t.rng.u64(), ends[i], ends[j]));
        }
    }
    cuts.sort();
    let n = t.run.n(24, 60) as usize;
    let mut pick: Vec<_> = cuts.iter().take(n).cloned().collect();
    for _ in 0..n / 6 {
        pick.push(*t.rng.pick(&cuts));
    }
    for (_, _, a, z) in pick {
        let mut w = base.clone();
        for v in a..z {
            if !frozen[v] && own[v] {
                w[v] = donor[v];
            }
        }
        let keep = t.rng.chance(3, 4);
        let depth = t.rng.range(1, 4);
        let cap = *t.rng.pick(&[20usize, 200, 1000]);
        t.ev("grafts tried");
        if let Some(f) = sys.repair(&w, &|j| frozen[j] || keep && j >= a && j < z && own[j], depth, cap, &mut t.rng, 20) {
            t.ev("grafts the constraints allow");
            if judge(t, &sys, &r, &f, &format!("{}, variables {} to {} taken from the run of {} on {}", why, a, z, hexs(&h2), show(&s2))) {
                return;
            }
        }
    }
}
/// two valid runs taken apart along variables no constraint ties together
fn splice_case(t: &mut T, c: &Corpus) {
    let good = c.good();
    let (n1, h1) = good[t.rng.below(good.len() as u64) as usize];
    let same: Vec<_> = good.iter().filter(|x| bits(&x.1) == bits(h1)).collect();
    let (n2, h2) = if t.rng.chance(3, 4) { same[t.rng.below(same.len() as u64) as usize] } else { good[t.rng.below(good.len() as u64) as usize] };
    let boundary = t.rng.chance(1, 3);
    let Some(s1) = state_for(&mut t.rng, h1, boundary) else { return };
    let mut s2 = s1.clone();
    s2.hash = prev(h2);
    if step(&s2, h2).is_err() {
        match state_for(&mut t.rng, h2, boundary) {
            Some(x) => s2 = x,
            None => return,
        }
    } else if t.rng.chance(1, 2) {
        s2.work = t.rng.big_bits(100);
    }
    let (r1, r2) = (run(MonCS::wit(), &circuit(h1), &zf(&s1)), run(MonCS::wit(), &circuit(h2), &zf(&s2)));
    if !matches!(r1.out, Out::Ok(_)) || !matches!(r2.out, Out::Ok(_)) || r1.cs.n_vars() != r2.cs.n_vars() {
        return;
    }
    let sys = Sys::new(&r1.cs);
    let (w1, w2) = (sys.defaults(&r1.cs), sys.defaults(&r2.cs));
    if !sys.check(&w1) || !sys.check(&w2) {
        return;
    }
    t.case(&format!("splice {} on {} with {} on {}", n1, show(&s1), n2, show(&s2)), true);
    let sp = splice(&sys, &w1, &w2);
    t.ev("pairs of runs taken apart");
    t.evn("independent parts found", sp.ok.len() as u64);
    let idx: Vec<usize> = (0..sp.ok.len()).filter(|i| sp.ok[*i]).collect();
    let mut tries: Vec<Vec<usize>> = idx.iter().take(400).map(|i| vec![*i]).collect();
    for _ in 0..6 {
        tries.push(idx.iter().cloned().filter(|_| t.rng.chance(1, 2)).collect());
    }
    for q in tries {
        let f = sp.take(&w1, &w2, &q);
        if f == w1 || f == w2 {
            continue;
        }
        t.ev("mixed assignments examined");
        if judge(t, &sys, &r1, &f, &format!("runs of {} and {} mixed", n1, n2)) {
            return;
        }
    }
}
pub fn c03(r: &Run) -> i32 {
    let c = corpus();
    r.par("splice", r.n(60, 2500), |t| splice_case(t, &c));
    r.par("force", r.n(100, 5000), |t| force_out(t, &c));
    r.par("perturb", r.n(40, 1500), |t| perturb(t, &c));
    r.par("wrong-turn", r.n(300, 5000), |t| wrong_turn(t, &c, 0));
    r.par("graft", r.n(400, 5000), |t| graft(t, &c, true));
    r.finish(
        "distinct hostile attempts: an output forced, an internal variable perturbed, or two valid runs mixed, on a given header and state",
        &["the hostile prover is a bounded search: a forged witness it reports is re-checked against every constraint, not finding one proves nothing", "a satisfying assignment whose header is outside the corpus would need fresh proof of work, which the prover cannot supply"],
        &[("hostile witnesses sought", 40), ("pairs of runs taken apart", 20), ("variables perturbed", 100), ("wrong turns tried", 100), ("grafts tried", 100)],
    )
}
