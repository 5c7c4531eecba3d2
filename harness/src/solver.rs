//! Hostile prover: given the constraints the code under test emitted, a set of
//! pinned variables (the public inputs of the claim, plus a *wrong* claim), and
//! the honest witness as a source of defaults, look for a full assignment that
//! satisfies every emitted constraint. It is a bounded, incomplete search
//! (propagation + elimination + guessing): a result is a concrete forged witness,
//! re-checked against every constraint, so it can never be a false alarm; "none
//! found" proves nothing and is only counted.
use crate::mon::*;
use crate::rng::*;
use ff::PrimeField;
use num_bigint::BigInt;
use std::collections::{BTreeMap, HashMap};

pub struct Sys<F: PrimeField> {
    pub n_in: usize,
    pub n: usize,
    pub cons: Vec<Con<F>>,
    adj: Vec<Vec<u32>>,
    pow2: HashMap<Vec<u8>, (i32, bool)>,
    p: BigInt,
    terms: usize,
    half: F,
    /// variables including the solver's own digits (see `digits`), and where their constraints are
    nt: usize,
    virt: (usize, usize),
}

fn dense(n_in: usize, v: Vid) -> usize {
    if v & AUX != 0 {
        n_in + (v & !AUX) as usize
    } else {
        v as usize
    }
}

impl<F: PrimeField> Sys<F> {
    pub fn new(cs: &MonCS<F>) -> Self {
        let n_in = cs.inputs.len();
        let n = cs.n_vars();
        let m = |l: &Lc<F>| l.iter().map(|(v, c)| (dense(n_in, *v) as u32, *c)).collect::<Vec<_>>();
        let cons: Vec<Con<F>> = cs
            .cons
            .iter()
            .map(|k| Con { a: m(&k.a), b: m(&k.b), c: m(&k.c) })
            .collect();
        let mut s = Sys { n_in, n, cons: vec![], adj: vec![vec![]; n], pow2: HashMap::new(), p: modulus::<F>(), half: F::ONE.double().invert().unwrap(), nt: n, virt: (0, 0), terms: cs.cons.iter().map(|k| k.a.len() + k.b.len() + k.c.len()).sum() };
        for k in cons {
            s.push(k);
        }
        s.digits();
        let mut x = F::ONE;
        let half = F::ONE.double().invert().unwrap();
        let nb = F::NUM_BITS as i32;
        for e in 0..nb {
            s.pow2.entry(x.to_repr().as_ref().to_vec()).or_insert((e, false));
            s.pow2.entry((-x).to_repr().as_ref().to_vec()).or_insert((e, true));
            x = x.double();
        }
        let mut x = half;
        for e in 1..nb {
            s.pow2.entry(x.to_repr().as_ref().to_vec()).or_insert((-e, false));
            s.pow2.entry((-x).to_repr().as_ref().to_vec()).or_insert((-e, true));
            x = x * half;
        }
        s
    }
    /// Where a constraint says that a sum of variables takes one of two values, name the choice
    /// by a digit of the solver's own, so that ranges are visible as digits throughout.
    fn digits(&mut self) {
        self.virt = (self.cons.len(), self.cons.len());
        let mut new = vec![];
        for k in &self.cons {
            let (a, b, c) = (merge(k.a.clone()), merge(k.b.clone()), merge(k.c.clone()));
            let wide = |l: &[(u32, F)]| l.iter().filter(|x| x.0 != 0).count();
            if wide(&a) < 2 || wide(&a) != wide(&b) {
                continue;
            }
            let rest = |l: &[(u32, F)], g: F| merge(l.iter().cloned().chain(a.iter().map(|x| (x.0, x.1 * g))).collect::<Vec<_>>());
            let lead = |l: &[(u32, F)]| l.iter().find(|x| x.0 != 0).map(|x| x.1).unwrap();
            // a * (g a + d) = e a
            let g = lead(&b) * lead(&a).invert().unwrap();
            let d = rest(&b, -g);
            let e = if c.is_empty() { F::ZERO } else if wide(&c) == wide(&a) { lead(&c) * lead(&a).invert().unwrap() } else { continue };
            let ee = rest(&c, -e);
            if wide(&d) > 0 || (!c.is_empty() && !ee.is_empty()) {
                continue;
            }
            let d = d.first().map_or(F::ZERO, |x| x.1);
            // a = 0 or a = (e - d) / g
            let r = (e - d) * g.invert().unwrap();
            if bool::from(r.is_zero()) {
                continue;
            }
            new.push((a, r));
        }
        for (mut a, r) in new {
            a.push((self.nt as u32, -r));
            self.nt += 1;
            self.adj.push(vec![]);
            self.push(Con { a, b: vec![(0, F::ONE)], c: vec![] });
        }
        self.virt.1 = self.cons.len();
    }
    fn own(&self, i: usize) -> bool {
        i >= self.virt.0 && i < self.virt.1
    }
    fn push(&mut self, k: Con<F>) {
        let i = self.cons.len() as u32;
        for l in [&k.a, &k.b, &k.c] {
            for (v, _) in l {
                if self.adj[*v as usize].last() != Some(&i) {
                    self.adj[*v as usize].push(i);
                }
            }
        }
        self.cons.push(k);
    }
    pub fn idx(&self, v: Vid) -> usize {
        dense(self.n_in, v)
    }
    /// add "lc == value" (lc in Vid terms)
    pub fn force(&mut self, l: &Lc<F>, value: F) {
        let a: Vec<(u32, F)> = l.iter().map(|(v, c)| (dense(self.n_in, *v) as u32, *c)).collect();
        self.push(Con { a, b: vec![(0, F::ONE)], c: vec![(0, value)] });
    }
    pub fn mark(&self) -> usize {
        self.cons.len()
    }
    /// drop constraints added after `mark`
    pub fn reset(&mut self, mark: usize) {
        while self.cons.len() > mark {
            let i = self.cons.len() as u32 - 1;
            let k = self.cons.pop().unwrap();
            for l in [&k.a, &k.b, &k.c] {
                for (v, _) in l {
                    if self.adj[*v as usize].last() == Some(&i) {
                        self.adj[*v as usize].pop();
                    }
                }
            }
        }
    }
    pub fn defaults(&self, cs: &MonCS<F>) -> Vec<F> {
        cs.inputs.iter().chain(cs.aux.iter()).cloned().collect()
    }
    fn ev(&self, l: &[(u32, F)], w: &[F]) -> F {
        let mut s = F::ZERO;
        for (v, c) in l {
            s += w[*v as usize] * c;
        }
        s
    }
    pub fn check(&self, w: &[F]) -> bool {
        self.cons.iter().enumerate().all(|(i, k)| self.own(i) || self.ev(&k.a, w) * self.ev(&k.b, w) == self.ev(&k.c, w))
    }
    pub fn violated(&self, w: &[F]) -> Vec<usize> {
        (0..self.cons.len())
            .filter(|i| !self.own(*i))
            .filter(|i| {
                let k = &self.cons[*i];
                self.ev(&k.a, w) * self.ev(&k.b, w) != self.ev(&k.c, w)
            })
            .collect()
    }
    /// Neighbourhood release: free every non-frozen variable within `depth` hops of a
    /// violated constraint (at most `cap` of them), keep the rest of `w`, and solve.
    pub fn repair(&self, w: &[F], frozen: &dyn Fn(usize) -> bool, depth: usize, cap: usize, rng: &mut Rng, budget: usize) -> Option<Vec<F>> {
        let mut front = self.violated(w);
        if front.is_empty() {
            return Some(w.to_vec());
        }
        let mut free: Vec<bool> = vec![false; self.nt];
        let mut nfree = 0;
        let mut seen: std::collections::HashSet<usize> = front.iter().cloned().collect();
        for _ in 0..depth {
            let mut next = vec![];
            for i in &front {
                let k = &self.cons[*i];
                for l in [&k.a, &k.b, &k.c] {
                    for (v, _) in l {
                        let v = *v as usize;
                        if v >= self.n || free[v] || frozen(v) || v == 0 || nfree >= cap {
                            continue;
                        }
                        free[v] = true;
                        nfree += 1;
                        for j in &self.adj[v] {
                            if seen.insert(*j as usize) {
                                next.push(*j as usize);
                            }
                        }
                    }
                }
            }
            front = next;
        }
        let known: Vec<Option<F>> = (0..self.n).map(|i| if free[i] { None } else { Some(w[i]) }).collect();
        self.solve(&known, w, rng, budget)
    }
    pub fn solve(&self, known: &[Option<F>], defaults: &[F], rng: &mut Rng, budget: usize) -> Option<Vec<F>> {
        self.solve_in((0..self.cons.len() as u32).collect(), known, defaults, rng, budget)
    }
    /// Variables up to `hops` small constraints away from those in `front`.
    /// A constraint is small if it leaves little to choose.
    fn around(&self, front: Vec<usize>, of: &dyn Fn(usize) -> bool, hops: usize) -> Vec<usize> {
        let mut seen: std::collections::HashSet<usize> = front.iter().cloned().collect();
        let (mut front, mut all) = (front, vec![]);
        for _ in 0..hops {
            let mut next = vec![];
            for v in &front {
                for k in &self.adj[*v] {
                    let mut vs = self.vars(*k as usize);
                    vs.retain(|u| of(*u));
                    if vs.len() > 10 {
                        continue;
                    }
                    for u in vs {
                        if seen.insert(u) {
                            next.push(u);
                            all.push(u);
                        }
                    }
                }
            }
            front = next;
        }
        all
    }
    fn vars(&self, k: usize) -> Vec<usize> {
        let mut v: Vec<usize> = [&self.cons[k].a, &self.cons[k].b, &self.cons[k].c].into_iter().flat_map(|l| l.iter().map(|t| t.0 as usize)).filter(|v| *v > 0).collect();
        v.sort_unstable();
        v.dedup();
        v
    }
    /// Variables up to `hops` small constraints away from the given constraints.
    pub fn near(&self, cons: &[usize], frozen: &dyn Fn(usize) -> bool, hops: usize) -> Vec<usize> {
        let of = |v: usize| v < self.n && !frozen(v);
        let mut v: Vec<usize> = cons.iter().flat_map(|k| self.vars(*k)).filter(|v| of(*v)).collect();
        v.sort_unstable();
        v.dedup();
        let more = self.around(v.clone(), &of, hops);
        v.extend(more);
        v
    }
    /// Keep everything allocated before variable `i`, give it another value (or leave it open),
    /// and let everything after it follow: what a prover does who takes a wrong turn at `i`.
    /// With `back` > 0 also release earlier variables up to `back` small constraints away.
    /// `also` are later variables to be given other values too.
    pub fn cascade(&self, base: &[F], violated: &[usize], frozen: &dyn Fn(usize) -> bool, i: usize, x: Option<F>, also: &[(usize, F)], back: usize, rng: &mut Rng, budget: usize) -> Option<Vec<F>> {
        let mut free = vec![false; self.nt];
        for u in self.around(vec![i], &|u| u < i && !frozen(u), back) {
            free[u] = true;
        }
        let late = |v: usize| v < self.n && (v >= i || free[v]) && v > 0 && !frozen(v);
        let vars = |k: usize| [&self.cons[k].a, &self.cons[k].b, &self.cons[k].c].into_iter().flat_map(|l| l.iter().map(|t| t.0 as usize));
        if frozen(i) || violated.iter().any(|k| !vars(*k).any(late)) {
            return None;
        }
        let mut act: Vec<u32> = (1..self.n).filter(|v| late(*v)).flat_map(|v| self.adj[v].iter().cloned()).collect();
        act.sort_unstable();
        act.dedup();
        let mut known: Vec<Option<F>> = (0..self.n).map(|v| if v == i && x.is_some() { x } else if late(v) { None } else { Some(base[v]) }).collect();
        for (v, y) in also {
            if late(*v) && *v != i {
                known[*v] = Some(*y);
            }
        }
        self.solve_in(act, &known, base, rng, budget)
    }
    /// which of the given variables each constraint ties together (those tying two or more)
    pub fn ties(&self, of: &dyn Fn(usize) -> bool) -> Vec<Vec<usize>> {
        let pick = |k: &Con<F>| {
            let mut v: Vec<usize> = [&k.a, &k.b, &k.c].into_iter().flat_map(|l| l.iter().map(|t| t.0 as usize)).filter(|v| of(*v)).collect();
            v.sort_unstable();
            v.dedup();
            v
        };
        self.cons.iter().enumerate().filter(|(i, _)| !self.own(*i)).map(|(_, k)| pick(k)).filter(|v| v.len() > 1).collect()
    }
    /// variables no constraint of their own restricts to two values
    pub fn wide(&self) -> Vec<usize> {
        let mut two = vec![false; self.n];
        for k in &self.cons {
            let mut it = [&k.a, &k.b, &k.c].into_iter().flat_map(|l| l.iter().map(|t| t.0)).filter(|v| *v != 0);
            if let Some(f) = it.next() {
                if !k.a.is_empty() && !k.b.is_empty() && it.all(|v| v == f) {
                    two[f as usize] = true;
                }
            }
        }
        (1..self.n).filter(|v| !two[*v]).collect()
    }
    fn solve_in(&self, act: Vec<u32>, known: &[Option<F>], defaults: &[F], rng: &mut Rng, budget: usize) -> Option<Vec<F>> {
        let mut def = defaults.to_vec();
        def.resize(self.nt, F::ZERO);
        let mut st = St {
            act: vec![],
            batch: 3,
            s: self,
            val: vec![None; self.nt],
            trail: vec![],
            dom: vec![None; self.nt],
            extra: vec![],
            def: &def,
            budget: budget as i64,
            work: std::cell::Cell::new(budget as i64 * 20_000 + 40 * self.terms as i64),
        };
        st.val[0] = Some(F::ONE);
        for (i, k) in known.iter().enumerate() {
            if i > 0 {
                st.val[i] = *k;
            }
        }
        st.act = act.clone();
        st.find_domains();
        for v in self.n..self.nt {
            st.dom[v] = Some([F::ZERO, F::ONE]);
        }
        if st.dfs(act, rng, 0) {
            let w: Vec<F> = st.val[..self.n].iter().enumerate().map(|(i, v)| v.unwrap_or(defaults[i])).collect();
            for (i, k) in known.iter().enumerate() {
                if i > 0 && k.is_some() && *k != Some(w[i]) {
                    return None;
                }
            }
            if self.check(&w) {
                return Some(w);
            }
        }
        None
    }
}

struct St<'a, F: PrimeField> {
    s: &'a Sys<F>,
    val: Vec<Option<F>>,
    trail: Vec<usize>,
    dom: Vec<Option<[F; 2]>>,
    extra: Vec<Vec<(u32, F)>>,
    def: &'a [F],
    budget: i64,
    /// deterministic effort bound, in linear-combination terms visited
    work: std::cell::Cell<i64>,
    /// the constraints to look at
    act: Vec<u32>,
    /// how often to try all digits at their defaults at once
    batch: u32,
}

enum Ref<F> {
    Done,
    Fail,
    Assign(Vec<(usize, F)>),
    Lin(F, Vec<(u32, F)>),
    Multi(Vec<Vec<(usize, F)>>),
    Prod,
    Other,
}

fn merge<F: PrimeField>(mut t: Vec<(u32, F)>) -> Vec<(u32, F)> {
    t.sort_by_key(|x| x.0);
    let mut o: Vec<(u32, F)> = Vec::with_capacity(t.len());
    for (v, c) in t {
        match o.last_mut() {
            Some(l) if l.0 == v => l.1 += c,
            _ => o.push((v, c)),
        }
    }
    o.retain(|x| !bool::from(x.1.is_zero()));
    o
}

impl<'a, F: PrimeField> St<'a, F> {
    fn split(&self, l: &[(u32, F)]) -> (F, Vec<(u32, F)>) {
        self.work.set(self.work.get() - 1 - l.len() as i64);
        let mut c = F::ZERO;
        let mut u = vec![];
        for (v, k) in l {
            match self.val[*v as usize] {
                Some(x) => c += x * k,
                None => u.push((*v, *k)),
            }
        }
        (c, merge(u))
    }
    fn find_domains(&mut self) {
        // any constraint over a single variable that is genuinely quadratic
        for i in &self.act {
            let k = &self.s.cons[*i as usize];
            let mut only: Option<u32> = None;
            let mut ok = true;
            for l in [&k.a, &k.b, &k.c] {
                for (v, _) in l.iter() {
                    if *v == 0 {
                        continue;
                    }
                    match only {
                        None => only = Some(*v),
                        Some(x) if x == *v => {}
                        _ => ok = false,
                    }
                }
                if !ok {
                    break;
                }
            }
            if !ok {
                continue;
            }
            let Some(v) = only else { continue };
            let f = |l: &[(u32, F)]| {
                let mut c = F::ZERO;
                let mut m = F::ZERO;
                for (x, k) in l {
                    if *x == 0 {
                        c += k
                    } else {
                        m += k
                    }
                }
                (c, m)
            };
            let (a0, a1) = f(&k.a);
            let (b0, b1) = f(&k.b);
            let (c0, c1) = f(&k.c);
            let q = a1 * b1;
            if bool::from(q.is_zero()) {
                continue;
            }
            let (lin, con) = (a0 * b1 + a1 * b0 - c1, a0 * b0 - c0);
            if bool::from(con.is_zero()) && bool::from((q + lin).is_zero()) {
                self.dom[v as usize] = Some([F::ZERO, F::ONE]);
                continue;
            }
            if let Some(r) = roots(q, lin, con) {
                if r[0] != r[1] {
                    self.dom[v as usize] = Some(r);
                }
            }
        }
    }
    fn bits(&self, k0: F, t: &[(u32, F)]) -> Option<Ref<F>> {
        // all unknown have a two-value domain
        let mut k0 = k0;
        self.work.set(self.work.get() - 60 - 15 * t.len() as i64);
        let mut co = vec![];
        for (v, c) in t {
            let d = self.dom[*v as usize]?;
            k0 += d[0] * c;
            co.push(*c * (d[1] - d[0]));
        }
        let setb = |i: usize, b: bool| {
            let v = t[i].0 as usize;
            (v, self.dom[v].unwrap()[b as usize])
        };
        let inv = co[0].invert().unwrap();
        let mut ex = vec![];
        let mut good = true;
        for c in &co {
            match self.s.pow2.get((*c * inv).to_repr().as_ref()) {
                Some(e) => ex.push(*e),
                None => {
                    good = false;
                    break;
                }
            }
        }
        if good {
            let min = ex.iter().map(|e| e.0).min().unwrap();
            let max = ex.iter().map(|e| e.0).max().unwrap();
            let mut set = std::collections::HashSet::new();
            if ex.iter().all(|e| set.insert(e.0)) && max - min <= F::NUM_BITS as i32 + 64 {
                // sum s_i 2^(e_i-min) b_i = T
                let mut sc = inv;
                let half = self.s.half;
                if min < 0 {
                    for _ in 0..-min {
                        sc = sc.double();
                    }
                } else {
                    for _ in 0..min {
                        sc = sc * half;
                    }
                }
                let mut tt = -k0 * sc;
                let mut pos: HashMap<i32, usize> = HashMap::new();
                for (i, e) in ex.iter().enumerate() {
                    pos.insert(e.0 - min, i);
                    if e.1 {
                        // negative: b = 1 - b'
                        let mut x = F::ONE;
                        for _ in 0..(e.0 - min) {
                            x = x.double();
                        }
                        tt += x;
                    }
                }
                let w = (max - min + 1) as usize;
                let mut sols = vec![];
                let mut cand = n_of(&tt);
                while cand.bits() as usize <= w && sols.len() < 8 {
                    let mut a = vec![];
                    let mut ok = true;
                    for b in 0..w {
                        let bit = cand.bit(b as u64);
                        match pos.get(&(b as i32)) {
                            Some(i) => a.push(setb(*i, bit ^ ex[*i].1)),
                            None => {
                                if bit {
                                    ok = false;
                                    break;
                                }
                            }
                        }
                    }
                    if ok {
                        sols.push(a);
                    }
                    cand += &self.s.p;
                }
                return Some(match sols.len() {
                    0 => Ref::Fail,
                    1 => Ref::Assign(sols.pop().unwrap()),
                    _ => Ref::Multi(sols),
                });
            }
        }
        if t.len() <= 6 {
            let mut sols = vec![];
            for m in 0..(1u32 << t.len()) {
                let mut s = k0;
                for (i, c) in co.iter().enumerate() {
                    if m >> i & 1 == 1 {
                        s += c;
                    }
                }
                if bool::from(s.is_zero()) {
                    sols.push((0..t.len()).map(|i| setb(i, m >> i & 1 == 1)).collect::<Vec<_>>());
                }
            }
            return Some(match sols.len() {
                0 => Ref::Fail,
                1 => Ref::Assign(sols.pop().unwrap()),
                _ => Ref::Multi(sols),
            });
        }
        None
    }
    fn lin(&self, k: F, t: Vec<(u32, F)>) -> Ref<F> {
        match t.len() {
            0 => {
                if bool::from(k.is_zero()) {
                    Ref::Done
                } else {
                    Ref::Fail
                }
            }
            1 => {
                self.work.set(self.work.get() - 60);
                Ref::Assign(vec![(t[0].0 as usize, -k * t[0].1.invert().unwrap())])
            }
            _ => {
                if let Some(r) = self.bits(k, &t) {
                    return r;
                }
                Ref::Lin(k, t)
            }
        }
    }
    fn look(&self, i: u32) -> Ref<F> {
        let nc = self.s.cons.len() as u32;
        if i >= nc {
            let (c, u) = self.split(&self.extra[(i - nc) as usize]);
            return self.lin(c, u);
        }
        let k = &self.s.cons[i as usize];
        let (ca, ua) = self.split(&k.a);
        let (cb, ub) = self.split(&k.b);
        let (cc, uc) = self.split(&k.c);
        if ua.is_empty() || ub.is_empty() {
            let (x, cy, uy) = if ua.is_empty() { (ca, cb, ub) } else { (cb, ca, ua) };
            let mut t: Vec<(u32, F)> = if bool::from(x.is_zero()) { vec![] } else { uy.into_iter().map(|(v, c)| (v, c * x)).collect() };
            t.extend(uc.into_iter().map(|(v, c)| (v, -c)));
            return self.lin(x * cy - cc, merge(t));
        }
        let v = ua[0].0;
        if ua.len() == 1 && ub.len() == 1 && ub[0].0 == v && uc.iter().all(|x| x.0 == v) {
            let c1 = uc.first().map(|x| x.1).unwrap_or(F::ZERO);
            if let Some(d) = self.dom[v as usize] {
                let good: Vec<F> = d.into_iter().filter(|x| (ua[0].1 * x + ca) * (ub[0].1 * x + cb) == c1 * x + cc).collect();
                return match good.len() {
                    0 => Ref::Fail,
                    1 => Ref::Assign(vec![(v as usize, good[0])]),
                    _ => Ref::Multi(good.into_iter().map(|x| vec![(v as usize, x)]).collect()),
                };
            }
            self.work.set(self.work.get() - 2000);
            return match roots(ua[0].1 * ub[0].1, ca * ub[0].1 + cb * ua[0].1 - c1, ca * cb - cc) {
                None => Ref::Fail,
                Some(r) if r[0] == r[1] => Ref::Assign(vec![(v as usize, r[0])]),
                Some(r) => Ref::Multi(vec![vec![(v as usize, r[0])], vec![(v as usize, r[1])]]),
            };
        }
        if uc.is_empty() && bool::from(cc.is_zero()) {
            let two = |l: &[(u32, F)]| l.iter().all(|x| self.dom[x.0 as usize].is_some());
            if two(&ua) && two(&ub) {
                // a sum of digits is zero in one factor or the other
                if let (Some(x), Some(y)) = (self.bits(ca, &ua), self.bits(cb, &ub)) {
                    let mut sols = vec![];
                    for r in [x, y] {
                        match r {
                            Ref::Assign(a) => sols.push(a),
                            Ref::Multi(m) => sols.extend(m),
                            _ => {}
                        }
                    }
                    return match sols.len() {
                        0 => Ref::Fail,
                        1 => Ref::Assign(sols.pop().unwrap()),
                        _ => Ref::Multi(sols),
                    };
                }
            }
            return Ref::Prod;
        }
        Ref::Other
    }
    fn set(&mut self, v: usize, x: F, q: &mut Vec<u32>) -> bool {
        match self.val[v] {
            Some(y) => y == x,
            None => {
                self.val[v] = Some(x);
                self.trail.push(v);
                q.extend(self.s.adj[v].iter());
                let nc = self.s.cons.len() as u32;
                for (j, e) in self.extra.iter().enumerate() {
                    if e.iter().any(|t| t.0 as usize == v) {
                        q.push(nc + j as u32);
                    }
                }
                true
            }
        }
    }
    fn propagate(&mut self, mut q: Vec<u32>) -> bool {
        while let Some(i) = q.pop() {
            if self.work.get() < 0 {
                return false;
            }
            match self.look(i) {
                Ref::Fail => return false,
                Ref::Assign(a) => {
                    for (v, x) in a {
                        if !self.set(v, x, &mut q) {
                            return false;
                        }
                    }
                    q.push(i);
                }
                _ => {}
            }
        }
        true
    }
    fn eliminate(&mut self) -> Option<Vec<(usize, F)>> {
        // sparse RREF of all currently linear constraints; None = inconsistent
        let nc = self.s.cons.len() as u32;
        let mut rows: Vec<(BTreeMap<(bool, u32), F>, F)> = vec![];
        let mut terms = 0;
        for i in self.act.iter().cloned().chain(nc..nc + self.extra.len() as u32) {
            if let Ref::Lin(k, t) = self.look(i) {
                terms += t.len();
                rows.push((t.into_iter().map(|(v, c)| ((self.dom[v as usize].is_some(), v), c)).collect(), k));
            }
            if rows.len() > 400 || terms > 20000 {
                return Some(vec![]);
            }
        }
        let mut work = 0u64;
        let mut piv: Vec<usize> = vec![];
        for r in 0..rows.len() {
            let Some((&pc, &pv)) = rows[r].0.iter().next() else {
                if !bool::from(rows[r].1.is_zero()) {
                    return None;
                }
                continue;
            };
            let inv = pv.invert().unwrap();
            let (mut row, mut k) = (std::mem::take(&mut rows[r].0), rows[r].1);
            for x in row.values_mut() {
                *x *= inv;
            }
            k *= inv;
            for o in 0..rows.len() {
                if o == r {
                    continue;
                }
                if let Some(f) = rows[o].0.get(&pc).cloned() {
                    work += row.len() as u64;
                    self.work.set(self.work.get() - 3 * row.len() as i64);
                    for (c, x) in &row {
                        let e = rows[o].0.entry(*c).or_insert(F::ZERO);
                        *e -= *x * f;
                        if bool::from(e.is_zero()) {
                            rows[o].0.remove(c);
                        }
                    }
                    let d = k * f;
                    rows[o].1 -= d;
                }
            }
            rows[r] = (row, k);
            piv.push(r);
            if work > 3_000_000 || self.work.get() < 0 {
                return Some(vec![]);
            }
        }
        let mut out = vec![];
        for (row, k) in &rows {
            if row.is_empty() {
                if !bool::from(k.is_zero()) {
                    return None;
                }
            } else if row.len() == 1 {
                out.push((row.keys().next().unwrap().1 as usize, -*k));
            } else if row.keys().all(|c| c.0) {
                let t: Vec<(u32, F)> = row.iter().map(|(c, x)| (c.1, *x)).collect();
                match self.bits(*k, &t) {
                    Some(Ref::Fail) => return None,
                    Some(Ref::Assign(a)) => out.extend(a),
                    _ => {}
                }
            }
        }
        Some(out)
    }
    fn undo(&mut self, mark: usize, em: usize) {
        while self.trail.len() > mark {
            let v = self.trail.pop().unwrap();
            self.val[v] = None;
        }
        self.extra.truncate(em);
    }
    fn dfs(&mut self, q: Vec<u32>, rng: &mut Rng, depth: usize) -> bool {
        self.budget -= 1;
        if self.budget < 0 || self.work.get() < 0 || depth > 1500 {
            return false;
        }
        if !self.propagate(q) {
            return false;
        }
        loop {
            if self.work.get() < 0 {
                return false;
            }
            match self.eliminate() {
                None => return false,
                Some(a) if a.is_empty() => break,
                Some(a) => {
                    let mut q = vec![];
                    for (v, x) in a {
                        if !self.set(v, x, &mut q) {
                            return false;
                        }
                    }
                    if !self.propagate(q) {
                        return false;
                    }
                }
            }
        }
        // choose a branch point
        let nc = self.s.cons.len() as u32;
        let mut multi: Option<Vec<Vec<(usize, F)>>> = None;
        let mut prod: Option<(usize, u32)> = None;
        let mut open = false;
        // what is left, filled in by default: only what that breaks needs a decision
        let mut broken: Vec<u32> = vec![];
        {
            let at = |l: &[(u32, F)]| {
                self.work.set(self.work.get() - l.len() as i64);
                let mut s = F::ZERO;
                for (v, c) in l {
                    s += self.val[*v as usize].unwrap_or(self.def[*v as usize]) * c;
                }
                s
            };
            for i in &self.act {
                let k = &self.s.cons[*i as usize];
                if !self.s.own(*i as usize) && at(&k.a) * at(&k.b) != at(&k.c) {
                    broken.push(*i);
                }
            }
            for (j, e) in self.extra.iter().enumerate() {
                if !bool::from(at(e).is_zero()) {
                    broken.push(nc + j as u32);
                }
            }
        }
        if broken.is_empty() {
            return true;
        }
        for i in broken.iter().cloned() {
            match self.look(i) {
                Ref::Done => {}
                Ref::Fail => return false,
                Ref::Multi(m) => {
                    open = true;
                    if multi.as_ref().map_or(true, |x| m.len() < x.len()) {
                        multi = Some(m)
                    }
                }
                Ref::Prod => {
                    open = true;
                    let k = &self.s.cons[i as usize];
                    let n = self.split(&k.a).1.len() + self.split(&k.b).1.len();
                    if prod.map_or(true, |x| n < x.0) {
                        prod = Some((n, i));
                    }
                }
                _ => open = true,
            }
        }
        if !open {
            return true; // remaining variables unconstrained: defaults
        }
        let (mark, em) = (self.trail.len(), self.extra.len());
        if let Some(mut m) = multi {
            // prefer the non-default alternatives when several decompositions exist
            m.sort_by_key(|a| a.iter().filter(|(v, x)| self.def[*v] == *x).count());
            if m.len() == 2 && m[0].len() == 1 {
                m.reverse();
            }
            for a in m {
                let mut q = vec![];
                if a.into_iter().all(|(v, x)| self.set(v, x, &mut q)) && self.dfs(q, rng, depth + 1) {
                    return true;
                }
                self.undo(mark, em);
            }
            return false;
        }
        if let Some((n, i)) = prod {
            let digits = {
                let k = &self.s.cons[i as usize];
                k.a.iter().chain(k.b.iter()).any(|x| self.val[x.0 as usize].is_none() && self.dom[x.0 as usize].is_some())
            };
            if n <= 4 || !digits || !self.any_bool() {
                let k = &self.s.cons[i as usize];
                let mut alts = vec![k.a.clone(), k.b.clone()];
                if !bool::from(self.s.ev(&alts[0], self.def).is_zero()) {
                    alts.reverse();
                }
                for l in alts {
                    self.extra.push(l);
                    let q = vec![nc + self.extra.len() as u32 - 1];
                    if self.dfs(q, rng, depth + 1) {
                        return true;
                    }
                    self.undo(mark, em);
                }
                return false;
            }
        }
        // all digits as they were, the rest to follow
        if self.batch > 0 {
            self.batch -= 1;
            let all: Vec<usize> = (1..self.s.n).filter(|v| self.val[*v].is_none() && self.dom[*v].map_or(false, |d| d.contains(&self.def[*v]))).collect();
            if all.len() > 4 {
                let mut q = vec![];
                let def = self.def;
                if all.into_iter().all(|v| self.set(v, def[v], &mut q)) && self.dfs(q, rng, depth + 1) {
                    return true;
                }
                self.undo(mark, em);
            }
        }
        // guess a variable: free (non-boolean) last
        let mut cand: Option<usize> = None;
        let mut near: Vec<usize> = vec![];
        for i in &broken {
            if *i >= nc {
                near.extend(self.extra[(*i - nc) as usize].iter().map(|x| x.0 as usize));
            } else {
                let k = &self.s.cons[*i as usize];
                near.extend([&k.a, &k.b, &k.c].into_iter().flat_map(|l| l.iter().map(|x| x.0 as usize)));
            }
            near.retain(|v| self.val[*v].is_none());
            if near.len() > 1 {
                break;
            }
        }
        near.sort_unstable();
        for v in near {
            if self.val[v].is_none() && !self.s.adj[v].is_empty() {
                let b = self.dom[v].is_some();
                match cand {
                    None => cand = Some(v),
                    Some(c) if b && self.dom[c].is_none() => cand = Some(v),
                    _ => {}
                }
                if b {
                    break;
                }
            }
        }
        let Some(v) = cand else { return true };
        let d = self.def[v];
        let tries: Vec<F> = match self.dom[v] {
            Some(r) => {
                if r[0] == d {
                    vec![r[0], r[1]]
                } else if r[1] == d {
                    vec![r[1], r[0]]
                } else {
                    r.to_vec()
                }
            }
            None => {
                let mut t = vec![d];
                for x in [F::ZERO, F::ONE, d + F::ONE, rng.field::<F>()] {
                    if !t.contains(&x) {
                        t.push(x);
                    }
                }
                t
            }
        };
        for x in tries {
            let mut q = vec![];
            if self.set(v, x, &mut q) && self.dfs(q, rng, depth + 1) {
                return true;
            }
            self.undo(mark, em);
            if self.budget < 0 {
                return false;
            }
        }
        false
    }
    fn any_bool(&self) -> bool {
        (1..self.s.nt).any(|v| self.val[v].is_none() && self.dom[v].is_some() && !self.s.adj[v].is_empty())
    }
}

/// roots of a x^2 + b x + c (a != 0)
fn roots<F: PrimeField>(a: F, b: F, c: F) -> Option<[F; 2]> {
    let disc = b * b - F::from(4u64) * a * c;
    let s: Option<F> = disc.sqrt().into();
    let s = s?;
    let i = (a.double()).invert().unwrap();
    Some([(-b - s) * i, (-b + s) * i])
}

/// Two runs of the same circuit: the variables they differ in, grouped into
/// components that share no constraint. Any component that keeps its own
/// constraints satisfied may be taken from the other run: an exact, cheap prover
/// for claims that are not tied together.
pub struct Splice {
    /// component number of each differing variable
    pub comp: HashMap<usize, usize>,
    /// component satisfies all its constraints with the second run's values
    pub ok: Vec<bool>,
}
pub fn splice<F: PrimeField>(s: &Sys<F>, w1: &[F], w2: &[F]) -> Splice {
    let mut par: Vec<usize> = (0..s.n).collect();
    fn find(p: &mut Vec<usize>, mut x: usize) -> usize {
        while p[x] != x {
            p[x] = p[p[x]];
            x = p[x];
        }
        x
    }
    let diff = |v: usize| w1[v] != w2[v];
    for k in s.cons.iter().enumerate().filter(|x| !s.own(x.0)).map(|x| x.1) {
        let mut first: Option<usize> = None;
        for l in [&k.a, &k.b, &k.c] {
            for (v, _) in l {
                let v = *v as usize;
                if diff(v) {
                    match first {
                        None => first = Some(v),
                        Some(f) => {
                            let (a, b) = (find(&mut par, f), find(&mut par, v));
                            par[a] = b;
                        }
                    }
                }
            }
        }
    }
    let mut names: HashMap<usize, usize> = HashMap::new();
    let mut comp = HashMap::new();
    for v in 0..s.n {
        if diff(v) {
            let r = find(&mut par, v);
            let n = names.len();
            comp.insert(v, *names.entry(r).or_insert(n));
        }
    }
    let mut ok = vec![true; names.len()];
    for k in s.cons.iter().enumerate().filter(|x| !s.own(x.0)).map(|x| x.1) {
        let c = [&k.a, &k.b, &k.c].iter().flat_map(|l| l.iter()).find_map(|(v, _)| comp.get(&(*v as usize)).cloned());
        if let Some(c) = c {
            if ok[c] && s.ev(&k.a, w2) * s.ev(&k.b, w2) != s.ev(&k.c, w2) {
                ok[c] = false;
            }
        }
    }
    Splice { comp, ok }
}
impl Splice {
    pub fn take<F: PrimeField>(&self, w1: &[F], w2: &[F], comps: &[usize]) -> Vec<F> {
        (0..w1.len()).map(|v| if self.comp.get(&v).map_or(false, |c| comps.contains(c)) { w2[v] } else { w1[v] }).collect()
    }
}
/// Replace the first run of consecutive values `from` (at or after `at`) by `to`.
pub fn transplant<F: PrimeField>(w: &mut [F], at: usize, from: &[F], to: &[F]) -> Option<usize> {
    if from.is_empty() || from.len() != to.len() || w.len() < from.len() {
        return None;
    }
    let i = (at..=w.len() - from.len()).find(|i| w[*i..*i + from.len()] == *from)?;
    w[i..i + to.len()].copy_from_slice(to);
    Some(i)
}
