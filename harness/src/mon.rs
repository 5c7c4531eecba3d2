//! MonCS: an instrumented `ConstraintSystem`. Every allocation and every
//! constraint the code under test emits is recorded as an event; monitors then
//! judge the recording (satisfaction, shape, consistency of returned objects,
//! hostile witnesses). Nothing here looks at annotation strings except the
//! optional path-uniqueness monitor.
use bellpepper_core::{ConstraintSystem, Index, LinearCombination, SynthesisError, Variable};
use ff::PrimeField;
use std::collections::HashSet;

/// A variable id: bit 31 set = auxiliary.
pub type Vid = u32;
pub const AUX: u32 = 1 << 31;

pub fn vid(v: Variable) -> Vid {
    match v.get_unchecked() {
        Index::Input(i) => i as u32,
        Index::Aux(i) => i as u32 | AUX,
    }
}

pub type Lc<F> = Vec<(Vid, F)>;

pub fn lc_of<F: PrimeField>(l: &LinearCombination<F>) -> Lc<F> {
    l.iter()
        .filter(|(_, c)| !bool::from(c.is_zero()))
        .map(|(v, c)| (vid(v), *c))
        .collect()
}

#[derive(Clone)]
pub struct Con<F> {
    pub a: Lc<F>,
    pub b: Lc<F>,
    pub c: Lc<F>,
}

pub struct MonCS<F: PrimeField> {
    /// witness mode evaluates the value closures; shape mode (what a SNARK
    /// parameter setup does) must never need them
    pub witness: bool,
    pub inputs: Vec<F>,
    pub aux: Vec<F>,
    pub cons: Vec<Con<F>>,
    pub record: bool,
    pub names: Option<HashSet<String>>,
    pub dup: Option<String>,
    ns: Vec<String>,
}

impl<F: PrimeField> MonCS<F> {
    pub fn wit() -> Self {
        MonCS {
            witness: true,
            inputs: vec![F::ONE],
            aux: vec![],
            cons: vec![],
            record: true,
            names: None,
            dup: None,
            ns: vec![],
        }
    }
    pub fn shape() -> Self {
        let mut s = Self::wit();
        s.witness = false;
        s
    }
    pub fn named(mut self) -> Self {
        self.names = Some(HashSet::new());
        self
    }
    pub fn n_vars(&self) -> usize {
        self.inputs.len() + self.aux.len()
    }
    pub fn val(&self, v: Vid) -> F {
        if v & AUX != 0 {
            self.aux[(v & !AUX) as usize]
        } else {
            self.inputs[v as usize]
        }
    }
    pub fn eval(&self, l: &Lc<F>) -> F {
        let mut s = F::ZERO;
        for (v, c) in l {
            s += self.val(*v) * c;
        }
        s
    }
    pub fn eval_lc(&self, l: &LinearCombination<F>) -> F {
        self.eval(&lc_of(l))
    }
    pub fn violated(&self) -> Vec<usize> {
        self.cons
            .iter()
            .enumerate()
            .filter(|(_, k)| self.eval(&k.a) * self.eval(&k.b) != self.eval(&k.c))
            .map(|(i, _)| i)
            .collect()
    }
    pub fn sat(&self) -> bool {
        self.cons
            .iter()
            .all(|k| self.eval(&k.a) * self.eval(&k.b) == self.eval(&k.c))
    }
    /// Order-sensitive digest of the emitted circuit (what a SNARK key is bound to).
    pub fn shape_digest(&self) -> (usize, usize, usize, u64) {
        let mut h: u64 = 0xcbf29ce484222325;
        let mut eat = |b: &[u8]| {
            for x in b {
                h ^= *x as u64;
                h = h.wrapping_mul(0x100000001b3);
            }
        };
        for k in &self.cons {
            for (t, l) in [(1u8, &k.a), (2, &k.b), (3, &k.c)] {
                eat(&[t]);
                let mut l: Vec<_> = l.clone();
                l.sort_by_key(|x| x.0);
                for (v, c) in &l {
                    eat(&v.to_le_bytes());
                    eat(c.to_repr().as_ref());
                }
            }
        }
        (self.inputs.len(), self.aux.len(), self.cons.len(), h)
    }
    fn note(&mut self, name: String) {
        if self.names.is_some() {
            let p = format!("{}/{}", self.ns.join("/"), name);
            if !self.names.as_mut().unwrap().insert(p.clone()) && self.dup.is_none() {
                self.dup = Some(p);
            }
        }
    }
}

impl<F: PrimeField> ConstraintSystem<F> for MonCS<F> {
    type Root = Self;
    fn alloc<Fn, A, AR>(&mut self, an: A, f: Fn) -> Result<Variable, SynthesisError>
    where
        Fn: FnOnce() -> Result<F, SynthesisError>,
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        let v = if self.witness { f()? } else { F::ZERO };
        if self.names.is_some() {
            let n = an().into();
            self.note(n);
        }
        self.aux.push(v);
        Ok(Variable::new_unchecked(Index::Aux(self.aux.len() - 1)))
    }
    fn alloc_input<Fn, A, AR>(&mut self, an: A, f: Fn) -> Result<Variable, SynthesisError>
    where
        Fn: FnOnce() -> Result<F, SynthesisError>,
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        let v = if self.witness { f()? } else { F::ZERO };
        if self.names.is_some() {
            let n = an().into();
            self.note(n);
        }
        self.inputs.push(v);
        Ok(Variable::new_unchecked(Index::Input(self.inputs.len() - 1)))
    }
    fn enforce<A, AR, LA, LB, LC>(&mut self, an: A, a: LA, b: LB, c: LC)
    where
        A: FnOnce() -> AR,
        AR: Into<String>,
        LA: FnOnce(LinearCombination<F>) -> LinearCombination<F>,
        LB: FnOnce(LinearCombination<F>) -> LinearCombination<F>,
        LC: FnOnce(LinearCombination<F>) -> LinearCombination<F>,
    {
        if self.names.is_some() {
            let n = an().into();
            self.note(n);
        }
        let a = a(LinearCombination::zero());
        let b = b(LinearCombination::zero());
        let c = c(LinearCombination::zero());
        if self.record {
            self.cons.push(Con {
                a: lc_of(&a),
                b: lc_of(&b),
                c: lc_of(&c),
            });
        }
    }
    fn push_namespace<NR, N>(&mut self, n: N)
    where
        NR: Into<String>,
        N: FnOnce() -> NR,
    {
        if self.names.is_some() {
            let n = n().into();
            self.note(n.clone());
            self.ns.push(n);
        }
    }
    fn pop_namespace(&mut self) {
        if self.names.is_some() {
            self.ns.pop();
        }
    }
    fn get_root(&mut self) -> &mut Self {
        self
    }
}
