//! Random circuits as data, built over any constraint system, and proofs of them.
use crate::refv::*;
use crate::util::*;
use amcl_wrapper::field_elem::FieldElement;
use amcl_wrapper::group_elem::GroupElement;
use amcl_wrapper::group_elem_g1::{G1Vector, G1};
use bulletproofs_amcl::errors::R1CSError;
use bulletproofs_amcl::r1cs::*;
use bulletproofs_amcl::utils::get_generators;
use merlin::Transcript;

#[derive(Clone, Debug)]
pub enum Op {
    Alloc(F),
    Single(F),
    AllocMul(F, F),
    Mul(Vec<(usize, F)>, Vec<(usize, F)>),
    /// terms, whether the constant making it hold is added, an error added on top
    Constrain(Vec<(usize, F)>, F),
    Nested(Vec<Op>),
}

#[derive(Clone, Debug)]
pub struct Circuit {
    pub v: Vec<F>,
    pub ops: Vec<Op>,
    pub deferred: Vec<Vec<Op>>,
}

/// handles: variable and value
pub type Env = Vec<(Variable, F)>;

fn lc(terms: &[(usize, F)], env: &Env, c: &Option<F>) -> (LinearCombination, F) {
    let mut t = vec![];
    let mut val = F::zero();
    for (i, k) in terms {
        let (v, x) = &env[*i % env.len()];
        let k = match c {
            Some(c) => k * c,
            None => k.clone(),
        };
        val = &val + &(&k * x);
        t.push((*v, k));
    }
    (LinearCombination { terms: t }, val)
}

fn opt(p: bool, x: &F) -> Option<F> {
    if p {
        Some(x.clone())
    } else {
        None
    }
}

/// pending: index in env of the half-filled multiplier's left, with its value
pub fn build<CS: ConstraintSystem>(cs: &mut CS, ops: &[Op], env: &mut Env, prover: bool, c: Option<F>) -> Result<(), R1CSError>
where
    CS::RandomizedCS: ConstraintSystem,
{
    let mut pend: Option<F> = None;
    build_(cs, ops, env, prover, &c, &mut pend)
}

fn single(v: Variable, x: &F, pend: &mut Option<F>, env: &mut Env) {
    match v {
        Variable::MultiplierRight(i) => {
            let l = pend.take().unwrap_or_else(F::zero);
            env.push((v, x.clone()));
            env.push((Variable::MultiplierOutput(i), &l * x));
        }
        _ => {
            *pend = Some(x.clone());
            env.push((v, x.clone()));
        }
    }
}

fn build_<CS: ConstraintSystem>(
    cs: &mut CS,
    ops: &[Op],
    env: &mut Env,
    prover: bool,
    c: &Option<F>,
    pend: &mut Option<F>,
) -> Result<(), R1CSError> {
    for op in ops {
        match op {
            Op::Alloc(x) => {
                let v = cs.allocate(opt(prover, x))?;
                single(v, x, pend, env);
            }
            Op::Single(x) => {
                let (v, _) = cs.allocate_single(opt(prover, x))?;
                single(v, x, pend, env);
            }
            Op::AllocMul(l, r) => {
                let a = if prover { Some((l.clone(), r.clone())) } else { None };
                let (a, b, o) = cs.allocate_multiplier(a)?;
                env.push((a, l.clone()));
                env.push((b, r.clone()));
                env.push((o, l * r));
            }
            Op::Mul(l, r) => {
                let (l, lv) = lc(l, env, c);
                let (r, rv) = lc(r, env, c);
                let (a, b, o) = cs.multiply(l, r);
                let ov = &lv * &rv;
                env.push((a, lv));
                env.push((b, rv));
                env.push((o, ov));
            }
            Op::Constrain(t, err) => {
                let (mut l, v) = lc(t, env, c);
                let k = &(-&v) + err;
                if !k.is_zero() {
                    l.terms.push((Variable::One(), k));
                }
                cs.constrain(l);
            }
            Op::Nested(o) => {
                let (o, mut e, p, c) = (o.clone(), env.clone(), prover, c.clone());
                let _ = &mut e;
                cs.specify_randomized_constraints(move |cs2| {
                    let mut e = e.clone();
                    let c2 = cs2.challenge_scalar(b"nested");
                    let c3 = c.clone().map(|c| &c * &c2);
                    flat(cs2, &o, &mut e, p, &c3)
                })?;
            }
        }
    }
    Ok(())
}

/// as build_, without nesting (keeps the instantiation finite)
fn flat<CS: ConstraintSystem>(cs: &mut CS, ops: &[Op], env: &mut Env, prover: bool, c: &Option<F>) -> Result<(), R1CSError> {
    for op in ops {
        match op {
            Op::AllocMul(l, r) => {
                let a = if prover { Some((l.clone(), r.clone())) } else { None };
                let (a, b, o) = cs.allocate_multiplier(a)?;
                env.push((a, l.clone()));
                env.push((b, r.clone()));
                env.push((o, l * r));
            }
            Op::Constrain(t, err) => {
                let (mut l, v) = lc(t, env, c);
                l.terms.push((Variable::One(), &(-&v) + err));
                cs.constrain(l);
            }
            _ => {}
        }
    }
    Ok(())
}

pub fn top<CS: ConstraintSystem>(cs: &mut CS, c: &Circuit, vars: Vec<Variable>, prover: bool) -> Result<(), R1CSError> {
    let mut env: Env = vec![(Variable::One(), F::one())];
    for (i, v) in vars.iter().enumerate() {
        env.push((*v, c.v[i].clone()));
    }
    build_(cs, &c.ops, &mut env, prover, &None, &mut None)?;
    for d in &c.deferred {
        let (d, e) = (d.clone(), env.clone());
        cs.specify_randomized_constraints(move |cs2| {
            let ch = cs2.challenge_scalar(b"ch");
            build_(cs2, &d, &mut e.clone(), prover, &Some(ch), &mut None)
        })?;
    }
    Ok(())
}

pub struct Gens {
    pub g: G1,
    pub h: G1,
    pub G: Vec<G1>,
    pub H: Vec<G1>,
}
pub fn gens(n: usize) -> Gens {
    Gens { g: pt("g"), h: pt("h"), G: (0..n).map(|i| pt(&format!("G{}", i))).collect(), H: (0..n).map(|i| pt(&format!("H{}", i))).collect() }
}
pub fn gv(v: &[G1]) -> G1Vector {
    v.to_vec().into()
}

pub fn prove(c: &Circuit, gs: &Gens, bl: &[F]) -> Result<(R1CSProof, Vec<G1>, Vec<u8>), R1CSError> {
    let mut t = Transcript::new(b"t");
    let r = {
        let mut p = Prover::new(&gs.g, &gs.h, &mut t);
        let mut coms = vec![];
        let mut vars = vec![];
        for (x, b) in c.v.iter().zip(bl) {
            let (com, var) = p.commit(x.clone(), b.clone());
            coms.push(com);
            vars.push(var);
        }
        top(&mut p, c, vars, true)?;
        (p.prove(&gv(&gs.G), &gv(&gs.H))?, coms)
    };
    Ok((r.0, r.1, probe(&mut t)))
}

pub fn verify(c: &Circuit, gs: &Gens, coms: &[G1], proof: &R1CSProof) -> (Result<(), R1CSError>, Vec<u8>) {
    let mut t = Transcript::new(b"t");
    let r = {
        let mut v = Verifier::new(&mut t);
        let vars: Vec<Variable> = coms.iter().map(|c| v.commit(c.clone())).collect();
        match top(&mut v, c, vars, false) {
            Ok(()) => v.verify(proof, &gs.g, &gs.h, &gv(&gs.G), &gv(&gs.H)),
            Err(e) => Err(e),
        }
    };
    (r, probe(&mut t))
}

pub fn reference(c: &Circuit, gs: &Gens, coms: &[G1], proof: &Parts) -> (Result<(bool, bool), R1CSError>, Vec<u8>) {
    let mut v = Ref::new(b"t");
    let vars: Vec<Variable> = coms.iter().map(|c| v.commit(c.clone())).collect();
    let r = match top(&mut v, c, vars, false) {
        Ok(()) => v.verify(proof, &gs.g, &gs.h, &gs.G, &gs.H),
        Err(e) => Err(e),
    };
    (r, probe(&mut v.t))
}

impl Ctx {
    pub fn terms(&mut self, k: usize) -> Vec<(usize, F)> {
        let mut t: Vec<(usize, F)> = (0..k).map(|_| (self.below(1 << 20), self.f())).collect();
        if k > 1 && self.below(4) == 0 {
            t[1].0 = t[0].0;
        }
        t
    }
    pub fn ops(&mut self, k: usize, second: bool) -> Vec<Op> {
        let mut o = vec![];
        for _ in 0..k {
            let (a, b) = (self.f(), self.f());
            let (n1, n2) = (self.below(4), self.below(4));
            o.push(match self.below(if second { 12 } else { 11 }) {
                0 | 1 => Op::Alloc(a),
                2 => Op::Single(a),
                3 | 4 => Op::AllocMul(a, b),
                5 | 6 | 7 => Op::Mul(self.terms(n1), self.terms(n2)),
                11 => {
                    let t = self.terms(n1);
                    Op::Nested(vec![Op::AllocMul(a, b), Op::Constrain(t, F::zero())])
                }
                _ => Op::Constrain(self.terms(n1), F::zero()),
            });
        }
        o
    }
    pub fn circuit(&mut self, m: usize, k: usize, second: &[usize]) -> Circuit {
        Circuit {
            v: (0..m).map(|_| self.f()).collect(),
            ops: self.ops(k, false),
            deferred: second.iter().map(|k| self.ops(*k, true)).collect(),
        }
    }
    /// circuits of exactly n multipliers and q constraints over m committed values
    pub fn sized(&mut self, m: usize, n: usize, q: usize, n2: usize, q2: usize) -> Circuit {
        let mut mk = |c: &mut Ctx, n: usize, q: usize| {
            let mut ops = vec![];
            for _ in 0..n {
                ops.push(Op::AllocMul(c.f(), c.f()));
            }
            for i in 0..q {
                ops.push(Op::Constrain(c.terms(1 + i % 3), F::zero()));
            }
            ops
        };
        Circuit {
            v: (0..m).map(|_| self.f()).collect(),
            ops: mk(self, n, q),
            deferred: if n2 + q2 > 0 { vec![mk(self, n2, q2)] } else { vec![] },
        }
    }
    pub fn blinds(&mut self, m: usize) -> Vec<F> {
        (0..m).map(|_| self.nz()).collect()
    }
    /// the circuits every run looks at
    pub fn catalogue(&mut self) -> Vec<(String, Circuit)> {
        let mut out: Vec<(String, Circuit)> = vec![];
        for (m, n, q, n2, q2) in &[
            (0, 0, 0, 0, 0), (1, 0, 0, 0, 0), (1, 0, 1, 0, 0), (2, 0, 3, 0, 0), (0, 1, 0, 0, 0), (1, 1, 1, 0, 0), (1, 2, 2, 0, 0),
            (2, 3, 4, 0, 0), (3, 4, 3, 0, 0), (0, 5, 6, 0, 0), (2, 8, 9, 0, 0), (1, 9, 2, 0, 0), (1, 2, 70, 0, 0), (40, 2, 40, 0, 0), (2, 33, 5, 0, 0),
            (1, 0, 0, 1, 1), (1, 1, 1, 1, 1), (2, 2, 2, 1, 3), (0, 0, 0, 0, 1), (1, 3, 2, 2, 2), (1, 1, 0, 3, 1), (2, 4, 1, 4, 2), (0, 5, 1, 11, 3), (1, 2, 1, 1, 70),
        ] {
            out.push((format!("sized m={} n={} q={} n2={} q2={}", m, n, q, n2, q2), self.sized(*m, *n, *q, *n2, *q2)));
        }
        let k = if self.thorough { 120 } else { 24 };
        for i in 0..k {
            let (m, a) = (self.below(4), self.below(14));
            let s = match i % 3 {
                0 => vec![],
                1 => vec![self.below(6)],
                _ => vec![self.below(5), 0, self.below(5)],
            };
            out.push((format!("random #{} m={} ops={} second={:?}", i, m, a, s), self.circuit(m, a, &s)));
        }
        out
    }
}
pub fn mults(c: &Circuit) -> usize {
    let mut v = Ref::new(b"t");
    let vars: Vec<Variable> = c.v.iter().map(|_| v.commit(G1::identity())).collect();
    top(&mut v, c, vars, false).unwrap();
    v.n + 32
}
