//! Constraint systems of our own, implementing the crate's public trait, so that the crate's gadget functions run unchanged on
//! them: `Rec` records the constraints (with or without values), `Evil` drives the crate's real `Prover` with a chosen witness.
use amcl_wrapper::field_elem::FieldElement;
use bulletproofs_amcl::errors::R1CSError;
use bulletproofs_amcl::r1cs::{
    ConstraintSystem, LinearCombination, Prover, RandomizedConstraintSystem, Variable,
};
use std::collections::HashMap;

pub struct Never {}
impl ConstraintSystem for Never {
    type RandomizedCS = Never;
    fn multiply(&mut self, _l: LinearCombination, _r: LinearCombination) -> (Variable, Variable, Variable) {
        unreachable!()
    }
    fn allocate(&mut self, _a: Option<FieldElement>) -> Result<Variable, R1CSError> {
        unreachable!()
    }
    fn allocate_multiplier(
        &mut self,
        _a: Option<(FieldElement, FieldElement)>,
    ) -> Result<(Variable, Variable, Variable), R1CSError> {
        unreachable!()
    }
    fn constrain(&mut self, _lc: LinearCombination) {
        unreachable!()
    }
    fn specify_randomized_constraints<F>(&mut self, _callback: F) -> Result<(), R1CSError>
    where
        F: 'static + Fn(&mut Self::RandomizedCS) -> Result<(), R1CSError>,
    {
        unreachable!()
    }
    fn evaluate_lc(&self, _lc: &LinearCombination) -> Option<FieldElement> {
        unreachable!()
    }
    fn allocate_single(&mut self, _a: Option<FieldElement>) -> Result<(Variable, Option<Variable>), R1CSError> {
        unreachable!()
    }
}
impl RandomizedConstraintSystem for Never {
    fn challenge_scalar(&mut self, _label: &'static [u8]) -> FieldElement {
        unreachable!()
    }
}

/// Records what a gadget does. `vals` is Some on the proving side.
pub struct Rec {
    pub prover: bool,
    pub v: Vec<FieldElement>,
    pub al: Vec<FieldElement>,
    pub ar: Vec<FieldElement>,
    pub n: usize,
    pub constraints: Vec<LinearCombination>,
    pub pending: Option<usize>,
    /// adversarial values for the multipliers: replaces what the gadget asks to allocate
    pub evil: HashMap<usize, (FieldElement, FieldElement)>,
}

impl Rec {
    pub fn new(prover: bool) -> Rec {
        Rec {
            prover,
            v: vec![],
            al: vec![],
            ar: vec![],
            n: 0,
            constraints: vec![],
            pending: None,
            evil: HashMap::new(),
        }
    }
    pub fn commit(&mut self, x: Option<&FieldElement>) -> Variable {
        let i = self.v.len();
        self.v.push(x.cloned().unwrap_or_else(FieldElement::zero));
        Variable::Committed(i)
    }
    pub fn value(&self, v: &Variable) -> FieldElement {
        match v {
            Variable::Committed(i) => self.v[*i].clone(),
            Variable::MultiplierLeft(i) => self.al[*i].clone(),
            Variable::MultiplierRight(i) => self.ar[*i].clone(),
            Variable::MultiplierOutput(i) => &self.al[*i] * &self.ar[*i],
            Variable::One() => FieldElement::one(),
        }
    }
    pub fn eval(&self, lc: &LinearCombination) -> FieldElement {
        let mut r = FieldElement::zero();
        for (v, c) in lc.clone().get_terms() {
            r = &r + &(&self.value(&v) * &c);
        }
        r
    }
    /// index of a violated constraint
    pub fn unsatisfied(&self) -> Option<usize> {
        (0..self.constraints.len()).find(|i| !self.eval(&self.constraints[*i]).is_zero())
    }
    fn push(&mut self, l: FieldElement, r: FieldElement) -> usize {
        let i = self.n;
        self.n += 1;
        self.al.push(l);
        self.ar.push(r);
        i
    }
    fn pick(&self, i: usize, l: Option<FieldElement>, r: Option<FieldElement>) -> (FieldElement, FieldElement) {
        if let Some((a, b)) = self.evil.get(&i) {
            return (a.clone(), b.clone());
        }
        (
            l.unwrap_or_else(FieldElement::zero),
            r.unwrap_or_else(FieldElement::zero),
        )
    }
    /// canonical text of the constraints (terms merged per variable), for comparison
    pub fn canon(&self) -> Vec<String> {
        self.constraints.iter().map(canon_lc).collect()
    }
}

pub fn canon_lc(lc: &LinearCombination) -> String {
    let mut m: HashMap<Variable, FieldElement> = HashMap::new();
    for (v, c) in lc.clone().get_terms() {
        let e = m.entry(v).or_insert_with(FieldElement::zero);
        *e = &*e + &c;
    }
    let mut t: Vec<String> = m
        .iter()
        .filter(|(_, c)| !c.is_zero())
        .map(|(v, c)| format!("{:?}*{}", v, c.to_hex()))
        .collect();
    t.sort();
    t.join(" + ")
}

fn tri(i: usize) -> (Variable, Variable, Variable) {
    (
        Variable::MultiplierLeft(i),
        Variable::MultiplierRight(i),
        Variable::MultiplierOutput(i),
    )
}

impl ConstraintSystem for Rec {
    type RandomizedCS = Never;
    fn multiply(&mut self, left: LinearCombination, right: LinearCombination) -> (Variable, Variable, Variable) {
        let (l, r) = (self.eval(&left), self.eval(&right));
        let i = self.push(l, r);
        let t = tri(i);
        self.constraints.push(left - t.0);
        self.constraints.push(right - t.1);
        t
    }
    fn allocate(&mut self, a: Option<FieldElement>) -> Result<Variable, R1CSError> {
        if self.prover && a.is_none() {
            return Err(R1CSError::MissingAssignment);
        }
        match self.pending.take() {
            None => {
                let i = self.n;
                let (l, _) = self.pick(i, a, None);
                let i = self.push(l, FieldElement::zero());
                self.pending = Some(i);
                Ok(Variable::MultiplierLeft(i))
            }
            Some(i) => {
                let (_, r) = self.pick(i, None, a);
                self.ar[i] = r;
                Ok(Variable::MultiplierRight(i))
            }
        }
    }
    fn allocate_multiplier(
        &mut self,
        a: Option<(FieldElement, FieldElement)>,
    ) -> Result<(Variable, Variable, Variable), R1CSError> {
        if self.prover && a.is_none() {
            return Err(R1CSError::MissingAssignment);
        }
        let (l, r) = match a {
            Some((l, r)) => (Some(l), Some(r)),
            None => (None, None),
        };
        let (l, r) = self.pick(self.n, l, r);
        let i = self.push(l, r);
        Ok(tri(i))
    }
    fn constrain(&mut self, lc: LinearCombination) {
        self.constraints.push(lc)
    }
    fn specify_randomized_constraints<F>(&mut self, _callback: F) -> Result<(), R1CSError>
    where
        F: 'static + Fn(&mut Self::RandomizedCS) -> Result<(), R1CSError>,
    {
        Err(R1CSError::FormatError)
    }
    fn evaluate_lc(&self, lc: &LinearCombination) -> Option<FieldElement> {
        if self.prover {
            Some(self.eval(lc))
        } else {
            None
        }
    }
    fn allocate_single(&mut self, a: Option<FieldElement>) -> Result<(Variable, Option<Variable>), R1CSError> {
        let v = self.allocate(a)?;
        match v {
            Variable::MultiplierRight(i) => Ok((v, Some(Variable::MultiplierOutput(i)))),
            _ => Ok((v, None)),
        }
    }
}

/// A cheating prover: the crate's own prover with the multiplier values replaced.
pub struct Evil<'c, 'a, 'b> {
    pub p: &'c mut Prover<'a, 'b>,
    pub wit: HashMap<usize, (FieldElement, FieldElement)>,
    pub half: Option<usize>,
    pub lcs: Vec<LinearCombination>,
}

impl<'c, 'a, 'b> Evil<'c, 'a, 'b> {
    /// the assignment satisfies every constraint
    pub fn satisfied(&self) -> bool {
        self.lcs.iter().all(|l| self.p.evaluate_lc(l).map_or(true, |x| x.is_zero()))
    }
}

impl<'c, 'a, 'b> ConstraintSystem for Evil<'c, 'a, 'b> {
    type RandomizedCS = Never;
    fn multiply(&mut self, l: LinearCombination, r: LinearCombination) -> (Variable, Variable, Variable) {
        self.p.multiply(l, r)
    }
    fn allocate(&mut self, a: Option<FieldElement>) -> Result<Variable, R1CSError> {
        Ok(self.allocate_single(a)?.0)
    }
    fn allocate_multiplier(
        &mut self,
        a: Option<(FieldElement, FieldElement)>,
    ) -> Result<(Variable, Variable, Variable), R1CSError> {
        let i = self.p.num_multipliers();
        let a = match self.wit.get(&i) {
            Some((l, r)) => Some((l.clone(), r.clone())),
            None => a,
        };
        self.p.allocate_multiplier(a)
    }
    fn constrain(&mut self, lc: LinearCombination) {
        self.lcs.push(lc.clone());
        self.p.constrain(lc)
    }
    fn specify_randomized_constraints<F>(&mut self, _callback: F) -> Result<(), R1CSError>
    where
        F: 'static + Fn(&mut Self::RandomizedCS) -> Result<(), R1CSError>,
    {
        Err(R1CSError::FormatError)
    }
    fn evaluate_lc(&self, lc: &LinearCombination) -> Option<FieldElement> {
        self.p.evaluate_lc(lc)
    }
    fn allocate_single(&mut self, a: Option<FieldElement>) -> Result<(Variable, Option<Variable>), R1CSError> {
        match self.half.take() {
            None => {
                let i = self.p.num_multipliers();
                let a = self.wit.get(&i).map(|x| x.0.clone()).or(a);
                self.half = Some(i);
                self.p.allocate_single(a)
            }
            Some(i) => {
                let a = self.wit.get(&i).map(|x| x.1.clone()).or(a);
                self.p.allocate_single(a)
            }
        }
    }
}
