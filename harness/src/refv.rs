//! An independent, direct transcription of the Bulletproofs R1CS verifier (two separate group equations, own transcript
//! handling, own weight flattening), used as the oracle the crate's verifier and prover are compared with.
use amcl_wrapper::field_elem::FieldElement;
use amcl_wrapper::group_elem::{GroupElement, GroupElementVector};
use amcl_wrapper::group_elem_g1::{G1Vector, G1};
use bulletproofs_amcl::errors::R1CSError;
use bulletproofs_amcl::r1cs::{ConstraintSystem, LinearCombination, R1CSProof, RandomizedConstraintSystem, Variable};
use merlin::Transcript;
use serde_json::Value;

pub type F = FieldElement;

pub fn msm(t: &[(F, G1)]) -> G1 {
    let mut r = G1::identity();
    for (s, p) in t {
        r = r + p * s;
    }
    r
}

/// the elements of a proof, read from its serialized form
#[derive(Clone)]
pub struct Parts {
    pub j: Value,
}
pub const POINTS: [&str; 11] = ["A_I1", "A_O1", "S1", "A_I2", "A_O2", "S2", "T_1", "T_3", "T_4", "T_5", "T_6"];
pub const SCALARS: [&str; 3] = ["t_x", "t_x_blinding", "e_blinding"];
impl Parts {
    pub fn of(p: &R1CSProof) -> Parts {
        Parts { j: serde_json::to_value(p).unwrap() }
    }
    pub fn proof(&self) -> R1CSProof {
        serde_json::from_value(self.j.clone()).unwrap()
    }
    pub fn pt(&self, k: &str) -> G1 {
        serde_json::from_value(self.j[k].clone()).unwrap()
    }
    pub fn sc(&self, k: &str) -> F {
        serde_json::from_value(self.j[k].clone()).unwrap()
    }
    pub fn ab(&self, k: &str) -> F {
        serde_json::from_value(self.j["ipp_proof"][k].clone()).unwrap()
    }
    pub fn list(&self, k: &str) -> Vec<G1> {
        let v: G1Vector = serde_json::from_value(self.j["ipp_proof"][k].clone()).unwrap();
        v.as_slice().to_vec()
    }
    pub fn set_pt(&mut self, k: &str, p: &G1) {
        self.j[k] = serde_json::to_value(p).unwrap();
    }
    pub fn set_sc(&mut self, k: &str, p: &F) {
        self.j[k] = serde_json::to_value(p).unwrap();
    }
    pub fn set_ab(&mut self, k: &str, p: &F) {
        self.j["ipp_proof"][k] = serde_json::to_value(p).unwrap();
    }
    pub fn set_list(&mut self, k: &str, p: Vec<G1>) {
        self.j["ipp_proof"][k] = serde_json::to_value(&G1Vector::from(p)).unwrap();
    }
}

pub fn t_pt(t: &mut Transcript, l: &'static [u8], p: &G1) {
    t.append_message(l, &p.to_bytes());
}
pub fn t_sc(t: &mut Transcript, l: &'static [u8], p: &F) {
    t.append_message(l, &p.to_bytes());
}
pub fn t_ch(t: &mut Transcript, l: &'static [u8]) -> F {
    let mut buf = [0u8; 48];
    t.challenge_bytes(l, &mut buf);
    F::from(&buf)
}
/// a value that depends on everything the transcript has absorbed
pub fn probe(t: &mut Transcript) -> Vec<u8> {
    let mut buf = vec![0u8; 32];
    t.challenge_bytes(b"probe", &mut buf);
    buf
}

pub struct Ref {
    pub t: Transcript,
    pub V: Vec<G1>,
    pub n: usize,
    pub constraints: Vec<Vec<(Variable, F)>>,
    pub pending: Option<usize>,
    deferred: Vec<Box<dyn Fn(&mut Ref) -> Result<(), R1CSError>>>,
    second: bool,
}

fn tri(i: usize) -> (Variable, Variable, Variable) {
    (Variable::MultiplierLeft(i), Variable::MultiplierRight(i), Variable::MultiplierOutput(i))
}

impl Ref {
    pub fn new(label: &'static [u8]) -> Ref {
        let mut t = Transcript::new(label);
        t.append_message(b"dom-sep", b"r1cs v1");
        Ref { t, V: vec![], n: 0, constraints: vec![], pending: None, deferred: vec![], second: false }
    }
    pub fn commit(&mut self, c: G1) -> Variable {
        t_pt(&mut self.t, b"V", &c);
        self.V.push(c);
        Variable::Committed(self.V.len() - 1)
    }
    /// Ok((t_ok, p_ok)); Err for malformed sizes
    pub fn verify(&mut self, p: &Parts, g: &G1, h: &G1, G: &[G1], H: &[G1]) -> Result<(bool, bool), R1CSError> {
        let m = self.V.len() as u64;
        self.t.append_u64(b"m", m);
        for k in &["A_I1", "A_O1", "S1"] {
            t_pt(&mut self.t, k.as_bytes(), &p.pt(k));
        }
        let n1 = self.n;
        self.pending = None;
        if self.deferred.is_empty() {
            self.t.append_message(b"dom-sep", b"r1cs-1phase");
        } else {
            self.t.append_message(b"dom-sep", b"r1cs-2phase");
            self.second = true;
            let d = std::mem::replace(&mut self.deferred, vec![]);
            for c in d {
                c(self)?;
            }
        }
        let n = self.n;
        let mut N = 1;
        while N < n {
            N *= 2;
        }
        if G.len() < N || H.len() < N {
            return Err(R1CSError::InvalidGeneratorsLength);
        }
        for k in &["A_I2", "A_O2", "S2"] {
            t_pt(&mut self.t, k.as_bytes(), &p.pt(k));
        }
        let y = t_ch(&mut self.t, b"y");
        let z = t_ch(&mut self.t, b"z");
        for k in &["T_1", "T_3", "T_4", "T_5", "T_6"] {
            t_pt(&mut self.t, k.as_bytes(), &p.pt(k));
        }
        let u = t_ch(&mut self.t, b"u");
        let x = t_ch(&mut self.t, b"x");
        for k in &SCALARS {
            t_sc(&mut self.t, k.as_bytes(), &p.sc(k));
        }
        let w = t_ch(&mut self.t, b"w");
        let (L, R) = (p.list("L"), p.list("R"));
        if L.len() >= 32 || R.len() != L.len() || (1usize << L.len()) != N {
            return Err(R1CSError::VerificationError);
        }
        self.t.append_message(b"dom-sep", b"ipp v1");
        self.t.append_message(b"n", &(N as u64).to_le_bytes());
        let mut us = vec![];
        for i in 0..L.len() {
            t_pt(&mut self.t, b"L", &L[i]);
            t_pt(&mut self.t, b"R", &R[i]);
            us.push(t_ch(&mut self.t, b"u"));
        }
        // weights
        let zero = F::zero();
        let (mut wL, mut wR, mut wO) = (vec![zero.clone(); N], vec![zero.clone(); N], vec![zero.clone(); N]);
        let mut wV = vec![zero.clone(); self.V.len()];
        let mut wc = zero.clone();
        let mut zq = F::one();
        for c in &self.constraints {
            zq = &zq * &z;
            for (v, k) in c {
                let a = &zq * k;
                match v {
                    Variable::MultiplierLeft(i) => wL[*i] = &wL[*i] + &a,
                    Variable::MultiplierRight(i) => wR[*i] = &wR[*i] + &a,
                    Variable::MultiplierOutput(i) => wO[*i] = &wO[*i] + &a,
                    Variable::Committed(i) => wV[*i] = &wV[*i] - &a,
                    Variable::One() => wc = &wc - &a,
                }
            }
        }
        let yi = y.inverse();
        let mut yp = vec![F::one()];
        for i in 1..N {
            let q = &yp[i - 1] * &yi;
            yp.push(q);
        }
        let mut delta = F::zero();
        for i in 0..n {
            delta = &delta + &(&(&yp[i] * &wR[i]) * &wL[i]);
        }
        let x2 = &x * &x;
        let x3 = &x2 * &x;
        let x4 = &x3 * &x;
        let x5 = &x4 * &x;
        let x6 = &x5 * &x;
        // t(x)
        let lhs = g * &p.sc("t_x") + h * &p.sc("t_x_blinding");
        let mut ts = vec![(&x2 * &(&wc + &delta), g.clone())];
        for i in 0..self.V.len() {
            ts.push((&x2 * &wV[i], self.V[i].clone()));
        }
        for (k, e) in &[("T_1", &x), ("T_3", &x3), ("T_4", &x4), ("T_5", &x5), ("T_6", &x6)] {
            ts.push(((*e).clone(), p.pt(k)));
        }
        let t_ok = lhs == msm(&ts);
        // inner product
        let (a, b) = (p.ab("a"), p.ab("b"));
        let mut P = vec![
            (x.clone(), p.pt("A_I1")),
            (x2.clone(), p.pt("A_O1")),
            (x3.clone(), p.pt("S1")),
            (&u * &x, p.pt("A_I2")),
            (&u * &x2, p.pt("A_O2")),
            (&u * &x3, p.pt("S2")),
            (-p.sc("e_blinding"), h.clone()),
            (&w * &p.sc("t_x"), g.clone()),
        ];
        let mut want = vec![(&w * &(&a * &b), g.clone())];
        let k = us.len();
        for i in 0..N {
            let uu = if i < n1 { F::one() } else { u.clone() };
            P.push((&uu * &(&x * &(&yp[i] * &wR[i])), G[i].clone()));
            P.push((&uu * &(&(&yp[i] * &(&(&x * &wL[i]) + &wO[i])) - &F::one()), H[i].clone()));
            let mut s = F::one();
            for j in 0..k {
                // round j decides bit k-1-j of the index
                s = if (i >> (k - 1 - j)) & 1 == 1 { &s * &us[j] } else { &s * &us[j].inverse() };
            }
            want.push((&(&uu * &a) * &s, G[i].clone()));
            want.push((&(&(&uu * &b) * &s.inverse()) * &yp[i], H[i].clone()));
        }
        for j in 0..k {
            let q = &us[j] * &us[j];
            want.push((-q.inverse(), R[j].clone()));
            want.push((-q, L[j].clone()));
        }
        let p_ok = msm(&P) == msm(&want);
        Ok((t_ok, p_ok))
    }
    fn mulvar(&mut self) -> usize {
        self.n += 1;
        self.n - 1
    }
}

impl ConstraintSystem for Ref {
    type RandomizedCS = Ref;
    fn multiply(&mut self, left: LinearCombination, right: LinearCombination) -> (Variable, Variable, Variable) {
        let t = tri(self.mulvar());
        let mut l = left.terms;
        l.push((t.0, -F::one()));
        let mut r = right.terms;
        r.push((t.1, -F::one()));
        self.constraints.push(l);
        self.constraints.push(r);
        t
    }
    fn allocate(&mut self, _a: Option<F>) -> Result<Variable, R1CSError> {
        match self.pending.take() {
            Some(i) => Ok(Variable::MultiplierRight(i)),
            None => {
                let i = self.mulvar();
                self.pending = Some(i);
                Ok(Variable::MultiplierLeft(i))
            }
        }
    }
    fn allocate_multiplier(&mut self, _a: Option<(F, F)>) -> Result<(Variable, Variable, Variable), R1CSError> {
        Ok(tri(self.mulvar()))
    }
    fn constrain(&mut self, lc: LinearCombination) {
        self.constraints.push(lc.terms)
    }
    fn specify_randomized_constraints<C>(&mut self, callback: C) -> Result<(), R1CSError>
    where
        C: 'static + Fn(&mut Ref) -> Result<(), R1CSError>,
    {
        if self.second {
            return callback(self);
        }
        self.deferred.push(Box::new(callback));
        Ok(())
    }
    fn evaluate_lc(&self, _lc: &LinearCombination) -> Option<F> {
        None
    }
    fn allocate_single(&mut self, a: Option<F>) -> Result<(Variable, Option<Variable>), R1CSError> {
        let v = self.allocate(a)?;
        match v {
            Variable::MultiplierRight(i) => Ok((v, Some(Variable::MultiplierOutput(i)))),
            _ => Ok((v, None)),
        }
    }
}
impl RandomizedConstraintSystem for Ref {
    fn challenge_scalar(&mut self, label: &'static [u8]) -> F {
        t_ch(&mut self.t, label)
    }
}
