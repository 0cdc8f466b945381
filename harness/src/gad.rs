//! The crate's gadgets as a table: instances with public parameters and secrets, their entry points, and forging with a given witness.
use crate::circ::*;
use crate::cs::Evil;
use crate::refv::*;
use crate::util::*;
use amcl_wrapper::field_elem::FieldElement;
use amcl_wrapper::group_elem::GroupElement;
use amcl_wrapper::group_elem_g1::G1;
use bulletproofs_amcl::errors::R1CSError;
use bulletproofs_amcl::r1cs::gadgets::bound_check::*;
use bulletproofs_amcl::r1cs::gadgets::hamming_distance::*;
use bulletproofs_amcl::r1cs::gadgets::helper_constraints::bit::bit_gadget;
use bulletproofs_amcl::r1cs::gadgets::helper_constraints::mimc::*;
use bulletproofs_amcl::r1cs::gadgets::helper_constraints::non_zero::*;
use bulletproofs_amcl::r1cs::gadgets::helper_constraints::poseidon::*;
use bulletproofs_amcl::r1cs::gadgets::helper_constraints::sparse_merkle_tree_4_ary::*;
use bulletproofs_amcl::r1cs::gadgets::helper_constraints::sparse_merkle_tree_8_ary::*;
use bulletproofs_amcl::r1cs::gadgets::helper_constraints::vector_sum::vector_sum_constraints;
use bulletproofs_amcl::r1cs::gadgets::mimc::*;
use bulletproofs_amcl::r1cs::gadgets::non_zero::*;
use bulletproofs_amcl::r1cs::gadgets::poseidon_hash::*;
use bulletproofs_amcl::r1cs::gadgets::set_membership::*;
use bulletproofs_amcl::r1cs::gadgets::set_membership_alt::{gen_proof_of_set_membership_alt, vector_product_gadget, verify_proof_of_set_membership_alt};
use bulletproofs_amcl::r1cs::gadgets::set_non_membership::*;
use bulletproofs_amcl::r1cs::gadgets::sparse_merkle_tree_4_ary::*;
use bulletproofs_amcl::r1cs::gadgets::sparse_merkle_tree_8_ary::*;
use bulletproofs_amcl::r1cs::linear_combination::AllocatedQuantity;
use bulletproofs_amcl::r1cs::*;
use merlin::Transcript;
use rand::rngs::ThreadRng;
use std::collections::HashMap;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Sb {
    Cube,
    Quint,
    Inverse,
}
pub fn sb(s: Sb) -> SboxType {
    match s {
        Sb::Cube => SboxType::Cube,
        Sb::Quint => SboxType::Quint,
        Sb::Inverse => SboxType::Inverse,
    }
}

#[derive(Clone, Debug)]
pub struct Pp {
    pub w: usize,
    pub fb: usize,
    pub fe: usize,
    pub pr: usize,
    pub rk: Vec<F>,
    pub mds: Vec<Vec<F>>,
}
impl Pp {
    pub fn p(&self) -> PoseidonParams {
        PoseidonParams {
            width: self.w,
            full_rounds_beginning: self.fb,
            full_rounds_end: self.fe,
            partial_rounds: self.pr,
            round_keys: self.rk.clone(),
            MDS_matrix: self.mds.clone(),
        }
    }
    /// the documented permutation
    pub fn perm(&self, x: &[F], s: Sb) -> Vec<F> {
        let mut st = x.to_vec();
        let mut k = 0;
        for r in 0..self.fb + self.pr + self.fe {
            let full = r < self.fb || r >= self.fb + self.pr;
            for i in 0..self.w {
                st[i] = &st[i] + &self.rk[k];
                k += 1;
            }
            for i in 0..self.w {
                if full || i == self.w - 1 {
                    let y = st[i].clone();
                    st[i] = match s {
                        Sb::Cube => &(&y * &y) * &y,
                        Sb::Quint => &(&(&(&y * &y) * &y) * &y) * &y,
                        Sb::Inverse => if y.is_zero() { F::zero() } else { y.inverse() },
                    };
                }
            }
            let mut out = vec![];
            for i in 0..self.w {
                let mut t = F::zero();
                for j in 0..self.w {
                    t = &t + &(&self.mds[j][i] * &st[j]);
                }
                out.push(t);
            }
            st = out;
        }
        st
    }
    pub fn hash(&self, x: &[F], s: Sb) -> F {
        let mut v = vec![F::zero()];
        v.extend_from_slice(x);
        self.perm(&v, s)[1].clone()
    }
}
pub fn mimc_ref(x: &F, y: &F, cs: &[F]) -> F {
    let (mut l, mut r) = (x.clone(), y.clone());
    for c in cs {
        let t = &l + c;
        let n = &(&(&t * &t) * &t) + &r;
        r = l;
        l = n;
    }
    l
}

#[derive(Clone, Debug)]
pub enum Gd {
    Bit { v: F },
    Positive { v: F, n: usize },
    Bound { v: F, lo: u64, up: u64, n: usize },
    NonZero { v: F },
    Member { v: F, set: Vec<F> },
    Alt { v: F, set: Vec<u64> },
    NonMember { v: F, set: Vec<F> },
    Hamming { orig: Vec<F>, new: Vec<F>, count: u64 },
    Mimc { x: Vec<F>, cs: Vec<F>, img: F },
    Pose { x: Vec<F>, pp: Pp, s: Sb, img: F },
    Merkle { ar: usize, depth: usize, leaf: F, index: F, sib: Vec<Vec<F>>, root: F, pp: Pp, s: Sb },
}
use Gd::*;

/// as a number, if it fits
pub fn small(x: &F) -> Option<u64> {
    let b = x.to_bytes();
    let k = b.len() - 8;
    if b[..k].iter().any(|c| *c != 0) {
        return None;
    }
    let mut r = 0u64;
    for c in &b[k..] {
        r = (r << 8) | *c as u64;
    }
    Some(r)
}
/// the low `d` digits in base `ar`, most significant first, and whether that is the whole number
pub fn digits(x: &F, ar: usize, d: usize) -> (Vec<usize>, bool) {
    let bits = if ar == 4 { 2 } else { 3 };
    let b = x.to_bytes();
    let bit = |i: usize| if i / 8 < b.len() { (b[b.len() - 1 - i / 8] >> (i % 8)) & 1 } else { 0 } as usize;
    let mut out = vec![];
    for k in (0..d).rev() {
        out.push((0..bits).map(|j| bit(k * bits + j) << j).sum());
    }
    let whole = (d * bits..b.len() * 8).all(|i| bit(i) == 0);
    (out, whole)
}
pub fn merkle_root(ar: usize, depth: usize, leaf: &F, index: &F, sib: &[Vec<F>], pp: &Pp, s: Sb) -> F {
    let (dg, _) = digits(index, ar, depth);
    let mut cur = leaf.clone();
    for k in (0..depth).rev() {
        let mut x = sib[k].clone();
        x.insert(dg[k], cur);
        cur = pp.hash(&x, s);
    }
    cur
}

fn aq(v: Variable, x: Option<&F>) -> AllocatedQuantity {
    AllocatedQuantity { variable: v, assignment: x.cloned() }
}

pub type Made = Result<(R1CSProof, Vec<G1>), R1CSError>;

fn arr3(v: &[F]) -> ProofNode_4_ary {
    [v[0].clone(), v[1].clone(), v[2].clone()]
}
fn arr7(v: &[F]) -> ProofNode_8_ary {
    [v[0].clone(), v[1].clone(), v[2].clone(), v[3].clone(), v[4].clone(), v[5].clone(), v[6].clone()]
}

impl Gd {
    pub fn name(&self) -> &'static str {
        match self {
            Bit { .. } => "bit",
            Positive { .. } => "positive",
            Bound { .. } => "bound",
            NonZero { .. } => "nonzero",
            Member { .. } => "member",
            Alt { .. } => "member_alt",
            NonMember { .. } => "nonmember",
            Hamming { .. } => "hamming",
            Mimc { .. } => "mimc",
            Pose { .. } => "poseidon",
            Merkle { .. } => "merkle",
        }
    }
    /// number of values committed with caller-supplied randomness, and their positions among the commitments
    pub fn given(&self) -> Vec<usize> {
        match self {
            Bit { .. } | Positive { .. } => vec![],
            Bound { .. } | NonZero { .. } | Member { .. } | NonMember { .. } => vec![0],
            Alt { set, .. } => vec![set.len()],
            Hamming { .. } => vec![],
            Mimc { .. } => vec![0, 1],
            Pose { x, .. } => (0..x.len()).collect(),
            Merkle { .. } => vec![0, 1],
        }
    }
    pub fn secret(&self) -> Vec<F> {
        match self {
            Bit { v } | Positive { v, .. } | Bound { v, .. } | NonZero { v } | Member { v, .. } | Alt { v, .. } | NonMember { v, .. } => vec![v.clone()],
            Hamming { orig, .. } => orig.clone(),
            Mimc { x, .. } | Pose { x, .. } => x.clone(),
            Merkle { leaf, index, .. } => vec![leaf.clone(), index.clone()],
        }
    }
    /// is the statement true of these committed values?
    pub fn truth(&self, V: &[F]) -> bool {
        match self {
            Bit { .. } => V[0].is_zero() || V[0].is_one(),
            Positive { n, .. } => {
                let b = V[0].to_bytes();
                let bit = |i: usize| if i / 8 < b.len() { (b[b.len() - 1 - i / 8] >> (i % 8)) & 1 } else { 0 };
                (*n..b.len() * 8).all(|i| bit(i) == 0)
            }
            Bound { lo, up, .. } => match small(&V[0]) {
                Some(x) => *lo <= x && x <= *up,
                None => false,
            },
            NonZero { .. } => !V[0].is_zero(),
            Member { set, .. } => set.contains(&V[0]),
            Alt { set, .. } => set.iter().any(|x| fe(*x) == V[set.len()]),
            NonMember { set, .. } => !set.contains(&V[0]),
            Hamming { new, count, .. } => new.len() == V.len() && V.iter().zip(new).filter(|(a, b)| a != b).count() as u64 == *count,
            Mimc { cs, img, .. } => mimc_ref(&V[0], &V[1], cs) == *img,
            Pose { x, pp, s, img } => pp.hash(&V[..x.len()], *s) == *img,
            Merkle { ar, depth, root, pp, s, .. } => {
                let sib: Vec<Vec<F>> = (0..*depth).map(|k| V[2 + k * (ar - 1)..2 + (k + 1) * (ar - 1)].to_vec()).collect();
                digits(&V[1], *ar, *depth).1 && merkle_root(*ar, *depth, &V[0], &V[1], &sib, pp, *s) == *root
            }
        }
    }
    /// values an honest prover commits, in order (without the public constants added for the hashes)
    pub fn honest(&self) -> Vec<F> {
        match self {
            Bit { v } | Positive { v, .. } => vec![v.clone()],
            Bound { v, lo, up, .. } => vec![v.clone(), v - &fe(*lo), &fe(*up) - v],
            NonZero { v } => vec![v.clone(), inv(v)],
            Member { v, set } => std::iter::once(v.clone()).chain(set.iter().map(|s| s - v)).collect(),
            Alt { v, set } => {
                let k = set.iter().position(|s| fe(*s) == *v);
                let mut r: Vec<F> = (0..set.len()).map(|i| if Some(i) == k { F::one() } else { F::zero() }).collect();
                r.push(v.clone());
                r
            }
            NonMember { v, set } => std::iter::once(v.clone())
                .chain(set.iter().flat_map(|s| vec![s - v, inv(&(s - v))]))
                .collect(),
            Hamming { orig, .. } => orig.clone(),
            Mimc { x, .. } | Pose { x, .. } => x.clone(),
            Merkle { leaf, index, sib, .. } => {
                let mut r = vec![leaf.clone(), index.clone()];
                for s in sib {
                    r.extend_from_slice(s);
                }
                r
            }
        }
    }
    pub fn statics(&self) -> usize {
        match self {
            Pose { .. } | Merkle { .. } => 1,
            _ => 0,
        }
    }
    /// the circuit, on any constraint system
    pub fn build<CS: ConstraintSystem>(&self, cs: &mut CS, vars: &[Variable], statics: Vec<Variable>, val: Option<&[F]>) -> Result<(), R1CSError> {
        let q = |i: usize| aq(vars[i], val.map(|v| &v[i]));
        match self {
            Bit { .. } => bit_gadget(cs, &q(0)),
            Positive { n, .. } => bulletproofs_amcl::r1cs::gadgets::helper_constraints::positive_no::positive_no_gadget(cs, q(0), *n),
            Bound { lo, up, n, .. } => bound_check_gadget(cs, q(0), q(1), q(2), *up, *lo, *n),
            NonZero { .. } => is_nonzero_gadget(cs, vars[0], vars[1]),
            Member { set, .. } => set_membership_gadget(cs, q(0), (1..=set.len()).map(|i| q(i)).collect(), set),
            Alt { set, .. } => {
                let n = set.len();
                let b: Vec<AllocatedQuantity> = (0..n).map(|i| q(i)).collect();
                for x in &b {
                    bit_gadget(cs, x)?;
                }
                vector_sum_constraints(cs, vars[..n].to_vec(), 1)?;
                vector_product_gadget(cs, set, &b, &q(n))
            }
            NonMember { set, .. } => {
                let n = set.len();
                set_non_membership_gadget(cs, q(0), (0..n).map(|i| q(1 + 2 * i)).collect(), (0..n).map(|i| q(2 + 2 * i)).collect(), set)
            }
            Hamming { new, count, .. } => hamming_distance_gadget(cs, (0..vars.len()).map(|i| q(i)).collect(), new, *count),
            Mimc { cs: k, img, .. } => mimc_gadget(cs, q(0), q(1), k.len(), k, img),
            Pose { x, pp, s, img } => {
                let (p, s) = (pp.p(), sb(*s));
                match x.len() {
                    2 => Poseidon_hash_2_gadget(cs, vars[0], vars[1], statics, &p, &s, img),
                    4 => Poseidon_hash_4_gadget(cs, vars[..4].to_vec(), statics, &p, &s, img),
                    _ => Poseidon_hash_8_gadget(cs, vars[..8].to_vec(), statics[0], &p, &s, img),
                }
            }
            Merkle { ar, depth, root, pp, s, .. } => {
                let (p, s) = (pp.p(), sb(*s));
                if *ar == 4 {
                    vanilla_merkle_merkle_tree_4_verif_gadget(cs, *depth, root, vars[0], q(1), vars[2..].to_vec(), statics, &p, &s)
                } else {
                    vanilla_merkle_merkle_tree_8_verif_gadget(cs, *depth, root, vars[0], q(1), vars[2..].to_vec(), statics[0], &p, &s)
                }
            }
        }
    }
    /// the crate's gen_proof entry point; r: the caller's randomness (None: an rng is passed)
    pub fn gen(&self, r: Option<Vec<F>>, gs: &Gens) -> Made {
        let mut rng = rand::thread_rng();
        let rng: Option<&mut ThreadRng> = if r.is_none() { Some(&mut rng) } else { None };
        let r0 = r.as_ref().map(|r| r.get(0).cloned().unwrap_or_else(F::zero));
        let (g, h, G, H) = (&gs.g, &gs.h, &gv(&gs.G), &gv(&gs.H));
        let l = b"t";
        match self {
            Bit { .. } | Positive { .. } => self.forge(&self.honest(), &[], &[], gs, true),
            Bound { v, lo, up, n } => gen_proof_of_bounded_num(small(v).unwrap(), r0, *lo, *up, *n, rng, l, g, h, G, H),
            NonZero { v } => gen_proof_of_non_zero_val(v.clone(), r0, rng, l, g, h, G, H),
            Member { v, set } => gen_proof_of_set_membership(v.clone(), r0, set, rng, l, g, h, G, H),
            Alt { v, set } => gen_proof_of_set_membership_alt(small(v).unwrap(), r0, set, rng, l, g, h, G, H),
            NonMember { v, set } => gen_proof_of_set_non_membership(v.clone(), r0, set, rng, l, g, h, G, H),
            Hamming { orig, new, count } => gen_proof_for_hamming_distance(orig, new, *count, l, g, h, G, H),
            Mimc { x, cs, img } => gen_proof_of_knowledge_of_preimage_of_mimc(x.clone(), r, img, cs, cs.len(), rng, l, g, h, G, H),
            Pose { x, pp, s, img } => match x.len() {
                2 => gen_proof_of_knowledge_of_preimage_of_Poseidon_2(x.clone(), r, img, &pp.p(), &sb(*s), rng, l, g, h, G, H),
                4 => gen_proof_of_knowledge_of_preimage_of_Poseidon_4(x.clone(), r, img, &pp.p(), &sb(*s), rng, l, g, h, G, H),
                _ => gen_proof_of_knowledge_of_preimage_of_Poseidon_8(x.clone(), r, img, &pp.p(), &sb(*s), rng, l, g, h, G, H),
            },
            Merkle { ar, depth, leaf, index, sib, root, pp, s } => {
                if *ar == 4 {
                    let n: Vec<ProofNode_4_ary> = sib.iter().map(|v| arr3(v)).collect();
                    gen_proof_of_leaf_inclusion_4_ary_merkle_tree(leaf.clone(), index.clone(), r, n, root, *depth, &pp.p(), &sb(*s), rng, l, g, h, G, H)
                } else {
                    let n: Vec<ProofNode_8_ary> = sib.iter().map(|v| arr7(v)).collect();
                    gen_proof_of_leaf_inclusion_8_ary_merkle_tree(leaf.clone(), index.clone(), r, n, root, *depth, &pp.p(), &sb(*s), rng, l, g, h, G, H)
                }
            }
        }
    }
    /// the crate's verify entry point
    pub fn ver(&self, proof: &R1CSProof, coms: &[G1], gs: &Gens) -> Result<(), R1CSError> {
        let (g, h, G, H) = (&gs.g, &gs.h, &gv(&gs.G), &gv(&gs.H));
        let l = b"t";
        let (p, c) = (proof.clone(), coms.to_vec());
        match self {
            Bit { .. } | Positive { .. } => {
                let mut t = Transcript::new(l);
                let mut v = Verifier::new(&mut t);
                let vars: Vec<Variable> = c.into_iter().map(|x| v.commit(x)).collect();
                self.build(&mut v, &vars, vec![], None)?;
                v.verify(&p, g, h, G, H)
            }
            Bound { lo, up, n, .. } => verify_proof_of_bounded_num(*lo, *up, *n, p, c, l, g, h, G, H),
            NonZero { .. } => verify_proof_of_non_zero_val(p, c, l, g, h, G, H),
            Member { set, .. } => verify_proof_of_set_membership(set, p, c, l, g, h, G, H),
            Alt { set, .. } => verify_proof_of_set_membership_alt(set, p, c, l, g, h, G, H),
            NonMember { set, .. } => verify_proof_of_set_non_membership(set, p, c, l, g, h, G, H),
            Hamming { new, count, .. } => verify_proof_for_hamming_distance(new, *count, p, c, l, g, h, G, H),
            Mimc { cs, img, .. } => verify_knowledge_of_preimage_of_mimc(img, cs, cs.len(), p, c, l, g, h, G, H),
            Pose { x, pp, s, img } => match x.len() {
                2 => verify_proof_of_knowledge_of_preimage_of_Poseidon_2(img, &pp.p(), &sb(*s), p, c, l, g, h, G, H),
                4 => verify_proof_of_knowledge_of_preimage_of_Poseidon_4(img, &pp.p(), &sb(*s), p, c, l, g, h, G, H),
                _ => verify_proof_of_knowledge_of_preimage_of_Poseidon_8(img, &pp.p(), &sb(*s), p, c, l, g, h, G, H),
            },
            Merkle { ar, depth, root, pp, s, .. } => {
                if *ar == 4 {
                    verify_proof_of_leaf_inclusion_4_ary_merkle_tree(root, *depth, &pp.p(), &sb(*s), p, c, l, g, h, G, H)
                } else {
                    verify_proof_of_leaf_inclusion_8_ary_merkle_tree(root, *depth, &pp.p(), &sb(*s), p, c, l, g, h, G, H)
                }
            }
        }
    }
    /// a proof by the crate's prover from arbitrary committed values and multiplier values
    pub fn forge(&self, V: &[F], L: &[F], R: &[F], gs: &Gens, full: bool) -> Made {
        let mut t = Transcript::new(b"t");
        let mut p = Prover::new(&gs.g, &gs.h, &mut t);
        let mut coms = vec![];
        let mut vars = vec![];
        for (i, x) in V.iter().enumerate() {
            let (c, v) = p.commit(x.clone(), h2(format!("forge{}", i).as_bytes()));
            coms.push(c);
            vars.push(v);
        }
        let st = if self.statics() > 0 { allocate_statics_for_prover(&mut p, self.statics()) } else { vec![] };
        let mut wit = HashMap::new();
        for i in 0..L.len() {
            wit.insert(i, (L[i].clone(), R[i].clone()));
        }
        {
            let mut ev = Evil { p: &mut p, wit, half: None, lcs: vec![] };
            self.build(&mut ev, &vars, st, Some(V))?;
            if !full && !ev.satisfied() {
                // no proof from this assignment can be accepted (that is property C02)
                return Err(R1CSError::VerificationError);
            }
        }
        Ok((p.prove(&gv(&gs.G), &gv(&gs.H))?, coms))
    }
    /// honest proof by the entry points accepted, with given and with fresh randomness
    pub fn complete(&self, c: &mut Ctx, gs: &Gens) {
        for mode in 0..2 {
            let r: Option<Vec<F>> = if mode == 0 { Some(self.secret().iter().map(|_| c.nz()).collect()) } else { None };
            let id = format!("{} {} {}", self.name(), if mode == 0 { "given randomness" } else { "rng" }, short(self));
            c.case(id, || {
                let (p, coms) = self.gen(r.clone(), gs).map_err(|x| format!("proving fails: {:?} for {:?}", x, self))?;
                self.ver(&p, &coms, gs).map_err(|x| format!("the proof of a true statement is rejected: {:?} for {:?}", x, self))
            });
        }
    }
    /// a witness for a false statement must not convince the verifier
    pub fn sound(&self, c: &mut Ctx, V: &[F], L: &[F], R: &[F], gs: &Gens, why: &str) {
        if self.truth(V) {
            return;
        }
        let id = format!("false statement, {}: {} {}", why, self.name(), short(self));
        let full = c.thorough;
        c.case(id, || {
            let made = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| self.forge(V, L, R, gs, full)));
            match made {
                Ok(Ok((p, coms))) => {
                    if self.ver(&p, &coms, gs).is_ok() {
                        return Err(format!("the verifier accepts a false statement: {:?} with committed values {:?}, multipliers left {:?} right {:?}", self, hex(V), hex(L), hex(R)));
                    }
                    Ok(())
                }
                _ => Ok(()),
            }
        });
    }
}
fn inv(x: &F) -> F {
    if x.is_zero() {
        F::zero()
    } else {
        x.inverse()
    }
}
pub fn hex(v: &[F]) -> Vec<String> {
    v.iter().map(|x| x.to_hex()).collect()
}
pub fn short(g: &Gd) -> String {
    let s = format!("{:?}", g);
    if s.len() > 300 {
        format!("{}...", s.chars().take(300).collect::<String>())
    } else {
        s
    }
}
