//! C04, C06, C07, C15 (core), C16, C18, C19
use crate::circ::*;
use crate::proto::{e, tamper};
use crate::refv::*;
use crate::util::*;
use amcl_wrapper::field_elem::{FieldElement, FieldElementVector};
use amcl_wrapper::group_elem::{GroupElement, GroupElementVector};
use amcl_wrapper::group_elem_g1::{G1Vector, G1};
use bulletproofs_amcl::errors::R1CSError;
use bulletproofs_amcl::ipp::IPP;
use bulletproofs_amcl::r1cs::*;
use bulletproofs_amcl::utils::vector_poly::{Poly2, Poly6, VecPoly1, VecPoly3};
use bulletproofs_amcl::utils::{gen_challenges, get_generators};
use merlin::Transcript;
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

fn fv(v: &[F]) -> FieldElementVector {
    v.to_vec().into()
}
fn ip(a: &[F], b: &[F]) -> F {
    let mut r = F::zero();
    for i in 0..a.len() {
        r = &r + &(&a[i] * &b[i]);
    }
    r
}

pub fn c04(c: &mut Ctx) {
    let kmax = if c.thorough { 8 } else { 6 };
    for k in 0..=kmax {
        let n = 1usize << k;
        for var in 0..4 {
            let mk = |c: &mut Ctx, m: usize| -> Vec<F> {
                (0..n).map(|i| match m {
                    0 => F::one(),
                    1 => c.nz(),
                    _ => if i % 2 == 0 { c.f() } else { c.nz() },
                }).collect()
            };
            let (gf, hf) = (mk(c, var.min(1)), mk(c, if var == 0 { 0 } else { 1 }));
            let (a, b) = (mk(c, 2), mk(c, if var == 3 { 2 } else { 1 }));
            let gs = gens(n);
            let q = pt("Q");
            let mut P = vec![(ip(&a, &b), q.clone())];
            for i in 0..n {
                P.push((&a[i] * &gf[i], gs.G[i].clone()));
                P.push((&b[i] * &hf[i], gs.H[i].clone()));
            }
            let P = msm(&P);
            let id = format!("n={} variant {}", n, var);
            let mut made = None;
            c.case(format!("create_ipp then verify_ipp, {}", id), || {
                let mut t = Transcript::new(b"ipp");
                let p = IPP::create_ipp(&mut t, &q, &fv(&gf), &fv(&hf), &gv(&gs.G), &gv(&gs.H), &fv(&a), &fv(&b));
                let tp = probe(&mut t);
                let mut t = Transcript::new(b"ipp");
                let r = IPP::verify_ipp(n, &mut t, &fv(&gf), &fv(&hf), &P, &q, &gv(&gs.G), &gv(&gs.H), &p.a, &p.b, &p.L, &p.R);
                let tv = probe(&mut t);
                made = Some((p.L.as_slice().to_vec(), p.R.as_slice().to_vec(), p.a.clone(), p.b.clone()));
                r.map_err(|x| format!("honest inner-product proof rejected: {:?}", x))?;
                if tp != tv {
                    return Err("prover and verifier transcripts differ".into());
                }
                Ok(())
            });
            let (L, R, pa, pb) = match made {
                Some(x) => x,
                None => continue,
            };
            // reference relation
            let reference = |P: &G1, L: &[G1], R: &[G1], pa: &F, pb: &F| -> (bool, Vec<F>, Vec<F>) {
                let mut t = Transcript::new(b"ipp");
                t.append_message(b"dom-sep", b"ipp v1");
                t.append_message(b"n", &(n as u64).to_le_bytes());
                let mut us = vec![];
                for j in 0..L.len() {
                    t_pt(&mut t, b"L", &L[j]);
                    t_pt(&mut t, b"R", &R[j]);
                    us.push(t_ch(&mut t, b"u"));
                }
                let mut want = vec![(pa * pb, q.clone())];
                let mut ss = vec![];
                for i in 0..n {
                    let mut s = F::one();
                    for j in 0..k {
                        s = if (i >> (k - 1 - j)) & 1 == 1 { &s * &us[j] } else { &s * &us[j].inverse() };
                    }
                    want.push((&(pa * &s) * &gf[i], gs.G[i].clone()));
                    want.push((&(pb * &s.inverse()) * &hf[i], gs.H[i].clone()));
                    ss.push(s);
                }
                for j in 0..k {
                    let u2 = &us[j] * &us[j];
                    want.push((-u2.inverse(), R[j].clone()));
                    want.push((-u2, L[j].clone()));
                }
                (*P == msm(&want), us, ss)
            };
            c.case(format!("relation of the emitted rounds, {}", id), || {
                if L.len() != k || R.len() != k {
                    return Err(format!("{} and {} rounds", L.len(), R.len()));
                }
                let (ok, us, ss) = reference(&P, &L, &R, &pa, &pb);
                if !ok {
                    return Err("the emitted proof does not satisfy P = <a,G'> + <b,H'> + <a,b>Q".into());
                }
                let mut t = Transcript::new(b"ipp");
                let (u2, ui2, s) = IPP::verification_scalars(&gv(&L), &gv(&R), n, &mut t).map_err(e)?;
                for j in 0..k {
                    if u2[j] != &us[j] * &us[j] || ui2[j] != (&us[j] * &us[j]).inverse() {
                        return Err(format!("u^2 or u^-2 of round {} wrong", j));
                    }
                }
                for i in 0..n {
                    if s[i] != ss[i] {
                        return Err(format!("s[{}] wrong", i));
                    }
                }
                if u2.len() != k || ui2.len() != k || s.len() != n {
                    return Err("wrong number of scalars".into());
                }
                Ok(())
            });
            // tampering: verdict = relation
            let o = pt("other");
            let mut tries: Vec<(String, G1, Vec<G1>, Vec<G1>, F, F)> = vec![
                ("P shifted".into(), &P + &o, L.clone(), R.clone(), pa.clone(), pb.clone()),
                ("a shifted".into(), P.clone(), L.clone(), R.clone(), &pa + &F::one(), pb.clone()),
                ("b shifted".into(), P.clone(), L.clone(), R.clone(), pa.clone(), &pb + &F::one()),
                ("a,b scaled".into(), P.clone(), L.clone(), R.clone(), &pa * &fe(2), &pb * &fe(2).inverse()),
                ("P negated".into(), -&P, L.clone(), R.clone(), pa.clone(), pb.clone()),
            ];
            for j in 0..k {
                let mut l2 = L.clone();
                l2[j] = &l2[j] + &o;
                tries.push((format!("L[{}] shifted", j), P.clone(), l2, R.clone(), pa.clone(), pb.clone()));
                let mut r2 = R.clone();
                r2[j] = &r2[j] + &o;
                tries.push((format!("R[{}] shifted", j), P.clone(), L.clone(), r2, pa.clone(), pb.clone()));
            }
            if var < 2 || c.thorough {
                for (what, P2, l, r, x, y) in tries {
                    c.case(format!("{}, {}", what, id), || {
                        let mut t = Transcript::new(b"ipp");
                        let real = IPP::verify_ipp(n, &mut t, &fv(&gf), &fv(&hf), &P2, &q, &gv(&gs.G), &gv(&gs.H), &x, &y, &gv(&l), &gv(&r)).is_ok();
                        let (want, _, _) = reference(&P2, &l, &r, &x, &y);
                        if real != want {
                            return Err(format!("verifier says {}, the relation is {}", real, want));
                        }
                        Ok(())
                    });
                }
            }
        }
    }
}

fn val(t: &LinearCombination, asg: &HashMap<Variable, F>) -> F {
    let mut r = F::zero();
    for (v, k) in &t.terms {
        r = &r + &(k * &asg[v]);
    }
    r
}

pub fn c06(c: &mut Ctx) {
    let rounds = if c.thorough { 400 } else { 120 };
    for round in 0..rounds {
        let nv = 1 + c.below(6);
        let mut asg: HashMap<Variable, F> = HashMap::new();
        asg.insert(Variable::One(), F::one());
        let mut all = vec![Variable::One()];
        for i in 0..nv {
            for v in &[Variable::Committed(i), Variable::MultiplierLeft(i), Variable::MultiplierRight(i), Variable::MultiplierOutput(i)] {
                asg.insert(*v, c.f());
                all.push(*v);
            }
        }
        let mut mk = |c: &mut Ctx, k: usize| -> LinearCombination {
            let mut t = vec![];
            for _ in 0..k {
                let i = c.below(all.len());
                t.push((all[i], c.f()));
            }
            if k > 2 && c.below(3) == 0 {
                // exact cancellation and repetition
                t[1] = (t[0].0, -&t[0].1);
                t[2] = t[0].clone();
            }
            LinearCombination { terms: t }
        };
        let (ka, kb) = (c.below(if round % 10 == 0 { 70 } else { 8 }), c.below(8));
        let (a, b) = (mk(c, ka), mk(c, kb));
        let (va, vb) = (val(&a, &asg), val(&b, &asg));
        let v = all[c.below(all.len())];
        let w = all[c.below(all.len())];
        let (vv, vw) = (asg[&v].clone(), asg[&w].clone());
        let s = c.f();
        let s2 = c.f();
        let mut t: Vec<(&str, LinearCombination, F)> = vec![];
        t.push(("lc + lc", a.clone() + b.clone(), &va + &vb));
        t.push(("lc - lc", a.clone() - b.clone(), &va - &vb));
        t.push(("-lc", -a.clone(), -&va));
        t.push(("s * lc", s.clone() * a.clone(), &s * &va));
        t.push(("&s * lc", &s * a.clone(), &s * &va));
        t.push(("0 * lc", F::zero() * a.clone(), F::zero()));
        t.push(("lc + var", a.clone() + v, &va + &vv));
        t.push(("lc - var", a.clone() - v, &va - &vv));
        t.push(("lc + s", a.clone() + s.clone(), &va + &s));
        t.push(("lc - s", a.clone() - s.clone(), &va - &s));
        let mut x = a.clone();
        x += b.clone();
        t.push(("lc += lc", x, &va + &vb));
        let mut x = a.clone();
        x += v;
        t.push(("lc += var", x, &va + &vv));
        let mut x = a.clone();
        x += s.clone();
        t.push(("lc += s", x, &va + &s));
        t.push(("s + var", s.clone() + v, &s + &vv));
        t.push(("s - var", s.clone() - v, &s - &vv));
        t.push(("s * var", s.clone() * v, &s * &vv));
        t.push(("-var", -v, -&vv));
        t.push(("var + lc", v + a.clone(), &vv + &va));
        t.push(("var - lc", v - a.clone(), &vv - &va));
        t.push(("var + var", v + w, &vv + &vw));
        t.push(("var - var", v - w, &vv - &vw));
        t.push(("var + s", v + s.clone(), &vv + &s));
        t.push(("var - s", v - s.clone(), &vv - &s));
        t.push(("from var", LinearCombination::from(v), vv.clone()));
        t.push(("from s", LinearCombination::from(s.clone()), s.clone()));
        t.push(("collect", a.terms.clone().into_iter().collect(), va.clone()));
        t.push(("collect refs", a.terms.iter().collect(), va.clone()));
        t.push(("default", LinearCombination::default(), F::zero()));
        t.push(("(a - b) * s + w", (s2.clone() * (a.clone() - b.clone())) + w, &(&s2 * &(&va - &vb)) + &vw));
        t.push(("simplify", a.clone().simplify(), va.clone()));
        t.push(("simplify sum", (a.clone() + b.clone() - w).simplify(), &(&va + &vb) - &vw));
        for (what, l, want) in t {
            c.case(format!("{} round {} on {} and {} terms", what, round, a.terms.len(), b.terms.len()), || {
                for (v, _) in &l.terms {
                    if !asg.contains_key(v) {
                        return Err(format!("{}: unknown variable {:?}", what, v));
                    }
                }
                if val(&l, &asg) != want {
                    return Err(format!("{} of {:?}, {:?}, {:?}, {:?}, {:?} gives {:?}", what, a, b, v, w, s, l));
                }
                if l.len() != l.terms.len() {
                    return Err("len()".into());
                }
                if what.starts_with("simplify") {
                    let mut seen = std::collections::HashSet::new();
                    for (v, _) in &l.terms {
                        if !seen.insert(*v) {
                            return Err(format!("{:?} twice after simplify of {:?}", v, a));
                        }
                    }
                }
                Ok(())
            });
        }
    }
}

pub fn c07(c: &mut Ctx) {
    let g = gens(64);
    let rounds = if c.thorough { 300 } else { 60 };
    for round in 0..rounds {
        let m = c.below(4);
        let k = c.below(18);
        let ci = c.circuit(m, k, &[]);
        let bl = c.blinds(m);
        let probes: Vec<Vec<(usize, F)>> = (0..3).map(|i| c.terms(i * 2 + 1)).collect();
        c.case(format!("books after {} commits and {} calls, round {}", m, k, round), || {
            let mut tp = Transcript::new(b"t");
            let mut tv = Transcript::new(b"t");
            let mut p = Prover::new(&g.g, &g.h, &mut tp);
            let mut v = Verifier::new(&mut tv);
            let mut r = Ref::new(b"t");
            let mut envs: Vec<Env> = vec![];
            let (mut e1, mut e2, mut e3) = (vec![(Variable::One(), F::one())], vec![(Variable::One(), F::one())], vec![(Variable::One(), F::one())]);
            for (x, b) in ci.v.iter().zip(&bl) {
                let (com, var) = p.commit(x.clone(), b.clone());
                if com != &g.g * x + &g.h * b {
                    return Err("commitment is not v*g + v_blinding*h".into());
                }
                e1.push((var, x.clone()));
                e2.push((v.commit(com.clone()), x.clone()));
                e3.push((r.commit(com), x.clone()));
            }
            build(&mut p, &ci.ops, &mut e1, true, None).map_err(e)?;
            build(&mut v, &ci.ops, &mut e2, false, None).map_err(e)?;
            build(&mut r, &ci.ops, &mut e3, false, None).map_err(e)?;
            for i in 0..e1.len() {
                if e1[i].0 != e2[i].0 || e1[i].0 != e3[i].0 {
                    return Err(format!("variable {}: prover {:?}, verifier {:?}, expected {:?} in {:?}", i, e1[i].0, e2[i].0, e3[i].0, ci.ops));
                }
                for j in 1..i {
                    if e1[i].0 == e1[j].0 {
                        return Err(format!("{:?} handed out twice", e1[i].0));
                    }
                }
                let got = p.evaluate_lc(&LinearCombination { terms: vec![(e1[i].0, F::one())] });
                if got != Some(e1[i].1.clone()) {
                    return Err(format!("prover's value of {:?} is {:?}, given {:?}, in {:?}", e1[i].0, got, e1[i].1, ci.ops));
                }
            }
            // a half-filled multiplier
            if let Some(i) = r.pending {
                let t = vec![(Variable::MultiplierRight(i), fe(2)), (Variable::MultiplierOutput(i), fe(3))];
                if p.evaluate_lc(&LinearCombination { terms: t }) != Some(F::zero()) {
                    return Err("right and output of a half-filled multiplier are not zero".into());
                }
            }
            for t in &probes {
                let mut want = F::zero();
                let mut l = vec![];
                for (i, k) in t {
                    let (v, x) = &e1[*i % e1.len()];
                    want = &want + &(k * x);
                    l.push((*v, k.clone()));
                }
                if p.evaluate_lc(&LinearCombination { terms: l.clone() }) != Some(want.clone()) {
                    return Err(format!("evaluate_lc of {:?} under {:?}", l, e1));
                }
                if v.evaluate_lc(&LinearCombination { terms: l.clone() }).is_some() {
                    return Err("verifier evaluates a linear combination".into());
                }
            }
            if p.num_multipliers() != r.n || p.num_constraints() != r.constraints.len() {
                return Err(format!("prover counts {} multipliers and {} constraints, expected {} and {}", p.num_multipliers(), p.num_constraints(), r.n, r.constraints.len()));
            }
            envs.push(e1);
            Ok(())
        });
    }
    // the recorded constraints, through the flattened weights: the prover's proof satisfies the protocol's equations
    for (id, ci) in c.catalogue() {
        let bl = c.blinds(ci.v.len());
        c.case(format!("recorded constraints and weights, {}", id), || {
            let (p, coms, _) = prove(&ci, &g, &bl).map_err(e)?;
            let (r, _) = reference(&ci, &g, &coms, &Parts::of(&p));
            if r != Ok((true, true)) {
                return Err(format!("the prover's books are not the constraints given: {:?}", r));
            }
            verify(&ci, &g, &coms, &p).0.map_err(|x| format!("the verifier's books are not the constraints given: {:?}", x))
        });
    }
    // missing assignments
    c.case("missing assignments".into(), || {
        let mut t = Transcript::new(b"t");
        let mut p = Prover::new(&g.g, &g.h, &mut t);
        if p.allocate(None).is_ok() || p.allocate_multiplier(None).is_ok() || p.allocate_single(None).is_ok() {
            return Err("the prover allocated without a value".into());
        }
        if p.num_multipliers() != 0 {
            return Err("a failed allocation left a multiplier".into());
        }
        Ok(())
    });
}

pub fn c16(c: &mut Ctx) {
    let mut ns: Vec<usize> = (0..18).collect();
    ns.extend_from_slice(&[31, 32, 33, 63, 64, 65, 100, 129]);
    for n in ns {
        let x = c.nz();
        let v: Vec<Vec<F>> = (0..8).map(|_| (0..n).map(|_| c.f()).collect()).collect();
        let z = vec![F::zero(); n];
        let pw = |x: &F, k: usize| (0..k).fold(F::one(), |a, _| &a * x);
        let at = |p: &[&Vec<F>], x: &F| -> Vec<F> {
            (0..n).map(|i| p.iter().enumerate().fold(F::zero(), |a, (k, q)| &a + &(&q[i] * &pw(x, k)))).collect()
        };
        c.case(format!("VecPoly3 n={}", n), || {
            let (l, r) = (VecPoly3(fv(&z), fv(&v[0]), fv(&v[1]), fv(&v[2])), VecPoly3(fv(&v[3]), fv(&v[4]), fv(&z), fv(&v[5])));
            let (le, re) = (at(&[&z, &v[0], &v[1], &v[2]], &x), at(&[&v[3], &v[4], &z, &v[5]], &x));
            if l.eval(&x) != fv(&le) || r.eval(&x) != fv(&re) {
                return Err("VecPoly3::eval".into());
            }
            let full = VecPoly3(fv(&v[0]), fv(&v[1]), fv(&v[2]), fv(&v[3]));
            if full.eval(&x) != fv(&at(&[&v[0], &v[1], &v[2], &v[3]], &x)) {
                return Err("VecPoly3::eval of a full polynomial".into());
            }
            let p = VecPoly3::special_inner_product(&l, &r);
            if p.eval(&x) != ip(&le, &re) {
                return Err("special_inner_product".into());
            }
            let zz = VecPoly3::zero(n);
            if zz.eval(&x) != fv(&z) {
                return Err("zero".into());
            }
            Ok(())
        });
        c.case(format!("VecPoly1 n={}", n), || {
            let (l, r) = (VecPoly1(fv(&v[0]), fv(&v[1])), VecPoly1(fv(&v[2]), fv(&v[3])));
            let (le, re) = (at(&[&v[0], &v[1]], &x), at(&[&v[2], &v[3]], &x));
            if l.eval(&x) != fv(&le) || r.eval(&x) != fv(&re) {
                return Err("VecPoly1::eval".into());
            }
            let p = l.inner_product(&r);
            if p.eval(&x) != ip(&le, &re) {
                return Err("inner_product".into());
            }
            if VecPoly1::zero(n).eval(&x) != fv(&z) {
                return Err("zero".into());
            }
            Ok(())
        });
        let k: Vec<F> = (0..7).map(|_| c.f()).collect();
        c.case(format!("Poly2, Poly6 #{}", n), || {
            let p = Poly2(k[0].clone(), k[1].clone(), k[2].clone());
            if p.eval(&x) != (0..3).fold(F::zero(), |a, i| &a + &(&k[i] * &pw(&x, i))) {
                return Err("Poly2::eval".into());
            }
            let p = Poly6 { t1: k[1].clone(), t2: k[2].clone(), t3: k[3].clone(), t4: k[4].clone(), t5: k[5].clone(), t6: k[6].clone() };
            if p.eval(&x) != (1..7).fold(F::zero(), |a, i| &a + &(&k[i] * &pw(&x, i))) {
                return Err("Poly6::eval".into());
            }
            Ok(())
        });
    }
}

pub fn c19(c: &mut Ctx) {
    for pre in &["", "G", "H", "g1", "prefix ", "\u{3b1}\u{3b2}", "1"] {
        for n in &[0usize, 1, 2, 3, 9, 10, 11, 12, 99, 100, 101, 130, 257] {
            c.case(format!("get_generators({:?}, {})", pre, n), || {
                let l = get_generators(pre, *n);
                if l.len() != *n {
                    return Err(format!("{} generators", l.len()));
                }
                for i in 0..*n {
                    if l[i] != G1::from_msg_hash(format!("{}{}", pre, i + 1).as_bytes()) {
                        return Err(format!("generator {} is not the hash of prefix and index", i + 1));
                    }
                }
                Ok(())
            });
        }
    }
    for k in 0..5usize {
        for n in 1..8usize {
            for sl in &[0usize, 1, 40, 200] {
                let pts: Vec<G1> = (0..k).map(|i| pt(&format!("in{}", i))).collect();
                let st: Vec<u8> = (0..*sl).map(|i| (i * 7 + 3) as u8).collect();
                c.case(format!("gen_challenges, {} inputs, state of {} bytes, n={}", k, sl, n), || {
                    let run = |p: &[G1], st: &[u8]| {
                        let mut s = st.to_vec();
                        let r = gen_challenges(&p.iter().collect::<Vec<_>>(), &mut s, n);
                        (r, s)
                    };
                    let (r, s) = run(&pts, &st);
                    if r.len() != n {
                        return Err(format!("{} challenges", r.len()));
                    }
                    if run(&pts, &st) != (r.clone(), s.clone()) {
                        return Err("not deterministic".into());
                    }
                    for i in 0..n {
                        for j in 0..i {
                            if r[i] == r[j] {
                                return Err(format!("challenges {} and {} equal", j, i));
                            }
                        }
                    }
                    let differs = |what: String, o: (Vec<F>, Vec<u8>)| -> Result<(), String> {
                        for i in 0..n {
                            if o.0[i] == r[i] {
                                return Err(format!("challenge {} does not depend on {}", i, what));
                            }
                        }
                        if o.1 == s {
                            return Err(format!("state left behind does not depend on {}", what));
                        }
                        Ok(())
                    };
                    for i in 0..k {
                        let mut p = pts.clone();
                        p[i] = pt("changed");
                        differs(format!("input {}", i), run(&p, &st))?;
                        let mut p = pts.clone();
                        p.remove(i);
                        differs(format!("the presence of input {}", i), run(&p, &st))?;
                        if i > 0 {
                            let mut p = pts.clone();
                            p.swap(i, i - 1);
                            differs("the order of inputs".to_string(), run(&p, &st))?;
                        }
                    }
                    for i in 0..st.len() {
                        if i % 17 == 0 || i + 1 == st.len() {
                            let mut q = st.clone();
                            q[i] ^= 0x80;
                            differs(format!("byte {} of the state", i), run(&pts, &q))?;
                        }
                    }
                    // state: prior state, inputs and all challenges but the last are in it
                    if s[..st.len()] != st[..] {
                        return Err("the state left behind does not extend the prior one".into());
                    }
                    let more = gen_challenges(&pts.iter().collect::<Vec<_>>(), &mut st.clone(), n + 1);
                    if more[..n] != r[..] {
                        return Err("asking for one more challenge changes the earlier ones".into());
                    }
                    let mut s3 = s.clone();
                    let r3 = gen_challenges(&[&pt("next")], &mut s3, 1);
                    if n > 1 {
                        let (_, s1) = {
                            let mut q = st.clone();
                            let r = gen_challenges(&pts.iter().collect::<Vec<_>>(), &mut q, n - 1);
                            (r, q)
                        };
                        if s1 == s {
                            return Err("the state does not record the challenges".into());
                        }
                    }
                    if r.contains(&r3[0]) {
                        return Err("a later call repeats a challenge".into());
                    }
                    Ok(())
                });
            }
        }
    }
}

pub fn c18(c: &mut Ctx) {
    let g = gens(32);
    // order, exactly once, after the first phase was absorbed, errors passed on
    for k in 0..5usize {
        for fail_at in 0..=k {
            let id = format!("{} callbacks, callback {} fails", k, fail_at);
            c.case(id, || {
                let log: Rc<RefCell<Vec<String>>> = Rc::new(RefCell::new(vec![]));
                fn reg<CS: ConstraintSystem>(cs: &mut CS, who: &'static str, k: usize, fail_at: usize, log: &Rc<RefCell<Vec<String>>>, nested: bool) -> Result<(), R1CSError> {
                    for i in 0..k {
                        let log = log.clone();
                        cs.specify_randomized_constraints(move |cs2| {
                            log.borrow_mut().push(format!("{}{}", who, i));
                            if nested {
                                let l2 = log.clone();
                                let before = log.borrow().len();
                                cs2.specify_randomized_constraints(move |_| {
                                    l2.borrow_mut().push(format!("{}{}n", who, i));
                                    Ok(())
                                })?;
                                if log.borrow().len() != before + 1 {
                                    log.borrow_mut().push("nested callback did not run immediately".to_string());
                                }
                            }
                            let _ = cs2.challenge_scalar(b"c");
                            if i == fail_at {
                                return Err(R1CSError::GadgetError { description: format!("cb{}", i) });
                            }
                            Ok(())
                        })?;
                    }
                    if !log.borrow().is_empty() && who == "p" {
                        log.borrow_mut().push("ran at registration".into());
                    }
                    Ok(())
                }
                for nested in &[false, true] {
                    log.borrow_mut().clear();
                    let expect = |who: &str| -> Vec<String> {
                        let mut v = vec![];
                        for i in 0..k {
                            v.push(format!("{}{}", who, i));
                            if *nested {
                                v.push(format!("{}{}n", who, i));
                            }
                            if i == fail_at {
                                break;
                            }
                        }
                        v
                    };
                    let mut t = Transcript::new(b"t");
                    let mut p = Prover::new(&g.g, &g.h, &mut t);
                    let (com, _) = p.commit(fe(3), fe(4));
                    reg(&mut p, "p", k, fail_at, &log, *nested).map_err(e)?;
                    let r = p.prove(&gv(&g.G), &gv(&g.H));
                    let got = log.borrow().clone();
                    if got != expect("p") {
                        return Err(format!("prover ran {:?}, expected {:?}", got, expect("p")));
                    }
                    match (&r, fail_at < k) {
                        (Err(R1CSError::GadgetError { description }), true) if *description == format!("cb{}", fail_at) => {}
                        (Ok(_), false) => {}
                        (r, _) => return Err(format!("prover returned {:?}", r.as_ref().map(|_| ()))),
                    }
                    // a proof for the verifier: same shape without failure
                    let l2 = Rc::new(RefCell::new(vec![]));
                    let mut t = Transcript::new(b"t");
                    let mut p = Prover::new(&g.g, &g.h, &mut t);
                    p.commit(fe(3), fe(4));
                    reg(&mut p, "q", k, 99, &l2, *nested).map_err(e)?;
                    let proof = p.prove(&gv(&g.G), &gv(&g.H)).map_err(e)?;
                    log.borrow_mut().clear();
                    let mut t = Transcript::new(b"t");
                    let mut v = Verifier::new(&mut t);
                    v.commit(com);
                    reg(&mut v, "v", k, fail_at, &log, *nested).map_err(e)?;
                    if !log.borrow().is_empty() {
                        return Err("verifier ran a callback at registration".into());
                    }
                    let r = v.verify(&proof, &g.g, &g.h, &gv(&g.G), &gv(&g.H));
                    let got = log.borrow().clone();
                    if got != expect("v") {
                        return Err(format!("verifier ran {:?}, expected {:?}", got, expect("v")));
                    }
                    match (&r, fail_at < k) {
                        (Err(R1CSError::GadgetError { description }), true) if *description == format!("cb{}", fail_at) => {}
                        (Ok(_), false) => {}
                        (r, _) => return Err(format!("verifier returned {:?}", r)),
                    }
                }
                Ok(())
            });
        }
    }
    // challenges are bound to the first phase
    for (m, n) in &[(1usize, 0usize), (1, 1), (2, 2), (1, 3)] {
        let ci = c.sized(*m, *n, 1, 1, 1);
        let bl = c.blinds(*m);
        let g = &g;
        c.case(format!("second-phase challenges, m={} n={}", m, n), || {
            let (p, coms, _) = prove(&ci, g, &bl).map_err(e)?;
            let chal = |coms: &[G1], p: &R1CSProof| -> F {
                let got = Rc::new(RefCell::new(F::zero()));
                let g2 = got.clone();
                let mut t = Transcript::new(b"t");
                let mut v = Verifier::new(&mut t);
                for x in coms {
                    v.commit(x.clone());
                }
                v.specify_randomized_constraints(move |cs| {
                    *g2.borrow_mut() = cs.challenge_scalar(b"ch");
                    Ok(())
                })
                .unwrap();
                let _ = v.verify(p, &g.g, &g.h, &gv(&g.G), &gv(&g.H));
                let r = got.borrow().clone();
                r
            };
            let base = chal(&coms, &p);
            let parts = Parts::of(&p);
            for k in &["A_I1", "A_O1", "S1"] {
                let mut q = parts.clone();
                q.set_pt(k, &(parts.pt(k) + pt("other")));
                if chal(&coms, &q.proof()) == base {
                    return Err(format!("the second-phase challenge does not depend on {}", k));
                }
            }
            for k in &["A_I2", "A_O2", "S2", "T_1"] {
                let mut q = parts.clone();
                q.set_pt(k, &(parts.pt(k) + pt("other")));
                if chal(&coms, &q.proof()) != base {
                    return Err(format!("the second-phase challenge depends on {}", k));
                }
            }
            for i in 0..coms.len() {
                let mut c2 = coms.clone();
                c2[i] = &c2[i] + &pt("other");
                if chal(&c2, &p) == base {
                    return Err(format!("the second-phase challenge does not depend on commitment {}", i));
                }
            }
            Ok(())
        });
    }
    // a half-filled multiplier is not completed in the second phase; both sides hand out the same variables
    for k1 in 0..4usize {
        for k2 in 0..4usize {
            let g = &g;
            c.case(format!("{} allocations in phase one, {} in phase two", k1, k2), || {
                fn go<CS: ConstraintSystem>(cs: &mut CS, p: bool, k1: usize, k2: usize, log: &Rc<RefCell<Vec<Variable>>>) -> Result<(), R1CSError> {
                    for i in 0..k1 {
                        let v = cs.allocate(if p { Some(fe(i as u64 + 2)) } else { None })?;
                        log.borrow_mut().push(v);
                    }
                    let l = log.clone();
                    cs.specify_randomized_constraints(move |cs2| {
                        for i in 0..k2 {
                            let v = cs2.allocate(if p { Some(fe(i as u64 + 9)) } else { None })?;
                            l.borrow_mut().push(v);
                        }
                        Ok(())
                    })
                }
                let (lp, lv) = (Rc::new(RefCell::new(vec![])), Rc::new(RefCell::new(vec![])));
                let mut t = Transcript::new(b"t");
                let mut p = Prover::new(&g.g, &g.h, &mut t);
                go(&mut p, true, k1, k2, &lp).map_err(e)?;
                let proof = p.prove(&gv(&g.G), &gv(&g.H)).map_err(e)?;
                let mut t = Transcript::new(b"t");
                let mut v = Verifier::new(&mut t);
                go(&mut v, false, k1, k2, &lv).map_err(e)?;
                let r = v.verify(&proof, &g.g, &g.h, &gv(&g.G), &gv(&g.H));
                let n1 = (k1 + 1) / 2;
                let mut want = vec![];
                for i in 0..k1 {
                    want.push(if i % 2 == 0 { Variable::MultiplierLeft(i / 2) } else { Variable::MultiplierRight(i / 2) });
                }
                for i in 0..k2 {
                    want.push(if i % 2 == 0 { Variable::MultiplierLeft(n1 + i / 2) } else { Variable::MultiplierRight(n1 + i / 2) });
                }
                if *lp.borrow() != want || *lv.borrow() != want {
                    return Err(format!("prover {:?}, verifier {:?}, expected {:?}", lp.borrow(), lv.borrow(), want));
                }
                r.map_err(e)
            });
        }
    }
    // separators and the rest of the sequence
    for (id, ci) in c.catalogue() {
        if ci.deferred.is_empty() && !id.starts_with("sized m=1 n=1") {
            continue;
        }
        let bl = c.blinds(ci.v.len());
        let g = gens(64);
        c.case(format!("transcript, {}", id), || {
            let (p, coms, tp) = prove(&ci, &g, &bl).map_err(e)?;
            let (_, tv) = verify(&ci, &g, &coms, &p);
            let (r, tr) = reference(&ci, &g, &coms, &Parts::of(&p));
            if tp != tv || tv != tr || r != Ok((true, true)) {
                return Err(format!("prover/verifier/documented transcripts agree: {} {}, equations {:?}", tp == tv, tv == tr, r));
            }
            Ok(())
        });
    }
}

/// points that must be independent multiples of one base: nonzero, distinct, no small relation
pub fn independent(ps: &[(String, G1)], base: &G1) -> Result<(), String> {
    let small: Vec<G1> = (0..9u64).map(|k| base * &fe(k)).collect();
    for (n, p) in ps {
        if small.iter().any(|s| s == p || s == &(-p)) {
            return Err(format!("{} is a small constant", n));
        }
    }
    for i in 0..ps.len() {
        for j in 0..i {
            let (a, b) = (&ps[i].1, &ps[j].1);
            for q in &[a - b, a + b] {
                if small[..5].iter().any(|s| s == q || s == &(-q)) {
                    return Err(format!("{} and {} are related", ps[j].0, ps[i].0));
                }
            }
            if *a == b + b || *b == a + a {
                return Err(format!("{} and {} are related", ps[j].0, ps[i].0));
            }
        }
    }
    Ok(())
}

pub fn c15(c: &mut Ctx) {
    let idn = G1::identity();
    let B = pt("B");
    for (n, n2) in &[(1usize, 0usize), (1, 1), (2, 0), (2, 1), (3, 2), (0, 1), (0, 3), (4, 3)] {
        let ci = c.sized(1, *n, 2, *n2, (*n2).min(1));
        let bl = c.blinds(1);
        let N = (n + n2).next_power_of_two();
        let names: Vec<&str> = POINTS.iter().cloned().filter(|k| (*n2 > 0 || !k.ends_with('2')) && (*n > 0 || !(k.ends_with('1') && !k.starts_with('T')))).collect();
        c.case(format!("blinding factors, {}+{} multipliers", n, n2), || {
            let gs = Gens { g: idn.clone(), h: B.clone(), G: vec![idn.clone(); N], H: vec![idn.clone(); N] };
            let mut all = vec![];
            for run in 0..2 {
                let (p, _, _) = prove(&ci, &gs, &bl).map_err(e)?;
                let q = Parts::of(&p);
                for k in &names {
                    all.push((format!("{} (proof {})", k, run), q.pt(k)));
                }
            }
            independent(&all, &B)
        });
        let tot = n + n2;
        c.case(format!("blinding vectors, {}+{} multipliers", n, n2), || {
            // the multiples of B in S1 + S2 with single generators set
            let get = |gi: &[(usize, bool, bool)]| -> Result<G1, String> {
                let mut gs = Gens { g: idn.clone(), h: idn.clone(), G: vec![idn.clone(); N], H: vec![idn.clone(); N] };
                for (i, left, neg) in gi {
                    let p = if *neg { -&B } else { B.clone() };
                    if *left {
                        gs.G[*i] = p
                    } else {
                        gs.H[*i] = p
                    }
                }
                let (p, _, _) = prove(&ci, &gs, &bl).map_err(e)?;
                let q = Parts::of(&p);
                Ok(q.pt("S1") + q.pt("S2"))
            };
            let mut all = vec![];
            for i in 0..tot {
                for l in &[true, false] {
                    for run in 0..2 {
                        all.push((format!("blinding of {} of multiplier {} (proof {})", if *l { "left" } else { "right" }, i, run), get(&[(i, *l, false)])?));
                    }
                    for j in 0..tot {
                        for l2 in &[true, false] {
                            if (i, *l) != (j, *l2) && get(&[(i, *l, false), (j, *l2, true)])? == idn {
                                return Err(format!("the blindings of multipliers {} and {} are the same", i, j));
                            }
                        }
                    }
                }
            }
            independent(&all, &B)
        });
    }
    // the verifier's weight: shift t_x_blinding by d and e_blinding by -r*d for predictable r
    let ci = c.sized(1, 1, 2, 0, 0);
    let bl = c.blinds(1);
    let gs = gens(1);
    c.case("verifier's weight is not predictable".into(), || {
        let (p, coms, _) = prove(&ci, &gs, &bl).map_err(e)?;
        verify(&ci, &gs, &coms, &p).0.map_err(e)?;
        let parts = Parts::of(&p);
        let d = fe(5);
        for r in (0..20u64).map(fe).chain((1..20u64).map(|x| -fe(x))) {
            let mut q = parts.clone();
            q.set_sc("t_x_blinding", &(parts.sc("t_x_blinding") + &d));
            q.set_sc("e_blinding", &(parts.sc("e_blinding") - &(&r * &d)));
            if verify(&ci, &gs, &coms, &q.proof()).0.is_ok() {
                return Err(format!("a proof with two wrong openings that cancel for weight {} is accepted", r.to_hex()));
            }
        }
        Ok(())
    });
}
