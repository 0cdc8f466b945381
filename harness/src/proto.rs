//! C01, C02, C03, C05
use crate::circ::*;
use crate::refv::*;
use crate::util::*;
use amcl_wrapper::field_elem::FieldElement;
use amcl_wrapper::group_elem::GroupElement;
use amcl_wrapper::group_elem_g1::G1;
use bulletproofs_amcl::r1cs::*;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub fn e<T: std::fmt::Debug>(x: T) -> String {
    format!("{:?}", x)
}

pub fn c01(c: &mut Ctx) {
    let gs = gens(128);
    for (id, ci) in c.catalogue() {
        let bl = c.blinds(ci.v.len());
        c.case(format!("prove and verify, {}", id), || {
            let (p, coms, _) = prove(&ci, &gs, &bl).map_err(|x| format!("prove: {:?} of {:?}", x, ci))?;
            verify(&ci, &gs, &coms, &p).0.map_err(|x| format!("honest proof of a satisfied circuit rejected: {:?}", x))
        });
    }
    // just enough generators
    for n in &[0usize, 1, 2, 3, 4, 7, 8] {
        let ci = c.sized(1, *n, 2, 0, 0);
        let gs = gens((*n).next_power_of_two());
        let bl = c.blinds(1);
        c.case(format!("exactly enough generators, n={}", n), || {
            let (p, coms, _) = prove(&ci, &gs, &bl).map_err(e)?;
            verify(&ci, &gs, &coms, &p).0.map_err(e)
        });
    }
    // zero blindings, zero values
    for n in 0..3 {
        let mut ci = c.sized(2, n, 3, 1, 1);
        ci.v = vec![F::zero(); 2];
        c.case(format!("zero values and blindings n={}", n), || {
            let (p, coms, _) = prove(&ci, &gens(16), &[F::zero(), F::zero()]).map_err(e)?;
            verify(&ci, &gens(16), &coms, &p).0.map_err(e)
        });
    }
}

fn agree(ci: &Circuit, gs: &Gens, coms: &[G1], parts: &Parts, what: &str) -> Result<(), String> {
    let p = parts.proof();
    let real = verify(ci, gs, coms, &p).0.is_ok();
    let want = match reference(ci, gs, coms, parts).0 {
        Ok((a, b)) => a && b,
        Err(_) => false,
    };
    if real != want {
        return Err(format!("{}: verifier says {}, the protocol's equations say {}", what, real, want));
    }
    Ok(())
}

pub fn tamper(c: &mut Ctx, parts: &Parts) -> Vec<(String, Parts)> {
    let mut out = vec![];
    let r = pt("other");
    for k in &POINTS {
        let mut q = parts.clone();
        q.set_pt(k, &(parts.pt(k) + &r));
        out.push((format!("{} shifted", k), q));
        let mut q = parts.clone();
        q.set_pt(k, &(-parts.pt(k)));
        if parts.pt(k) != G1::identity() {
            out.push((format!("{} negated", k), q));
        }
    }
    for k in &SCALARS {
        let mut q = parts.clone();
        let d = c.nz();
        q.set_sc(k, &(parts.sc(k) + d));
        out.push((format!("{} shifted", k), q));
    }
    for k in &["a", "b"] {
        let mut q = parts.clone();
        let d = c.nz();
        q.set_ab(k, &(parts.ab(k) + d));
        out.push((format!("ipp {} shifted", k), q));
    }
    for k in &["L", "R"] {
        for i in 0..parts.list(k).len() {
            let mut l = parts.list(k);
            l[i] = &l[i] + &r;
            let mut q = parts.clone();
            q.set_list(k, l);
            out.push((format!("ipp {}[{}] shifted", k, i), q));
        }
    }
    out
}

pub fn c02(c: &mut Ctx) {
    let gs = gens(64);
    let cat = c.catalogue();
    for (j, (id, ci)) in cat.into_iter().enumerate() {
        let bl = c.blinds(ci.v.len());
        let got = catch_unwind(AssertUnwindSafe(|| prove(&ci, &gs, &bl)));
        let (p, coms, _) = match got {
            Ok(Ok(x)) => x,
            _ => continue, // completeness is C01's
        };
        let parts = Parts::of(&p);
        c.case(format!("verdict on the prover's proof, {}", id), || agree(&ci, &gs, &coms, &parts, "prover's proof"));
        // every tampered element
        if j % 3 == 0 || c.thorough {
            for (what, q) in tamper(c, &parts) {
                c.case(format!("{} of the proof of {}", what, id), || agree(&ci, &gs, &coms, &q, &what));
            }
        }
        for i in 0..coms.len().min(3) {
            let mut cs2 = coms.clone();
            cs2[i] = &cs2[i] + &pt("other");
            c.case(format!("commitment {} changed, {}", i, id), || agree(&ci, &gs, &cs2, &parts, "changed commitment"));
        }
        // a circuit with one constraint not satisfied, or two whose errors cancel
        for dk in 0..2 {
            let mut bad = ci.clone();
            let mut k = 0;
            let d = c.nz();
            for o in bad.ops.iter_mut().chain(bad.deferred.iter_mut().flat_map(|x| x.iter_mut())) {
                if let Op::Constrain(_, err) = o {
                    if k <= dk {
                        *err = if k == 0 { d.clone() } else { -d.clone() };
                    }
                    k += 1;
                }
            }
            if k <= dk {
                continue;
            }
            c.case(format!("{} unsatisfied constraint(s), {}", dk + 1, id), || match prove(&bad, &gs, &bl) {
                Err(_) => Ok(()),
                Ok((p, coms, _)) => {
                    if verify(&bad, &gs, &coms, &p).0.is_ok() {
                        return Err("accepted a proof of a circuit the witness does not satisfy".to_string());
                    }
                    Ok(())
                }
            });
        }
    }
    // many constraints: errors +d, -d at every pair of nearby positions and at far ones
    for (q, pairs) in &[(6usize, 15usize), (70, 12), (130, 8), (260, 8)] {
        let base = c.sized(1, 2, *q, 0, 0);
        let bl = c.blinds(1);
        for k in 0..*pairs {
            let (i, j) = if *q == 6 {
                let all: Vec<(usize, usize)> = (0..6).flat_map(|i| (i + 1..6).map(move |j| (i, j))).collect();
                all[k]
            } else {
                (c.below(q / 2), q / 2 + c.below(q / 2))
            };
            let mut bad = base.clone();
            let d = c.nz();
            let mut n = 0;
            for o in bad.ops.iter_mut() {
                if let Op::Constrain(_, err) = o {
                    if n == i {
                        *err = d.clone();
                    }
                    if n == j {
                        *err = -d.clone();
                    }
                    n += 1;
                }
            }
            c.case(format!("constraints {} and {} of {} off by opposite amounts", i, j, q), || {
                let (p, coms, _) = prove(&bad, &gs, &bl).map_err(e)?;
                if verify(&bad, &gs, &coms, &p).0.is_ok() {
                    return Err("accepted".to_string());
                }
                Ok(())
            });
        }
    }
}

pub fn c03(c: &mut Ctx) {
    let gs = gens(64);
    for (id, ci) in c.catalogue() {
        let bl = c.blinds(ci.v.len());
        let got = catch_unwind(AssertUnwindSafe(|| prove(&ci, &gs, &bl)));
        let (p, coms, tp) = match got {
            Ok(Ok(x)) => x,
            _ => continue,
        };
        let parts = Parts::of(&p);
        c.case(format!("transcript of both sides, {}", id), || {
            let tv = verify(&ci, &gs, &coms, &p).1;
            let (r, tr) = reference(&ci, &gs, &coms, &parts);
            if tp != tv {
                return Err("prover's and verifier's transcripts differ after an honest run".into());
            }
            if tv != tr {
                return Err("verifier's transcript differs from the documented message sequence".into());
            }
            match r {
                Ok((true, true)) | Err(_) => Ok(()),
                Ok(x) => Err(format!("the proof does not satisfy the protocol's equations (t, ipp) = {:?} under the documented challenges", x)),
            }
        });
        // any change of a proof element changes the verifier's transcript
        for (what, q) in tamper(c, &parts) {
            if what.starts_with("ipp a") || what.starts_with("ipp b") {
                continue;
            }
            c.case(format!("{}: later challenges change, {}", what, id), || {
                if verify(&ci, &gs, &coms, &q.proof()).1 == tp {
                    return Err("an element of the proof was changed and the verifier's challenges did not change".into());
                }
                Ok(())
            });
        }
    }
}

pub fn c05(c: &mut Ctx) {
    let sizes: &[usize] = if c.thorough { &[0, 1, 2, 3, 4, 5, 8, 9] } else { &[0, 1, 2, 3, 5] };
    for n in sizes {
        for two in 0..2 {
            let ci = c.sized(1, *n, 2, two, two);
            let tot = n + two;
            let N = tot.next_power_of_two();
            let gs = gens(N + 1);
            let bl = c.blinds(1);
            let (p, coms, _) = match catch_unwind(AssertUnwindSafe(|| prove(&ci, &gs, &bl))) {
                Ok(Ok(x)) => x,
                _ => {
                    c.fail(format!("prove n={} two={}", n, two), "no proof of a satisfied circuit".into());
                    continue;
                }
            };
            let parts = Parts::of(&p);
            let k = parts.list("L").len();
            let mut lens: Vec<(usize, usize)> = vec![];
            for a in 0..6 {
                for b in 0..6 {
                    lens.push((a, b));
                }
            }
            for a in &[31, 32, 33, 40, 63, 64, 65, 70] {
                lens.push((*a, *a));
                lens.push((*a, k));
                lens.push((k, *a));
            }
            for (a, b) in lens {
                if a == k && b == k {
                    continue;
                }
                let mut q = parts.clone();
                let mut mk = |f: &str, n: usize| {
                    let mut l = parts.list(f);
                    while l.len() < n {
                        l.push(pt("extra"));
                    }
                    l.truncate(n);
                    q.set_list(f, l);
                };
                mk("L", a);
                mk("R", b);
                c.case(format!("n={} two={} rounds {}: {} L points, {} R points", tot, two, k, a, b), || {
                    if verify(&ci, &gs, &coms, &q.proof()).0.is_ok() {
                        return Err("accepted".into());
                    }
                    Ok(())
                });
            }
            for (a, b) in &[(0, 0), (0, N), (N, 0), (N - 1, N), (N, N - 1), (N - 1, N - 1), (N - 1, N + 1), (N + 1, N - 1), (N / 2, N), (N, N / 2)] {
                if *a >= N && *b >= N {
                    continue;
                }
                let small = Gens { g: gs.g.clone(), h: gs.h.clone(), G: gs.G[..*a].to_vec(), H: gs.H[..*b].to_vec() };
                c.case(format!("verify n={} two={}: {} G and {} H generators", tot, two, a, b), || {
                    if verify(&ci, &small, &coms, &p).0.is_ok() {
                        return Err("accepted".into());
                    }
                    Ok(())
                });
                c.case(format!("prove n={} two={}: {} G and {} H generators", tot, two, a, b), || {
                    if prove(&ci, &small, &bl).is_ok() {
                        return Err("made a proof".into());
                    }
                    Ok(())
                });
            }
        }
    }
}
