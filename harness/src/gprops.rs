//! C08 - C14, C17 and the gadget parts of C05 and C15
use crate::circ::*;
use crate::gad::Gd::*;
use crate::gad::*;
use crate::misc::independent;
use crate::proto::e;
use crate::refv::*;
use crate::util::*;
use amcl_wrapper::field_elem::{FieldElement, FieldElementVector};
use amcl_wrapper::group_elem::GroupElement;
use amcl_wrapper::group_elem_g1::G1;
use bulletproofs_amcl::errors::R1CSError;
use bulletproofs_amcl::r1cs::gadgets::helper_constraints::mimc::*;
use bulletproofs_amcl::r1cs::gadgets::helper_constraints::poseidon::*;
use bulletproofs_amcl::r1cs::gadgets::helper_constraints::sparse_merkle_tree_4_ary::*;
use bulletproofs_amcl::r1cs::gadgets::helper_constraints::sparse_merkle_tree_8_ary::*;
use bulletproofs_amcl::r1cs::gadgets::poseidon_hash::*;
use bulletproofs_amcl::r1cs::gadgets::randomizer::*;
use bulletproofs_amcl::r1cs::*;
use bulletproofs_amcl::utils::hash_db::*;
use merlin::Transcript;
use serde_json::Value;
use std::collections::{HashMap, HashSet};

pub fn dec(s: &str) -> F {
    let neg = s.starts_with('-');
    let mut r = F::zero();
    let ten = fe(10);
    for c in s.trim_start_matches('-').bytes() {
        r = &(&r * &ten) + &fe((c - b'0') as u64);
    }
    if neg {
        -r
    } else {
        r
    }
}
fn jf(v: &Value) -> F {
    match v {
        Value::String(s) => dec(s),
        v => dec(&v.to_string()),
    }
}
fn jl(v: &Value) -> Vec<F> {
    v.as_array().map(|a| a.iter().map(jf).collect()).unwrap_or_default()
}
fn ju(v: &Value) -> u64 {
    match v {
        Value::String(s) => s.parse().unwrap_or(0),
        v => v.as_u64().unwrap_or(0),
    }
}
fn jpp(x: &Value) -> Pp {
    Pp { w: ju(&x["w"]) as usize, fb: ju(&x["fb"]) as usize, fe: ju(&x["fe"]) as usize, pr: ju(&x["pr"]) as usize, rk: jl(&x["rk"]), mds: x["mds"].as_array().map(|a| a.iter().map(jl).collect()).unwrap_or_default() }
}
fn jsb(x: &Value) -> Sb {
    match x["sbox"].as_str() {
        Some("Cube") => Sb::Cube,
        Some("Inverse") => Sb::Inverse,
        _ => Sb::Quint,
    }
}
fn parse(x: &Value) -> Option<Gd> {
    let v = jf(&x["v"]);
    Some(match x["gadget"].as_str()? {
        "bit" => Bit { v },
        "positive" => Positive { v, n: ju(&x["n"]) as usize },
        "bound" => Bound { v, lo: ju(&x["min"]), up: ju(&x["max"]), n: ju(&x["n"]) as usize },
        "nonzero" => NonZero { v },
        "member" => Member { v, set: jl(&x["set"]) },
        "member_alt" => Alt { v, set: x["set"].as_array()?.iter().map(ju).collect() },
        "nonmember" => NonMember { v, set: jl(&x["set"]) },
        "hamming" if x.get("orig").is_some() => Hamming { orig: jl(&x["orig"]), new: jl(&x["new"]), count: ju(&x["count"]) },
        "mimc" if x.get("x").is_some() => Mimc { x: jl(&x["x"]), cs: jl(&x["consts"]), img: jf(&x["img"]) },
        "poseidon" if x.get("x").is_some() && x.get("k").is_some() => Pose { x: jl(&x["x"]), pp: jpp(x), s: jsb(x), img: jf(&x["img"]) },
        "merkle" if x.get("siblings").is_some() => Merkle {
            ar: ju(&x["arity"]) as usize,
            depth: ju(&x["depth"]) as usize,
            leaf: jf(&x["leaf"]),
            index: jf(&x["index"]),
            sib: x["siblings"].as_array()?.iter().map(jl).collect(),
            root: jf(&x["img"]),
            pp: jpp(x),
            s: jsb(x),
        },
        _ => return None,
    })
}
fn fits(g: &Gd) -> bool {
    match g {
        Bound { v, .. } | Alt { v, .. } => small(v).is_some(),
        _ => true,
    }
}
/// the verifier's counterexamples, on the real code
pub fn replay(c: &mut Ctx, gs: &Gens) {
    let list = c.cex.as_array().cloned().unwrap_or_default();
    for item in list {
        let x = &item["cex"];
        let g = match std::panic::catch_unwind(|| parse(x)) {
            Ok(Some(g)) => g,
            _ => continue,
        };
        match x["kind"].as_str() {
            Some("evil") => {
                let (mut V, L, R) = (jl(&x["V"]), jl(&x["L"]), jl(&x["R"]));
                V.truncate(g.honest().len());
                g.sound(c, &V, &L, &R, gs, &format!("counterexample of {}", item["obligation"]));
            }
            Some("honest") if fits(&g) && g.truth(&g.honest()) => g.complete(c, gs),
            _ => {}
        }
    }
}

fn range(c: &mut Ctx) -> Vec<Gd> {
    let mut v = vec![];
    for (lo, up, n) in &[(3u64, 10u64, 3usize), (0, 255, 8), (7, 7, 1), (0, 0, 0), (0, 1, 1), (1u64 << 63, u64::max_value(), 63), (10, 1000, 10), (5, 36, 5), (100, 163, 6), (0, u64::max_value(), 64), (0, (1 << 32) - 1, 32)] {
        let mut xs = vec![*lo, *up, lo + (up - lo) / 2, lo + (up - lo) / 3];
        if up > lo {
            xs.push(lo + 1);
            xs.push(up - 1);
        }
        for b in 0..*n {
            if up - lo >= 1 << b && b < 63 && (b % 7 == 0 || b + 1 == *n) {
                xs.push(lo + (1 << b));
                xs.push(up - (1 << b));
            }
        }
        xs.push(lo + c.below(((up - lo).min(1 << 40) + 1) as usize) as u64);
        xs.sort();
        xs.dedup();
        for x in xs {
            v.push(Bound { v: fe(x), lo: *lo, up: *up, n: *n });
        }
    }
    v
}
pub fn c08(c: &mut Ctx) {
    let gs = gens(130);
    replay(c, &gs);
    for g in range(c) {
        g.complete(c, &gs);
        if let Bound { lo, up, n, .. } = &g {
            for x in &[fe(*lo) - fe(1), fe(*up) + fe(1), -fe(*up), fe(*up) + fe(*lo) + fe(2), c.nz()] {
                let b = Bound { v: x.clone(), lo: *lo, up: *up, n: *n };
                b.sound(c, &b.honest(), &[], &[], &gs, "honest assignment");
                // sums that wrap, swapped auxiliaries, auxiliaries of another value
                let y = fe(*lo);
                b.sound(c, &[x.clone(), &y - &fe(*lo), &fe(*up) - &y], &[], &[], &gs, "auxiliaries of another value");
                b.sound(c, &[x.clone(), x - &fe(*lo), &fe(*up) - &y], &[], &[], &gs, "auxiliaries of another value");
                b.sound(c, &[x.clone(), &y - &fe(*lo), &fe(*up) - x], &[], &[], &gs, "auxiliaries of another value");
            }
        }
    }
    for x in 0..2 {
        Bit { v: fe(x) }.complete(c, &gs);
    }
    for x in &[fe(2), -fe(1), fe(3), c.nz()] {
        let b = Bit { v: x.clone() };
        b.sound(c, &[x.clone()], &[], &[], &gs, "honest assignment");
        for (l, r) in &[(fe(1) - x, x.clone()), (F::zero(), x.clone()), (fe(1), F::zero()), (F::zero(), F::zero()), (F::zero(), fe(1)), (fe(1) - x, F::zero())] {
            b.sound(c, &[x.clone()], &[l.clone()], &[r.clone()], &gs, "chosen multiplier");
        }
    }
    for n in &[0usize, 1, 2, 3, 7, 8, 16, 31, 32, 33, 63, 64] {
        let top = if *n == 64 { u64::max_value() } else { (1u64 << n) - 1 };
        for x in &[0, top, top / 2, top - top / 3] {
            Positive { v: fe(*x), n: *n }.complete(c, &gs);
        }
        for x in &[fe(top) + fe(1), -fe(1), &fe(top) * &fe(2) + fe(2), c.nz()] {
            let g = Positive { v: x.clone(), n: *n };
            g.sound(c, &[x.clone()], &[], &[], &gs, "honest assignment");
            // the bits of the value with all the excess in one of them
            for k in 0..*n {
                if k % 9 != 0 && k + 1 != *n {
                    continue;
                }
                // bit i is r_i (right of multiplier i), left = 1 - bit, for either bit order
                for rev in &[false, true] {
                    let w = |i: usize| (0..i).fold(F::one(), |a, _| &a * &fe(2));
                    let mut bits = vec![F::zero(); *n];
                    bits[k] = x * &w(k).inverse();
                    if *rev {
                        bits.reverse();
                    }
                    let l: Vec<F> = bits.iter().map(|b| &F::one() - b).collect();
                    g.sound(c, &[x.clone()], &l, &bits, &gs, "non-bit digit");
                    g.sound(c, &[x.clone()], &bits, &l, &gs, "non-bit digit");
                }
            }
        }
    }
}

pub fn sets(c: &mut Ctx) -> Vec<Gd> {
    let mut v = vec![];
    for n in 1..=10usize {
        if !c.thorough && ![1, 2, 3, 4, 6].contains(&n) {
            continue;
        }
        let set: Vec<F> = (0..n).map(|_| c.nz()).collect();
        for k in 0..n {
            v.push(Member { v: set[k].clone(), set: set.clone() });
        }
        let us: Vec<u64> = (0..n).map(|i| (i * i * 7 + 3 * i) as u64 + if i == 3 { 1 << 50 } else if i == 2 { u64::max_value() - 999 } else { 0 }).collect();
        for k in 0..n {
            v.push(Alt { v: fe(us[k]), set: us.clone() });
        }
        for _ in 0..3 {
            v.push(NonMember { v: c.nz(), set: set.clone() });
        }
        v.push(NonMember { v: F::zero(), set: set.clone() });
        let mut z = set.clone();
        z[n - 1] = F::zero();
        v.push(NonMember { v: fe(1), set: z.clone() });
        v.push(Member { v: F::zero(), set: z });
    }
    for k in 0..4 {
        v.push(NonZero { v: c.nz() });
        v.push(NonZero { v: if k % 2 == 0 { fe(k + 1) } else { -fe(k) } });
    }
    v
}
pub fn c09(c: &mut Ctx) {
    let gs = gens(64);
    replay(c, &gs);
    for g in sets(c) {
        g.complete(c, &gs);
        let honest = g.honest();
        // the same auxiliaries for another value, the honest auxiliaries of a false value, single auxiliaries changed
        let vi = g.given()[0];
        let mut bad: Vec<F> = vec![c.nz(), F::zero(), &honest[vi] + &F::one(), -&honest[vi]];
        match &g {
            Member { set, .. } | NonMember { set, .. } => {
                bad.extend_from_slice(set);
                if set.len() > 1 {
                    bad.push(&set[0] + &set[1]);
                    bad.push(&set[0] * &set[1]);
                }
            }
            Alt { set, .. } => {
                bad.push(fe(set.iter().map(|x| *x).fold(0, |a, b| a ^ b)));
                if set.len() > 1 {
                    bad.push(fe(set[0]) + fe(set[1]));
                    bad.push(fe(set[0]) + fe(set[set.len() - 1]));
                }
            }
            _ => {}
        }
        for b in bad {
            let mut V = honest.clone();
            V[vi] = b.clone();
            g.sound(c, &V, &[], &[], &gs, "auxiliaries of another value");
            let g2 = match &g {
                Member { set, .. } => Member { v: b.clone(), set: set.clone() },
                Alt { set, .. } => Alt { v: b.clone(), set: set.clone() },
                NonMember { set, .. } => NonMember { v: b.clone(), set: set.clone() },
                _ => NonZero { v: b.clone() },
            };
            let h2_ = g2.honest();
            g2.sound(c, &h2_, &[], &[], &gs, "honest assignment");
            for i in 0..h2_.len() {
                if i == vi {
                    continue;
                }
                for y in &[F::zero(), F::one(), -F::one()] {
                    let mut V = h2_.clone();
                    V[i] = y.clone();
                    g2.sound(c, &V, &[], &[], &gs, "one auxiliary changed");
                    if i + 1 < h2_.len() && i + 1 != vi {
                        V[i + 1] = F::one();
                        g2.sound(c, &V, &[], &[], &gs, "two auxiliaries changed");
                    }
                }
            }
            if let Alt { set, .. } = &g2 {
                // indicator of two elements, or an indicator weight that is no bit
                for i in 0..set.len() {
                    if set[i] == 0 {
                        continue;
                    }
                    let mut V = vec![F::zero(); set.len()];
                    V[i] = &b * &fe(set[i]).inverse();
                    V.push(b.clone());
                    g2.sound(c, &V, &[], &[], &gs, "indicator that is no bit");
                    for j in 0..i {
                        let mut V = vec![F::zero(); set.len()];
                        V[i] = F::one();
                        V[j] = F::one();
                        V.push(fe(set[i]) + fe(set[j]));
                        g2.sound(c, &V, &[], &[], &gs, "two indicators");
                    }
                }
                let mut V = vec![F::zero(); set.len()];
                V.push(F::zero());
                g2.sound(c, &V, &[], &[], &gs, "no indicator");
            }
        }
        if c.fails > 5 {
            return;
        }
    }
}

pub fn hams(c: &mut Ctx) -> Vec<Gd> {
    let mut v = vec![];
    for n in 1..=9usize {
        for k in 0..4 {
            let new: Vec<F> = (0..n).map(|_| c.f()).collect();
            let mut orig = new.clone();
            let mut cnt = 0;
            for i in 0..n {
                if k > 0 && (k == 3 || c.below(2) == 0) {
                    orig[i] = &orig[i] + &c.nz();
                    cnt += 1;
                }
            }
            v.push(Hamming { orig, new, count: cnt });
        }
    }
    v
}
pub fn c10(c: &mut Ctx) {
    let gs = gens(64);
    replay(c, &gs);
    for g in hams(c) {
        g.complete(c, &gs);
        if let Hamming { orig, new, count } = &g {
            for k in &[0, count + 1, count.wrapping_sub(1), new.len() as u64, 2 * count + 1, u64::max_value()] {
                let b = Hamming { orig: orig.clone(), new: new.clone(), count: *k };
                b.sound(c, orig, &[], &[], &gs, "honest assignment");
                c.case(format!("verifier with another count {} instead of {}, n={}", k, count, new.len()), || {
                    if k == count {
                        return Ok(());
                    }
                    let (p, coms) = g.gen(None, &gs).map_err(e)?;
                    if b.ver(&p, &coms, &gs).is_ok() {
                        return Err("accepted".into());
                    }
                    Ok(())
                });
            }
            for i in 0..new.len() {
                let mut n2 = new.clone();
                n2[i] = if orig[i] == new[i] { &n2[i] + &F::one() } else { orig[i].clone() };
                let b = Hamming { orig: orig.clone(), new: n2, count: *count };
                b.sound(c, orig, &[], &[], &gs, "another public vector");
            }
            for d in &[-1i32, 1, 2] {
                let l = new.len() as i32 + d;
                if l < 0 {
                    continue;
                }
                let mut n2 = new.clone();
                n2.resize(l as usize, F::zero());
                let b = Hamming { orig: orig.clone(), new: n2.clone(), count: *count };
                c.case(format!("{} committed, {} public values", orig.len(), l), || {
                    if b.gen(None, &gs).is_ok() {
                        return Err("the prover accepts vectors of different lengths".into());
                    }
                    let (p, coms) = g.gen(None, &gs).map_err(e)?;
                    if b.ver(&p, &coms, &gs).is_ok() {
                        return Err("the verifier accepts vectors of different lengths".into());
                    }
                    Ok(())
                });
            }
        }
    }
}

pub fn pp(c: &mut Ctx, w: usize, fb: usize, fe: usize, pr: usize) -> Pp {
    Pp { w, fb, fe, pr, rk: (0..(fb + fe + pr) * w).map(|_| c.nz()).collect(), mds: (0..w).map(|_| (0..w).map(|_| c.nz()).collect()).collect() }
}
/// digest of the constant tables on the pinned commit, per width
const TABLES: [(usize, &str); 3] = [(3, "189 3 0000000000000000000000000000000027BCC0C2BF22E82CBDDB76AFC03D4A805F61B51477B7AD305FC6DF6CD39FE2D0"), (5, "320 5 0000000000000000000000000000000004991B3845237C7118108CC468D1EA3E767F7E3023A122B290E53530322C1C81"), (9, "576 9 000000000000000000000000000000004DD841E6B6DB89DDE37D54BBB454A25EA3A21119CED725C96791C9EA31397EDB")];
fn table(w: usize) -> String {
    let p = PoseidonParams::new(w, 4, 4, if w == 3 { 55 } else { 56 });
    let mut b = vec![];
    for k in &p.round_keys {
        b.extend_from_slice(&k.to_bytes());
    }
    for r in &p.MDS_matrix {
        for k in r {
            b.extend_from_slice(&k.to_bytes());
        }
    }
    format!("{} {} {}", p.round_keys.len(), p.MDS_matrix.len(), h2(&b).to_hex())
}
pub fn hashes(c: &mut Ctx) -> Vec<Gd> {
    let mut v = vec![];
    for r in 0..9usize {
        let cs: Vec<F> = (0..r).map(|_| c.nz()).collect();
        let x = vec![c.f(), c.nz()];
        v.push(Mimc { img: mimc_ref(&x[0], &x[1], &cs), x, cs });
    }
    for k in &[2usize, 4, 8] {
        for s in &[Sb::Cube, Sb::Quint, Sb::Inverse] {
            for (fb, fe_, pr) in &[(1usize, 1usize, 1usize), (2, 1, 0), (0, 2, 2), (2, 2, 3), (1, 0, 1), (0, 1, 0), (0, 0, 1)] {
                if *k == 8 && fb + fe_ + pr > 3 {
                    continue;
                }
                let p = pp(c, k + 1, *fb, *fe_, *pr);
                let x: Vec<F> = (0..*k).map(|i| if i == 1 { c.f() } else { c.nz() }).collect();
                v.push(Pose { img: p.hash(&x, *s), x, pp: p, s: *s });
            }
        }
    }
    v
}
pub fn c11(c: &mut Ctx) {
    let gs = gens(256);
    for x in c.cex.as_array().cloned().unwrap_or_default() {
        let x = &x["cex"];
        if x["gadget"] == "poseidon" && x["kind"] == "native" && x.get("x").is_some() {
            let (p, s, xs) = (jpp(x), jsb(x), jl(&x["x"]));
            native(c, &p, s, &xs, "counterexample");
        }
    }
    replay(c, &gs);
    for (w, d) in &TABLES {
        c.case(format!("constants for width {}", w), || {
            let t = table(*w);
            if t != *d {
                return Err(format!("the tables are not the published ones: {}", t));
            }
            Ok(())
        });
    }
    for r in 0..40usize {
        let cs: Vec<F> = (0..r).map(|_| c.f()).collect();
        let (x, y) = (c.f(), c.f());
        c.case(format!("mimc with {} rounds", r), || {
            if mimc(&x, &y, &cs, r) != mimc_ref(&x, &y, &cs) {
                return Err(format!("not the documented function on {:?} {:?}", x, y));
            }
            Ok(())
        });
    }
    for w in &[3usize, 5, 9] {
        for s in &[Sb::Cube, Sb::Quint, Sb::Inverse] {
            for (a, b, d) in &[(1, 1, 1), (2, 1, 0), (1, 2, 3), (4, 4, 5), (0, 1, 2), (0, 0, 2), (4, 4, 30), (1, 1, 60)] {
                let p = pp(c, *w, *a, *b, *d);
                let x: Vec<F> = (0..*w).map(|_| c.f()).collect();
                native(c, &p, *s, &x, "random");
            }
        }
    }
    for g in hashes(c) {
        g.complete(c, &gs);
        let mut bad = vec![];
        match &g {
            Mimc { x, cs, img } => {
                bad.push(Mimc { x: x.clone(), cs: cs.clone(), img: img + &F::one() });
                bad.push(Mimc { x: vec![x[1].clone(), x[0].clone()], cs: cs.clone(), img: img.clone() });
            }
            Pose { x, pp, s, img } => {
                bad.push(Pose { x: x.clone(), pp: pp.clone(), s: *s, img: img + &F::one() });
                bad.push(Pose { x: x.clone(), pp: pp.clone(), s: *s, img: F::zero() });
                for i in 0..x.len() {
                    let mut y = x.clone();
                    y[i] = &y[i] + &F::one();
                    bad.push(Pose { x: y, pp: pp.clone(), s: *s, img: img.clone() });
                }
            }
            _ => {}
        }
        for b in bad {
            let V = b.honest();
            b.sound(c, &V, &[], &[], &gs, "honest assignment");
        }
    }
}
fn native(c: &mut Ctx, p: &Pp, s: Sb, x: &[F], what: &str) {
    c.case(format!("{} native Poseidon width {} rounds {}/{}/{} {:?}", what, p.w, p.fb, p.pr, p.fe, s), || {
        let xs: Vec<F> = if x.len() == p.w { x.to_vec() } else { std::iter::once(F::zero()).chain(x.iter().cloned()).collect() };
        let got = Poseidon_permutation(&xs, &p.p(), &sb(s));
        if got != p.perm(&xs, s) {
            return Err(format!("Poseidon_permutation is not the documented function on {:?}", hex(&xs)));
        }
        let y = &xs[1..];
        let got = match p.w {
            3 => Poseidon_hash_2(y[0].clone(), y[1].clone(), &p.p(), &sb(s)),
            5 => Poseidon_hash_4(y.to_vec(), &p.p(), &sb(s)),
            9 => Poseidon_hash_8(y.to_vec(), &p.p(), &sb(s)),
            _ => return Ok(()),
        };
        if got != p.hash(y, s) {
            return Err(format!("the hash is not the documented function on {:?}", hex(y)));
        }
        Ok(())
    });
}

pub fn merkles(c: &mut Ctx, dmax: usize) -> Vec<Gd> {
    let mut v = vec![];
    for ar in &[4usize, 8] {
        for depth in 1..=dmax {
            for s in &[Sb::Quint, Sb::Cube, Sb::Inverse] {
                if *s != Sb::Quint && depth > 2 {
                    continue;
                }
                let p = pp(c, ar + 1, 1, 0, 1);
                let top = (*ar as u64).pow(depth as u32);
                for k in 0..if depth == 1 { top } else { 5 } {
                    let idx = match k {
                        0 => 0,
                        1 => top - 1,
                        2 if depth > 1 => top / *ar as u64,
                        _ if depth == 1 => k,
                        _ => c.below(top as usize) as u64,
                    };
                    let (leaf, index) = (c.f(), fe(idx));
                    let sib: Vec<Vec<F>> = (0..depth).map(|_| (0..ar - 1).map(|_| c.nz()).collect()).collect();
                    v.push(Merkle { ar: *ar, depth, root: merkle_root(*ar, depth, &leaf, &index, &sib, &p, *s), leaf, index, sib, pp: p.clone(), s: *s });
                }
            }
        }
    }
    v
}
pub fn c12(c: &mut Ctx) {
    let gs = gens(512);
    replay(c, &gs);
    let d = if c.thorough { 6 } else { 4 };
    for (k, g) in merkles(c, d).into_iter().enumerate() {
        g.complete(c, &gs);
        if k % 4 != 0 && !c.thorough {
            continue;
        }
        if let Merkle { ar, depth, leaf, index, sib, root, pp, s } = &g {
            let top = fe((*ar as u64).pow(*depth as u32));
            let mk = |leaf: &F, index: &F, sib: &Vec<Vec<F>>, root: &F| Merkle { ar: *ar, depth: *depth, leaf: leaf.clone(), index: index.clone(), sib: sib.clone(), root: root.clone(), pp: pp.clone(), s: *s };
            let mut bad = vec![
                mk(&(leaf + &F::one()), index, sib, root),
                mk(leaf, index, sib, &(root + &F::one())),
                mk(leaf, &(index + &top), sib, root),
                mk(leaf, &(index + &(&top * &fe(5))), sib, root),
                mk(leaf, &-fe(1), sib, root),
            ];
            for i in 0..*ar as u64 {
                bad.push(mk(leaf, &(index + &fe(i + 1)), sib, root));
            }
            for l in 0..*depth {
                let mut s2 = sib.clone();
                let k = c.below(ar - 1);
                s2[l][k] = &s2[l][k] + &F::one();
                bad.push(mk(leaf, index, &s2, root));
                if *ar > 2 {
                    let mut s2 = sib.clone();
                    s2[l].swap(0, 1);
                    bad.push(mk(leaf, index, &s2, root));
                }
            }
            for b in bad {
                let V = b.honest();
                b.sound(c, &V, &[], &[], &gs, "honest assignment");
            }
            // honest multipliers of the true statement, another committed index
            for i in 0..3u64 {
                let mut V = g.honest();
                V[1] = &V[1] + &fe(i + 1);
                let w = wit(&g);
                g.sound(c, &V, &w.0, &w.1, &gs, "witness of another index");
                let mut V = g.honest();
                V[1] = &V[1] + &(&top * &fe(i + 1));
                g.sound(c, &V, &w.0, &w.1, &gs, "witness of another index");
            }
            // sibling lists of another length
            for n in &[depth - 1, depth + 1] {
                let mut s2 = sib.clone();
                s2.resize(*n, sib[0].clone());
                let b = mk(leaf, index, &s2, root);
                c.case(format!("{} levels of siblings for depth {}, arity {}", n, depth, ar), || {
                    if b.gen(None, &gs).is_ok() {
                        return Err("the prover accepts it".into());
                    }
                    let (p, coms) = g.gen(None, &gs).map_err(e)?;
                    let k = 2 + n * (ar - 1);
                    let mut cs = coms.clone();
                    cs.resize(k, pt("x"));
                    if g.ver(&p, &cs, &gs).is_ok() {
                        return Err("the verifier accepts it".into());
                    }
                    Ok(())
                });
            }
        }
    }
}
/// multiplier values of the honest prover
fn wit(g: &Gd) -> (Vec<F>, Vec<F>) {
    let mut r = crate::cs::Rec::new(true);
    let vals = g.honest();
    let vars: Vec<Variable> = vals.iter().map(|x| r.commit(Some(x))).collect();
    let st = if g.statics() > 0 { vec![r.commit(Some(&F::zero()))] } else { vec![] };
    let _ = g.build(&mut r, &vars, st, Some(&vals));
    (r.al.clone(), r.ar.clone())
}

macro_rules! tree {
    ($c:expr, $ar:expr, $T:ident, $D:ty, $P:ty, $repr:ident, $maxd:expr) => {{
        for depth in 1..=$maxd {
            let pq = pp($c, $ar + 1, 1, 1, 1);
            let p = pq.p();
            let top = (0..depth).fold(1u64, |a, _| a.saturating_mul($ar as u64));
            let mut runs: Vec<Vec<(F, F)>> = vec![vec![]];
            for x in $c.cex.as_array().cloned().unwrap_or_default() {
                let x = &x["cex"];
                if x["gadget"] == "smt" && x["arity"] == $ar && x["depth"] == depth {
                    if let Some(h) = x["history"].as_array() {
                        runs.push(h.iter().map(|e| (jf(&e[0]), jf(&e[1]))).collect());
                    }
                }
            }
            for k in 0..6usize {
                let n = 1 + $c.below(10);
                let mut hist: Vec<(F, F)> = vec![];
                for j in 0..n {
                    let i = if j > 0 && $c.below(3) == 0 { hist[$c.below(j)].0.clone() } else { fe($c.below(top.min(1 << 40) as usize) as u64) };
                    let v = match $c.below(5) {
                        0 => F::zero(),
                        1 if j > 0 => hist[$c.below(j)].1.clone(),
                        2 => fe(k as u64),
                        _ => $c.nz(),
                    };
                    hist.push((i, v));
                }
                if k == 5 {
                    // fill the neighbourhood of the last index, then clear it
                    let b = top - (top.min($ar as u64 * 2));
                    for i in b..top {
                        hist.push((fe(i), fe(i + 1)));
                    }
                    for i in b..top {
                        hist.push((fe(i), F::zero()));
                    }
                }
                runs.push(hist);
            }
            for hist in runs {
                $c.case(format!("{}-ary tree of depth {}, history {:?}", $ar, depth, hist.iter().map(|(a, b)| (a.to_hex(), b.to_hex())).collect::<Vec<_>>()), || {
                    let mut db = InMemoryHashDb::<$D>::new();
                    let mut t = $T::new(&p, depth, &mut db);
                    let empty = t.root.clone();
                    let mut model: HashMap<F, F> = HashMap::new();
                    let mut roots: Vec<(F, HashMap<F, F>)> = vec![(empty.clone(), model.clone())];
                    // the iterated hash of zeros
                    let mut z = F::zero();
                    for _ in 0..depth {
                        z = pq.hash(&vec![z.clone(); $ar], Sb::Quint);
                    }
                    if z != empty {
                        return Err("root of the fresh tree".into());
                    }
                    for (i, v) in &hist {
                        let r = t.update(i, v.clone(), &mut db).map_err(|x| format!("update: {:?}", x))?;
                        if r != t.root {
                            return Err("update returns another root than it stores".into());
                        }
                        if v.is_zero() {
                            model.remove(i);
                        } else {
                            model.insert(i.clone(), v.clone());
                        }
                        for (r, m) in &roots {
                            if (*r == t.root) != (*m == model) {
                                return Err(format!("roots equal: {}, contents equal: {}", *r == t.root, *m == model));
                            }
                        }
                        roots.push((t.root.clone(), model.clone()));
                    }
                    let mut probes: Vec<F> = hist.iter().map(|x| x.0.clone()).collect();
                    probes.extend_from_slice(&[fe(0), fe(top - 1), fe(top / 2), fe(1 % top)]);
                    for i in &probes {
                        let want = model.get(i).cloned().unwrap_or_else(F::zero);
                        let mut pr = Some(Vec::<$P>::new());
                        let got = t.get(i, &mut pr, &db).map_err(|x| format!("get: {:?}", x))?;
                        if got != want {
                            return Err(format!("index {} reads {}, last written {}", i.to_hex(), got.to_hex(), want.to_hex()));
                        }
                        if t.get(i, &mut None, &db).map_err(e)? != want {
                            return Err("get without proof".into());
                        }
                        let pr = pr.unwrap();
                        if pr.len() != depth {
                            return Err(format!("proof of {} levels", pr.len()));
                        }
                        if !t.verify_proof(i, &got, &pr, None) || !t.verify_proof(i, &got, &pr, Some(&t.root)) {
                            return Err("the returned proof does not verify".into());
                        }
                        let sib: Vec<Vec<F>> = pr.iter().map(|x| x.to_vec()).collect();
                        if merkle_root($ar, depth, &got, i, &sib, &pq, Sb::Quint) != t.root {
                            return Err("the returned proof is not the siblings of the path".into());
                        }
                        if t.verify_proof(i, &(&got + &F::one()), &pr, None) || t.verify_proof(i, &got, &pr, Some(&(&t.root + &F::one()))) {
                            return Err("a wrong value or root verifies".into());
                        }
                        for l in 0..depth {
                            for k in 0..$ar - 1 {
                                let mut q = pr.clone();
                                q[l][k] = &q[l][k] + &F::one();
                                if t.verify_proof(i, &got, &q, None) {
                                    return Err(format!("a wrong sibling {} at level {} verifies", k, l));
                                }
                            }
                        }
                        for j in &probes {
                            let (a, b) = (digits(i, $ar, depth).0, digits(j, $ar, depth).0);
                            if a != b && t.verify_proof(j, &got, &pr, None) {
                                // only legitimate if the siblings make it true
                                let sib2: Vec<Vec<F>> = sib.clone();
                                if merkle_root($ar, depth, &got, j, &sib2, &pq, Sb::Quint) != t.root {
                                    return Err("the proof verifies for another index".into());
                                }
                            }
                        }
                    }
                    Ok(())
                });
            }
            for x in &[0u64, 1, 5, top - 1, top / 3, 123456789 % top] {
                $c.case(format!("digits of {} in {} base-{} digits", x, depth, $ar), || {
                    let got: Vec<usize> = $repr(&fe(*x), depth).iter().map(|d| *d as usize).collect();
                    if got != digits(&fe(*x), $ar, depth).0 {
                        return Err(format!("{:?}", got));
                    }
                    let got: Vec<usize> = $T::leaf_index_to_path(&fe(*x), depth).iter().map(|d| *d as usize).collect();
                    if got != digits(&fe(*x), $ar, depth).0 {
                        return Err(format!("path {:?}", got));
                    }
                    Ok(())
                });
            }
        }
    }};
}
pub fn c13(c: &mut Ctx) {
    tree!(c, 4usize, VanillaSparseMerkleTree_4, DBVal_4_ary, ProofNode_4_ary, get_base_4_repr, 12usize);
    tree!(c, 8usize, VanillaSparseMerkleTree_8, DBVal_8_ary, ProofNode_8_ary, get_base_8_repr, 9usize);
    c.case("node store".into(), || {
        let mut db = InMemoryHashDb::<u64>::new();
        for i in 0..50u64 {
            db.insert(vec![i as u8; (i % 5) as usize + 1], i);
        }
        for i in 0..50u64 {
            if db.get(&vec![i as u8; (i % 5) as usize + 1]).ok() != Some(i) {
                return Err("a stored value is not found".into());
            }
        }
        if db.get(&[200]).is_ok() {
            return Err("a missing key is found".into());
        }
        Ok(())
    });
    c.case("missing nodes".into(), || {
        let pq = Pp { w: 5, fb: 1, fe: 0, pr: 0, rk: (0..5).map(fe).collect(), mds: (0..5).map(|i| (0..5).map(|j| fe(i * 7 + j + 1)).collect()).collect() };
        let p = pq.p();
        let mut db = InMemoryHashDb::<DBVal_4_ary>::new();
        let mut t = VanillaSparseMerkleTree_4::new(&p, 3, &mut db);
        let r = t.root.clone();
        let mut other = InMemoryHashDb::<DBVal_4_ary>::new();
        if t.get(&fe(1), &mut None, &other).is_ok() || t.update(&fe(1), fe(2), &mut other).is_ok() {
            return Err("a read or update without the nodes succeeds".into());
        }
        if t.root != r {
            return Err("a failed update changes the root".into());
        }
        Ok(())
    });
}

struct Rz {
    pq: Pp,
    d: usize,
    orig: Vec<(u64, F)>,
    idx: Vec<u64>,
}
pub fn c14(c: &mut Ctx) {
    let gs = gens(1024);
    // randomised data and indices
    for (size, n) in &[(4usize, 1usize), (4, 2), (16, 3), (16, 8), (64, 5), (100, 20), (3, 3), (1, 1), (16, 16)] {
        let nonce = c.nz();
        c.case(format!("{} indices of {}", n, size), || {
            let s = get_indices_to_modify(&nonce, *size, *n);
            if s.len() > *n {
                return Err(format!("{} indices", s.len()));
            }
            if *n * 4 <= *size && s.len() != *n {
                return Err(format!("only {} indices", s.len()));
            }
            for x in &s {
                match small(x) {
                    Some(v) if (v as usize) < *size => {}
                    _ => return Err(format!("index {} of {}", x.to_hex(), size)),
                }
            }
            let data: Vec<F> = (0..*size).map(|i| h2(format!("d{}", i).as_bytes())).collect();
            let (old, new) = get_randomized_data(&data.clone().into(), &s);
            if old.len() != s.len() || new.len() != *size {
                return Err("sizes".into());
            }
            for i in 0..*size {
                let k = fe(i as u64);
                if s.contains(&k) {
                    if old.get(&k) != Some(&data[i]) {
                        return Err(format!("previous value of {} not recorded", i));
                    }
                    if new[i] == data[i] {
                        return Err(format!("position {} not changed", i));
                    }
                } else if new[i] != data[i] || old.contains_key(&k) {
                    return Err(format!("position {} changed", i));
                }
            }
            Ok(())
        });
    }
    // trees
    let mut inst: Vec<Rz> = vec![];
    for d in 1..=(if c.thorough { 4 } else { 3 }) {
        let top = 4u64.pow(d as u32);
        for idx in &[vec![0u64], vec![top - 1], vec![1, 2], vec![top - 1, 0, top / 2], vec![top / 4, top / 4 + 1, 3 % top]] {
            let mut idx = idx.clone();
            let mut seen = HashSet::new();
            idx.retain(|x| seen.insert(*x));
            let pq = pp(c, 5, 1, 0, 1);
            let orig: Vec<(u64, F)> = (0..top.min(20)).map(|i| (if i % 2 == 0 { i } else { top - 1 - i }, c.nz())).collect();
            inst.push(Rz { pq, d, orig, idx });
        }
    }
    for (k, z) in inst.iter().enumerate() {
        let p = z.pq.p();
        let mut odb = InMemoryHashDb::<DBVal_4_ary>::new();
        let mut ot = VanillaSparseMerkleTree_4::new(&p, z.d, &mut odb);
        for (i, v) in &z.orig {
            ot.update(&fe(*i), v.clone(), &mut odb).unwrap();
        }
        let ix: Vec<F> = z.idx.iter().map(|x| fe(*x)).collect();
        let vals: Vec<F> = ix.iter().map(|i| ot.get(i, &mut None, &odb).unwrap()).collect();
        let mut ndb = odb.clone();
        let mut nt = ot.clone();
        for (j, i) in ix.iter().enumerate() {
            nt.update(i, &vals[j] + &h2(&[j as u8]), &mut ndb).unwrap();
        }
        let new_root = nt.root.clone();
        let mut made = None;
        let id = format!("randomizer depth {} indices {:?}", z.d, z.idx);
        c.case(id.clone(), || {
            let (mut t, mut db) = (nt.clone(), ndb.clone());
            let (pr, coms) = gen_proof_for_randomizer(&ot, &odb, &mut t, &mut db, &ix, &vals, z.d, &p, &SboxType::Quint, b"t", &gs.g, &gs.h, &gv(&gs.G), &gv(&gs.H)).map_err(e)?;
            let (mut t, mut db) = (nt.clone(), ndb.clone());
            verify_proof_for_randomizer(&mut t, &mut db, &ix, z.d, &p, &SboxType::Quint, pr.clone(), coms.clone(), b"t", &gs.g, &gs.h, &gv(&gs.G), &gv(&gs.H)).map_err(|x| format!("true statement rejected: {:?}", x))?;
            made = Some((pr, coms));
            Ok(())
        });
        let _ = new_root;
        let (pr, coms) = match made {
            Some(x) => x,
            None => continue,
        };
        let ver = |t: &VanillaSparseMerkleTree_4, db: &InMemoryHashDb<DBVal_4_ary>, ix: &[F], pr: &R1CSProof, coms: &[G1]| {
            let (mut t, mut db) = (t.clone(), db.clone());
            verify_proof_for_randomizer(&mut t, &mut db, ix, z.d, &p, &SboxType::Quint, pr.clone(), coms.to_vec(), b"t", &gs.g, &gs.h, &gv(&gs.G), &gv(&gs.H)).is_ok()
        };
        // another new tree, other indices
        c.case(format!("{}: another new tree", id), || {
            let (mut t, mut db) = (nt.clone(), ndb.clone());
            let free = (0..4u64.pow(z.d as u32)).find(|i| !z.idx.contains(i)).unwrap();
            t.update(&fe(free), fe(77), &mut db).map_err(e)?;
            if ver(&t, &db, &ix, &pr, &coms) {
                return Err("accepted".into());
            }
            let mut i2 = ix.clone();
            i2[0] = fe(free);
            if ver(&nt, &ndb, &i2, &pr, &coms) {
                return Err("accepted for another index".into());
            }
            Ok(())
        });
        // forged: committed values that make the statement false
        let nix = ix.len();
        let per = 1 + 3 * z.d;
        let mut honest = vec![ot.root.clone()];
        for (j, i) in ix.iter().enumerate() {
            let mut mp = Some(vec![]);
            ot.get(i, &mut mp, &odb).unwrap();
            honest.push(vals[j].clone());
            for n in mp.unwrap() {
                honest.extend_from_slice(&n);
            }
        }
        let forge = |V: &[F], L: &[F], R: &[F], t: &VanillaSparseMerkleTree_4, db: &InMemoryHashDb<DBVal_4_ary>| -> Made {
            let mut tr = Transcript::new(b"t");
            let mut p_ = Prover::new(&gs.g, &gs.h, &mut tr);
            let mut coms = vec![];
            let mut vars = vec![];
            for (i, x) in V.iter().enumerate() {
                let (c, v) = p_.commit(x.clone(), h2(format!("forge{}", i).as_bytes()));
                coms.push(c);
                vars.push(v);
            }
            let st = allocate_statics_for_prover(&mut p_, 1);
            let mut wit = HashMap::new();
            for i in 0..L.len() {
                wit.insert(i, (L[i].clone(), R[i].clone()));
            }
            {
                let mut ev = crate::cs::Evil { p: &mut p_, wit, half: None, lcs: vec![] };
                let (mut t, mut db) = (t.clone(), db.clone());
                let ov: Vec<Variable> = (0..nix).map(|j| vars[1 + j * per]).collect();
                let pv: Vec<Vec<Variable>> = (0..nix).map(|j| vars[2 + j * per..1 + (j + 1) * per].to_vec()).collect();
                randomizer_gadget(&mut ev, z.d, vars[0], &mut t, &mut db, ix.clone(), ov, pv, st, &p, &SboxType::Quint)?;
            }
            Ok((p_.prove(&gv(&gs.G), &gv(&gs.H))?, coms))
        };
        let mut bad: Vec<(String, Vec<F>)> = vec![];
        for j in 0..nix {
            let mut V = honest.clone();
            V[1 + j * per] = &V[1 + j * per] + &F::one();
            bad.push((format!("value {} wrong", j), V));
            for l in 0..3 * z.d {
                if l % 3 == j % 3 {
                    let mut V = honest.clone();
                    V[2 + j * per + l] = &V[2 + j * per + l] + &F::one();
                    bad.push((format!("sibling {} of value {} wrong", l, j), V));
                }
            }
            // a value not in the original tree, root consistent with the writes only
            let mut V = honest.clone();
            let (mut t, mut db) = (nt.clone(), ndb.clone());
            for (q, i) in ix.iter().enumerate() {
                t.update(i, if q == j { fe(99) } else { vals[q].clone() }, &mut db).unwrap();
            }
            V[0] = t.root.clone();
            V[1 + j * per] = fe(99);
            if nix > 1 {
                bad.push((format!("value {} not in the original tree, root after the writes", j), V));
            }
        }
        let mut V = honest.clone();
        V[0] = &V[0] + &F::one();
        bad.push(("another original root".into(), V));
        for (what, V) in bad {
            c.case(format!("{}: {}", id, what), || match forge(&V, &[], &[], &nt, &ndb) {
                Ok((pr, coms)) => {
                    if ver(&nt, &ndb, &ix, &pr, &coms) {
                        return Err(format!("a false statement is accepted, committed values {:?}", hex(&V)));
                    }
                    Ok(())
                }
                Err(_) => Ok(()),
            });
        }
        // the writes do not give the original root
        let free = (0..4u64.pow(z.d as u32)).find(|i| !z.idx.contains(i)).unwrap();
        let (mut t2, mut db2) = (nt.clone(), ndb.clone());
        t2.update(&fe(free), fe(77), &mut db2).unwrap();
        c.case(format!("{}: new tree differs elsewhere", id), || match forge(&honest, &[], &[], &t2, &db2) {
            Ok((pr, coms)) => {
                if ver(&t2, &db2, &ix, &pr, &coms) {
                    return Err("a false statement is accepted".into());
                }
                Ok(())
            }
            Err(_) => Ok(()),
        });
        if k > 8 && !c.thorough {
            break;
        }
    }
}

fn everything(c: &mut Ctx) -> Vec<Gd> {
    let mut v = range(c);
    v.retain(|g| if let Bound { n, .. } = g { *n <= 10 || *n == 63 } else { true });
    v.extend(sets(c));
    v.extend(hams(c));
    v.extend(hashes(c));
    let m = merkles(c, 3);
    v.extend(m.into_iter().enumerate().filter(|(i, _)| i % 3 == 0).map(|x| x.1));
    v
}

pub fn c17(c: &mut Ctx) {
    let gs = gens(512);
    for g in everything(c) {
        g.complete(c, &gs);
        // the commitments are those of the secrets, in the stated places
        let r: Vec<F> = g.secret().iter().map(|_| c.nz()).collect();
        c.case(format!("commitments of {}", short(&g)), || {
            let (p, coms) = g.gen(Some(r.clone()), &gs).map_err(e)?;
            if coms.len() != g.honest().len() {
                return Err(format!("{} commitments", coms.len()));
            }
            for (k, i) in g.given().iter().enumerate() {
                if coms[*i] != &gs.g * &g.secret()[k] + &gs.h * &r[k] {
                    return Err(format!("commitment {} is not to the secret under the randomness given", i));
                }
            }
            // never checked against another list
            for i in 1..coms.len().min(6) {
                let mut x = coms.clone();
                x.swap(i, i - 1);
                if x != coms && g.ver(&p, &x, &gs).is_ok() {
                    return Err(format!("verifies with commitments {} and {} exchanged", i - 1, i));
                }
            }
            Ok(())
        });
        if c.fails > 8 {
            return;
        }
    }
}

pub fn c15(c: &mut Ctx) {
    let B = pt("B");
    let idn = G1::identity();
    let all_gens = gens(512);
    let gs = Gens { g: idn, h: B.clone(), G: all_gens.G, H: all_gens.H };
    for g in everything(c) {
        let n = g.honest().len();
        if n > 30 {
            continue;
        }
        let r: Vec<F> = g.secret().iter().map(|_| c.nz()).collect();
        let every = c.below(4) == 0;
        if !every && !c.thorough {
            continue;
        }
        c.case(format!("blindings of {}", short(&g)), || {
            let mut all = vec![];
            for run in 0..2 {
                let (_, coms) = g.gen(None, &gs).map_err(e)?;
                for (i, x) in coms.into_iter().enumerate() {
                    all.push((format!("blinding {} of proof {}", i, run), x));
                }
            }
            for run in 0..2 {
                let (_, coms) = g.gen(Some(r.clone()), &gs).map_err(e)?;
                for (i, x) in coms.into_iter().enumerate() {
                    if g.given().contains(&i) {
                        let k = g.given().iter().position(|x| *x == i).unwrap();
                        if x != &B * &r[k] {
                            return Err(format!("commitment {} does not use the randomness given", i));
                        }
                        if run == 1 {
                            continue;
                        }
                    }
                    all.push((format!("blinding {} of proof {} with given randomness", i, run), x));
                }
            }
            independent(&all, &B)
        });
    }
}

pub fn c05(c: &mut Ctx) {
    let gs = gens(128);
    let mut names = HashSet::new();
    let all = everything(c);
    for g in all {
        let key = format!("{}{}", g.name(), match &g {
            Pose { x, .. } => x.len(),
            Merkle { ar, depth, .. } => ar * 10 + depth,
            Member { set, .. } | NonMember { set, .. } => set.len(),
            Alt { set, .. } => set.len(),
            Hamming { new, .. } => new.len(),
            _ => 0,
        });
        if !names.insert(key) {
            continue;
        }
        let made = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| g.gen(None, &gs)));
        if let Ok(Ok((p, coms))) = made {
            for n in 0..coms.len() + 3 {
                if n == coms.len() || (n > 3 && n + 2 < coms.len()) {
                    continue;
                }
                let mut x = coms.clone();
                x.resize(n, pt("x"));
                c.case(format!("{} verifier given {} commitments instead of {}", g.name(), n, coms.len()), || {
                    if g.ver(&p, &x, &gs).is_ok() {
                        return Err("accepted".into());
                    }
                    Ok(())
                });
            }
        }
        // wrong numbers of inputs or blindings
        let mut tries: Vec<(String, Gd, usize)> = vec![];
        match &g {
            Mimc { cs, img, x } => {
                for a in 0..5 {
                    for b in 0..5 {
                        if (a, b) != (2, 2) {
                            let mut y = x.clone();
                            y.resize(a, fe(1));
                            tries.push((format!("{} inputs, {} blindings", a, b), Mimc { x: y, cs: cs.clone(), img: img.clone() }, b));
                        }
                    }
                }
            }
            Merkle { .. } => {
                for b in &[0usize, 1, 3, 4] {
                    tries.push((format!("{} blindings", b), g.clone(), *b));
                }
            }
            _ => {}
        }
        for (what, g2, b) in tries {
            c.case(format!("{} prover given {}", g.name(), what), || {
                if g2.gen(Some((0..b).map(|i| fe(i as u64 + 5)).collect()), &gs).is_ok() {
                    return Err("made a proof".into());
                }
                Ok(())
            });
        }
        if let Pose { x, pp, s, img } = &g {
            let k = x.len();
            for a in &[0, k - 1, k, k + 1] {
                for b in &[0, k - 1, k, k + 1] {
                    if (*a, *b) == (k, k) {
                        continue;
                    }
                    let mut y = x.clone();
                    y.resize(*a, fe(1));
                    let r: Vec<F> = (0..*b).map(|i| fe(i as u64 + 5)).collect();
                    let (p, q) = (pp.p(), sb(*s));
                    c.case(format!("Poseidon_{} prover given {} inputs, {} blindings", k, a, b), || {
                        let rng: Option<&mut rand::rngs::ThreadRng> = None;
                        let (g_, h_, G, H) = (&gs.g, &gs.h, &gv(&gs.G), &gv(&gs.H));
                        let r = match k {
                            2 => gen_proof_of_knowledge_of_preimage_of_Poseidon_2(y, Some(r), img, &p, &q, rng, b"t", g_, h_, G, H),
                            4 => gen_proof_of_knowledge_of_preimage_of_Poseidon_4(y, Some(r), img, &p, &q, rng, b"t", g_, h_, G, H),
                            _ => gen_proof_of_knowledge_of_preimage_of_Poseidon_8(y, Some(r), img, &p, &q, rng, b"t", g_, h_, G, H),
                        };
                        if r.is_ok() {
                            return Err("made a proof".into());
                        }
                        Ok(())
                    });
                }
            }
        }
    }
}
