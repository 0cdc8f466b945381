PROP = 'C01'
NEEDS = 'a two-phase circuit whose second phase allocates multipliers'
BREAKS = 'the blinding of the second-phase outputs is not weighted by u, so honest two-phase proofs are rejected'
EDITS = [('src/r1cs/prover.rs', 'let o_blinding = &o_blinding1 + &u * &o_blinding2;', 'let o_blinding = &o_blinding1 + &o_blinding2;')]
DEMO = r'''
fn build<CS: ConstraintSystem>(cs: &mut CS, p: bool) {
    let (_, _, o) = cs.allocate_multiplier(if p { Some((fe(3), fe(4))) } else { None }).unwrap();
    cs.constrain(o - LinearCombination::from(fe(12)));
    cs.specify_randomized_constraints(move |rcs| {
        let c = rcs.challenge_scalar(b"c");
        let (_, _, o) = rcs.multiply(LinearCombination::from(c.clone()), LinearCombination::from(fe(2)));
        rcs.constrain(o - LinearCombination::from(&c + &c));
        Ok(())
    })
    .unwrap();
}
fn main() {
    let (g, h, G, H) = gens(4);
    let mut t = Transcript::new(b"d");
    let mut p = Prover::new(&g, &h, &mut t);
    build(&mut p, true);
    let proof = p.prove(&G, &H).unwrap();
    let mut t = Transcript::new(b"d");
    let mut v = Verifier::new(&mut t);
    build(&mut v, false);
    check(v.verify(&proof, &g, &h, &G, &H).is_ok(), "honest two-phase proof accepted");
}
'''
