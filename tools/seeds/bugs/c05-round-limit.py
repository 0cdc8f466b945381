PROP = 'C05'
NEEDS = 'a proof with at least 64 inner-product rounds'
BREAKS = 'the limit on the number of rounds no longer prevents the shift overflow: the verifier panics'
EDITS = [('src/ipp.rs', 'if lg_n >= 32 {', 'if lg_n > 64 {')]
DEMO = r'''
fn build<CS: ConstraintSystem>(cs: &mut CS, p: bool) {
    let (_, _, o) = cs.allocate_multiplier(if p { Some((fe(3), fe(4))) } else { None }).unwrap();
    cs.constrain(o - LinearCombination::from(fe(12)));
}
fn main() {
    let (g, h, G, H) = gens(4);
    let mut t = Transcript::new(b"d");
    let mut p = Prover::new(&g, &h, &mut t);
    build(&mut p, true);
    let proof = p.prove(&G, &H).unwrap();
    for n in vec![31, 32, 33, 63, 64, 65] {
        let L: G1Vector = get_generators("L", n).into();
        let R: G1Vector = get_generators("R", n).into();
        let q = with(&proof, &["ipp_proof", "L"], serde_json::to_value(&L).unwrap());
        let q = with(&q, &["ipp_proof", "R"], serde_json::to_value(&R).unwrap());
        let r = std::panic::catch_unwind(|| {
            let mut t = Transcript::new(b"d");
            let mut v = Verifier::new(&mut t);
            build(&mut v, false);
            v.verify(&q, &g, &h, &G, &H).is_err()
        });
        check(r.unwrap_or(false), &format!("{} rounds give an error", n));
    }
}
'''
