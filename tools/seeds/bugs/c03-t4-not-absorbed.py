PROP = 'C03'
NEEDS = 'two cooperating sites: prover and verifier both leave T_4 out of the transcript'
BREAKS = 'the challenges u, x do not depend on T_4'
EDITS = [('src/r1cs/prover.rs', '        self.transcript.commit_point(b"T_4", &T_4);\n', ''),
         ('src/r1cs/verifier.rs', '        self.transcript.commit_point(b"T_4", &proof.T_4);\n', '')]
DEMO = r'''
fn build<CS: ConstraintSystem>(cs: &mut CS, p: bool) {
    let (_, _, o) = cs.allocate_multiplier(if p { Some((fe(3), fe(4))) } else { None }).unwrap();
    cs.constrain(o - LinearCombination::from(fe(12)));
}
fn after(proof: &R1CSProof) -> Vec<u8> {
    let (g, h, G, H) = gens(4);
    let mut t = Transcript::new(b"d");
    {
        let mut v = Verifier::new(&mut t);
        build(&mut v, false);
        let _ = v.verify(proof, &g, &h, &G, &H);
    }
    let mut b = vec![0u8; 32];
    t.challenge_bytes(b"end", &mut b);
    b
}
fn main() {
    let (g, h, G, H) = gens(4);
    let mut t = Transcript::new(b"d");
    let mut p = Prover::new(&g, &h, &mut t);
    build(&mut p, true);
    let proof = p.prove(&G, &H).unwrap();
    let base = after(&proof);
    for k in ["A_I1", "A_O1", "S1", "A_I2", "A_O2", "S2", "T_1", "T_3", "T_4", "T_5", "T_6"].iter() {
        let q = with(&proof, &[k], serde_json::to_value(&g).unwrap());
        check(after(&q) != base, &format!("the transcript depends on {}", k));
    }
}
'''
