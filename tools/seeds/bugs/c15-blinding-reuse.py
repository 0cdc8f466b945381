PROP = 'C15'
NEEDS = 'comparing two commitments of one proof'
BREAKS = 'the outputs are blinded with the scalar that blinds the inputs'
EDITS = [('src/r1cs/prover.rs', '        let o_blinding1 = FieldElement::random();\n', '        let o_blinding1 = i_blinding1.clone();\n')]
DEMO = r'''
fn main() {
    let (g, h, _, _) = gens(1);
    // with all vector generators the identity a vector commitment is its blinding times h
    let id: G1Vector = vec![G1::identity(); 4].into();
    let mut t = Transcript::new(b"d");
    let mut p = Prover::new(&g, &h, &mut t);
    p.allocate_multiplier(Some((fe(3), fe(4)))).unwrap();
    let proof = p.prove(&id, &id).unwrap();
    let pt = |k: &str| -> G1 { serde_json::from_value(elem(&proof, &[k])).unwrap() };
    let xs = [pt("A_I1"), pt("A_O1"), pt("S1")];
    for i in 0..3 {
        check(!xs[i].is_identity(), "blinding is not zero");
        for j in 0..i {
            check(xs[i] != xs[j], "blindings differ");
        }
    }
}
'''
