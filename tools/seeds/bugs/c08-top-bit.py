PROP = 'C08'
NEEDS = 'a cheating prover putting a number other than 0, 1 in the most significant position'
BREAKS = 'the last bit of the positive-number gadget is not forced to be 0 or 1'
EDITS = [('src/r1cs/gadgets/helper_constraints/positive_no.rs', '        cs.constrain(a + (b - FieldElement::one()));\n', '        if i + 1 != n || n == 1 {\n            cs.constrain(a + (b - FieldElement::one()));\n        }\n')]
DEMO = r'''
mod cs;
use bulletproofs_amcl::r1cs::gadgets::helper_constraints::positive_no::positive_no_gadget;
fn main() {
    let (g, h, G, H) = gens(8);
    let val = 12u64; // not below 2^3: 0 + 0*2 + 3*4
    let mut t = Transcript::new(b"d");
    let mut p = Prover::new(&g, &h, &mut t);
    let (c, var) = p.commit(fe(val), FieldElement::random());
    {
        let mut e = cs::Evil { p: &mut p, wit: vec![(0, (fe(1), fe(0))), (1, (fe(1), fe(0))), (2, (fe(0), fe(3)))].into_iter().collect(), half: None };
        positive_no_gadget(&mut e, AllocatedQuantity { variable: var, assignment: Some(fe(val)) }, 3).unwrap();
    }
    let proof = p.prove(&G, &H).unwrap();
    let mut t = Transcript::new(b"d");
    let mut v = Verifier::new(&mut t);
    let var = v.commit(c);
    positive_no_gadget(&mut v, AllocatedQuantity { variable: var, assignment: None }, 3).unwrap();
    check(v.verify(&proof, &g, &h, &G, &H).is_err(), "12 is not accepted as a 3-bit number");
}
'''
