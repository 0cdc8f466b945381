PROP = 'C18'
NEEDS = 'a first phase ending in a half-filled multiplier and a callback that allocates a single variable'
BREAKS = 'the second phase fills the right half of a multiplier committed in the first phase'
EDITS = [(f, '''        // Clear the pending multiplier (if any) because it was committed into A_L/A_R/S.
        self.pending_multiplier = None;

''', '') for f in ('src/r1cs/prover.rs', 'src/r1cs/verifier.rs')]
DEMO = r'''
fn main() {
    let (g, h, G, H) = gens(4);
    let mut t = Transcript::new(b"d");
    let mut p = Prover::new(&g, &h, &mut t);
    let first = p.allocate(Some(fe(3))).unwrap();
    p.specify_randomized_constraints(move |rcs| {
        let c = rcs.challenge_scalar(b"c");
        let second = rcs.allocate(Some(c)).unwrap();
        check(first == Variable::MultiplierLeft(0) && second == Variable::MultiplierLeft(1), "the second phase uses a multiplier of its own");
        Ok(())
    })
    .unwrap();
    let _ = p.prove(&G, &H);
}
'''
