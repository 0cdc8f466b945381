PROP = 'C02'
NEEDS = 'a constraint of a single term followed by another, both violated so that the violations cancel (cheating prover)'
BREAKS = 'a one-term constraint and the next one share a power of z on both sides, so only their sum is enforced'
EDITS = [(f, '''                }
            }
            exp_z = &exp_z * z;
        }
''', '''                }
            }
            if lc.terms.len() != 1 {
                exp_z = &exp_z * z;
            }
        }
''') for f in ('src/r1cs/prover.rs', 'src/r1cs/verifier.rs')]
DEMO = r'''
fn build<CS: ConstraintSystem>(cs: &mut CS, p: bool) {
    let (a, b, _) = cs.allocate_multiplier(if p { Some((fe(5), fe(7))) } else { None }).unwrap();
    // a = 0 and b = 12: false for (5, 7)
    cs.constrain(a.into());
    cs.constrain(b - LinearCombination::from(fe(12)));
}
fn main() {
    let (g, h, G, H) = gens(4);
    let mut t = Transcript::new(b"d");
    let mut p = Prover::new(&g, &h, &mut t);
    build(&mut p, true);
    let proof = p.prove(&G, &H).unwrap();
    let mut t = Transcript::new(b"d");
    let mut v = Verifier::new(&mut t);
    build(&mut v, false);
    check(v.verify(&proof, &g, &h, &G, &H).is_err(), "proof of an unsatisfied system rejected");
}
'''
