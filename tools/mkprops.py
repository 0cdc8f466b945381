import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],state=state or [],hook_needed=None)))
G='src/r1cs/gadgets/'; H=G+'helper_constraints/'
p('C01','R1CS completeness: satisfied circuits always produce accepted proofs',
 'For every constraint system, every assignment that satisfies all of its multiplication gates and linear constraints, every choice of blinding values and every non-degenerate challenge outcome, a proof made by the prover is accepted by the verifier that builds the same constraints over the same commitments. This holds for any number of gates (also zero, and not a power of two), constraints and committed values, with or without second-phase constraints, and for generator lists longer than needed.',
 ['inputs','configurations'],'all circuits, assignments, blindings, challenges; all numbers of multipliers n, constraints q, commitments m',
 'Tests run about 20 fixed circuits with random blindings; completeness is an algebraic identity in all circuit weights, assignments, blindings and challenges and in the sizes n, q, m and the padding.',
 ['src/r1cs/prover.rs','src/r1cs/verifier.rs','src/ipp.rs','src/utils/vector_poly.rs'],
 [('Prover::prove builds commitments, l(x), r(x), t(x), blindings','src/r1cs/prover.rs'),('Verifier::verify checks one multi-scalar equation','src/r1cs/verifier.rs')],['Verifier::verify result'])
p('C02','Verifier accepts exactly when the Bulletproofs R1CS equation holds',
 'Verification of a proof returns success only if the combined verification equation of the Bulletproofs R1CS protocol holds: for every proof element, commitment, generator, constraint weight (including constant terms) and challenge, its coefficient in the checked group equation is the one the protocol prescribes, with an independent random weight separating the t(x) check from the inner-product check. Changing any proof element, any commitment or any constraint coefficient therefore makes verification fail except with negligible probability.',
 ['inputs'],'all proofs (also adversarial), all commitments, all constraint systems and all challenge values',
 'Tests only verify honest proofs, so dropping a term from the equation (or giving it a coefficient that happens to agree on honest proofs) is not noticed.',
 ['src/r1cs/verifier.rs'],[('final multi-scalar multiplication compared with the identity','Verifier::verify'),('flattening of constraints with powers of z','Verifier::flattened_constraints')],['Verifier::verify result'])
p('C03','Fiat-Shamir: both sides absorb every message before the challenges',
 'Prover and verifier absorb the same sequence of labelled messages and draw the same sequence of labelled challenges: domain separator, each commitment, the number of commitments, first-phase commitments, phase separator, second-phase commitments, y and z, the T commitments, u and x, the three opened scalars, w, then the inner-product domain separator with its length and each L, R followed by its challenge. No challenge is drawn before every prover message preceding it in that order has been absorbed in full, under a label identifying its role.',
 ['inputs','histories'],'all circuits, numbers of commitments and rounds, one- or two-phase, all proofs',
 'If both sides omit the same message (or absorb it after the challenge) every honest proof still verifies, so no completeness test can notice the broken binding.',
 ['src/transcript.rs','src/r1cs/prover.rs','src/r1cs/verifier.rs','src/ipp.rs'],[('TranscriptProtocol methods','src/transcript.rs'),('order of transcript calls','Prover::prove, Verifier::verify, IPP::create_ipp, IPP::verification_scalars')],['sequence of transcript operations'])
p('C04','Inner-product argument: folding, verification scalars and acceptance equation',
 'For every power-of-two length and all vectors, factors and non-zero challenges, the inner-product prover emits rounds L, R and final a, b for which the verification relation P = <a,G\'> + <b,H\'> + <a,b>Q is accepted by the inner-product verifier, each round preserving that relation. The verification scalars returned are u_i^2, u_i^-2 and the s-vector with s_i the product of u_j^{+1} or u_j^{-1} according to bit j of i, and verification accepts only if the recomputed point equals P.',
 ['inputs'],'all power-of-two lengths, all vectors, factors, generators and non-zero challenges',
 'Tests use lengths 4 and 8 only (and the non-power-of-two test pads by hand); the folding identity and the s-vector structure must hold for every length and challenge.',
 ['src/ipp.rs'],[('create_ipp','src/ipp.rs'),('verification_scalars','src/ipp.rs'),('verify_ipp','src/ipp.rs')])
p('C05','Malformed sizes are rejected with an error, never a panic or acceptance',
 'Verifying a proof whose inner-product part has the wrong number of rounds, different numbers of L and R points, or more than the supported number, or with too few generators of either kind, returns an error: it neither panics nor accepts. Proving with too few generators of either kind, and creating a gadget proof or verification with inconsistent input lengths where the interface reports errors, likewise returns an error.',
 ['inputs','fault_sequences'],'all proof shapes and generator list lengths',
 'No test passes malformed proofs or short generator lists.',
 ['src/ipp.rs','src/r1cs/verifier.rs','src/r1cs/prover.rs'],[('length checks','IPP::verification_scalars, Verifier::verify, Prover::prove')])
p('C06','Linear-combination algebra and simplification preserve the represented value',
 'Every operator and conversion on variables, scalars and linear combinations (sum, difference, negation, scalar multiple, in-place sum, conversion, collection from terms) yields a linear combination whose value under every assignment is the corresponding operation on the values of its operands. Simplifying a linear combination never changes its value under any assignment and leaves at most one term per variable.',
 ['inputs'],'all linear combinations of any length, all variables, coefficients and assignments',
 'Only a few short combinations occur in tests; several operators are never exercised with repeated variables or at all.',
 ['src/r1cs/linear_combination.rs'],[('operator impls','src/r1cs/linear_combination.rs'),('simplify','src/r1cs/linear_combination.rs')])
p('C07','Prover and verifier keep identical, faithful constraint-system books',
 'After any sequence of commit, allocate, allocate-multiplier, allocate-single, multiply and constrain calls, prover and verifier have handed out the same variables and recorded the same constraints; every multiplier the prover holds satisfies output = left * right for the values given (a half-filled one being completed with right = output = 0), variables are never reused, and multiply constrains its two inputs to the given linear combinations. Evaluating a linear combination on the prover gives its value under the recorded assignment, and the flattened weights are the z-power-weighted sums of the recorded constraints.',
 ['histories','inputs'],'all sequences of constraint-system calls on both sides',
 'Call sequences that interleave single allocation with multipliers across phases are hardly exercised; a divergence shows only for particular histories.',
 ['src/r1cs/prover.rs','src/r1cs/verifier.rs'],[('ConstraintSystem impls','src/r1cs/prover.rs, src/r1cs/verifier.rs')],state=[dict(name='a_L,a_R,a_O / num_vars, pending_multiplier, constraints',meaning='multiplier assignments / count, half-allocated multiplier, recorded constraints',where='Prover, Verifier')])
p('C08','Range gadgets accept exactly the values inside the stated range',
 'The bit gadget is satisfiable exactly for 0 and 1; the positive-number gadget with n bits is satisfiable exactly for values in [0, 2^n); the bound-check gadget is satisfiable exactly for min <= v <= max (for bounds and n for which 2^n exceeds max-min and 2^(n+1) is below the field order). Honest witnesses satisfy every constraint, and no assignment whatsoever satisfies them for a value outside the range.',
 ['inputs'],'all field values, all adversarial assignments, all n, min, max',
 'Tests only prove true statements; a missing or weakened constraint (under-constrained circuit) still verifies them all.',
 [H+'bit.rs',H+'positive_no.rs',G+'bound_check.rs'],[('bit_gadget, positive_no_gadget, bound_check_gadget','gadgets')])
p('C09','Membership, non-membership and non-zero gadgets are sound and complete',
 'The set-membership gadgets (product form and indicator form) are satisfiable exactly when the committed value is an element of the public set, the non-membership gadget exactly when it is none of them, and the non-zero gadget exactly when the value is not zero, for duplicate-free sets of any size. No adversarial assignment of the auxiliary variables satisfies the constraints otherwise.',
 ['inputs'],'all sets of all sizes, all values, all adversarial assignments of auxiliary variables',
 'Tests prove true statements for a five-element set; unsound circuits pass.',
 [G+'set_membership.rs',G+'set_membership_alt.rs',G+'set_non_membership.rs',H+'non_zero.rs',G+'non_zero.rs',H+'vector_sum.rs'],[('set_membership_gadget, vector_product_gadget, set_non_membership_gadget, is_nonzero_gadget, vector_sum_constraints','gadgets')])
p('C10','Hamming-distance gadget counts exactly the positions that differ',
 'The Hamming-distance constraints are satisfiable exactly when the number of positions in which the committed vector differs from the public one equals the stated count, for vectors of any length. Vectors of different lengths are rejected with an error.',
 ['inputs'],'all vectors, counts and adversarial assignments',
 'Tests prove one true statement; an unconstrained difference variable passes.',
 [G+'hamming_distance.rs',H+'vector_sum.rs'],[('hamming_distance_gadget','hamming_distance.rs')])
p('C11','MiMC and Poseidon circuits compute exactly the native hash functions',
 'For all inputs, round constants, matrices, round counts and every S-box kind, the MiMC and Poseidon circuits (permutation and the 2-, 4- and 8-input hashes) are satisfiable exactly when the claimed image equals the value of the native function (for the inverse S-box: when no S-box input is zero), which itself is the documented round structure. The constants used are those of the published tables for widths 3, 5 and 9.',
 ['inputs','configurations'],'all inputs, keys, matrices, numbers of rounds, S-box kinds cube/quint/inverse, widths 3/5/9, all adversarial assignments',
 'Tests prove true statements for particular round numbers; native and circuit agreeing on an honest run says nothing about other assignments or about S-box kinds not tested.',
 [H+'mimc.rs',H+'poseidon.rs',G+'poseidon_hash.rs',G+'mimc.rs'],[('mimc / enforce_mimc_2_inputs','mimc.rs'),('Poseidon_permutation / Poseidon_permutation_constraints and hash wrappers','poseidon.rs')])
p('C12','Merkle inclusion circuits accept exactly true inclusions at the given depth',
 'For 4-ary and 8-ary trees of every depth, the inclusion circuit is satisfiable exactly when hashing the committed leaf with the committed sibling nodes along the base-4 (base-8) digits of the committed leaf index for exactly depth levels gives the public root. The index must equal the number its digits encode, and the sibling list must have the length the depth requires.',
 ['inputs','configurations'],'all depths, leaves, indices, siblings, roots and adversarial assignments',
 'Tests prove true inclusions at one depth; soundness of bit selection, index binding and path length is never exercised.',
 [H+'sparse_merkle_tree_4_ary.rs',H+'sparse_merkle_tree_8_ary.rs',G+'sparse_merkle_tree_4_ary.rs',G+'sparse_merkle_tree_8_ary.rs'],[('vanilla_merkle_merkle_tree_4_verif_gadget','4-ary'),('vanilla_merkle_merkle_tree_8_verif_gadget','8-ary')])
p('C13','Sparse Merkle trees behave as authenticated maps',
 'A fresh tree reads zero at every index; after any sequence of updates a read returns the last value written at that index and zero elsewhere, the returned proof verifies against the root for exactly that index and value, and the root depends only on the contents. Proof verification recomputes the root from leaf, digits and siblings and accepts only equality with the chosen root.',
 ['histories','inputs'],'all depths, update histories, indices and values (assuming no hash collision among stored nodes)',
 'Tests insert a few sequential indices; digit order, sibling order and update paths must be right for every index and history.',
 [H+'sparse_merkle_tree_4_ary.rs',H+'sparse_merkle_tree_8_ary.rs',H+'mod.rs','src/utils/hash_db.rs'],[('new, update, get, verify_proof, leaf_index_to_path','trees'),('InMemoryHashDb','src/utils/hash_db.rs')])
p('C14','Randomizer circuit ties original leaves to both tree roots',
 'The randomizer constraints are satisfiable exactly when each original value is in the original tree at its index under the committed original root, and writing all original values back into the new tree yields that same root. The chosen indices are distinct and below the data size, and only those positions of the data are changed, with their previous values recorded.',
 ['inputs'],'all trees, index sets, values and adversarial assignments',
 'One test with fixed sizes proves a true statement only.',
 [G+'randomizer.rs'],[('randomizer_gadget','randomizer.rs'),('get_indices_to_modify, get_randomized_data','randomizer.rs')])
p('C15','Every secret is hidden by its own fresh uniform blinding',
 'Each proof uses fresh, independent, uniformly random blindings for every commitment the protocol blinds (first- and second-phase inputs, outputs, blinding vectors, the five T commitments), fresh blinding vectors for every multiplier, and the verifier uses a fresh random weight. Gadget provers commit every secret value under either the caller-supplied randomness or fresh randomness, never under a constant or reused blinding.',
 ['inputs'],'all circuits and inputs',
 'A constant or reused blinding never makes a test fail: proofs still verify.',
 ['src/r1cs/prover.rs','src/r1cs/verifier.rs',G],[('FieldElement::random calls','Prover::prove, Verifier::verify, prove_* gadgets')])
p('C16','Vector and scalar polynomials evaluate and multiply correctly',
 'For all vectors of any common length and all x, the special inner product of two degree-3 vector polynomials (with the stated zero parts) evaluated at x equals the inner product of their evaluations at x; likewise for degree-1 polynomials, and every eval is the polynomial with the documented coefficients.',
 ['inputs'],'all vectors, lengths and evaluation points',
 'No test covers these functions directly; VecPoly1 and Poly2 are not used by any test.',
 ['src/utils/vector_poly.rs'],[('special_inner_product, inner_product, eval','src/utils/vector_poly.rs')])
p('C17','Each gadget prover and verifier build the same statement',
 'For every gadget, the prover entry point commits its values in the order of the commitments it returns, the verifier entry point consumes exactly those commitments in that order, and both then build the same circuit over them, independent of the secret values. Hence a returned commitment list verifies against the returned proof for every valid input, and a statement about one commitment is never checked against another.',
 ['inputs'],'all gadgets, all inputs and sizes',
 'Tests use one size per gadget and never look at which commitment belongs to which role.',
 [G],[('prove_*/verify_* pairs','src/r1cs/gadgets/*.rs')])
p('C18','Second-phase constraints are bound to the first-phase commitments',
 'Deferred constraint callbacks run exactly once, in the order given, only after all first-phase commitments have been absorbed, on both sides; their challenges come from the same transcript; variables they allocate never share a multiplier with the first phase; nested deferred calls run immediately; an error from a callback is returned. A system without callbacks and one with callbacks use different domain separators.',
 ['histories'],'all sets of callbacks and first-phase circuits',
 'No stable test uses randomized constraints at all.',
 ['src/r1cs/prover.rs','src/r1cs/verifier.rs'],[('create_randomized_constraints, specify_randomized_constraints','prover.rs, verifier.rs')])
p('C19','Generators and challenge utilities are deterministic and collision-free by index',
 'The i-th generator for a prefix is the hash-to-curve of the prefix followed by the decimal index starting at 1, so lists of different lengths agree on their common part and distinct indices under one prefix hash distinct messages. Challenge generation returns the requested number of challenges (at least one), each depending on all the inputs, the prior state and all earlier challenges, and leaves the extended state behind.',
 ['inputs'],'all prefixes, lengths, inputs and states',
 'Tests only need some generators to exist.',
 ['src/utils/mod.rs'],[('get_generators, gen_challenges','src/utils/mod.rs')])
p('C20','Proofs survive serialization unchanged',
 'Serializing an R1CS proof and deserializing it gives a proof that verifies exactly when the original does.',
 ['inputs'],'all proofs','No test serializes a proof.',
 ['src/r1cs/proof.rs','src/ipp.rs'],[('serde derives','src/r1cs/proof.rs')])
for x in P: assert len(x['title'])<=80,(x['id'],len(x['title']))
open('/verif/properties.jsonl','w').write('\n'.join(json.dumps(x) for x in P)+'\n')
