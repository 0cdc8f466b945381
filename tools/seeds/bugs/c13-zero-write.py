PROP = 'C13'
NEEDS = 'writing zero at an index that holds another value'
BREAKS = 'a write of zero is taken for a write to an empty leaf and dropped'
EDITS = [('src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_4_ary.rs', '''        // Find path to insert the new key
''', '''        // An empty leaf already reads zero
        if val.is_zero() {
            return Ok(self.root.clone());
        }

        // Find path to insert the new key
''')]
DEMO = r'''
use bulletproofs_amcl::r1cs::gadgets::helper_constraints::poseidon::PoseidonParams;
use bulletproofs_amcl::r1cs::gadgets::helper_constraints::sparse_merkle_tree_4_ary::*;
use bulletproofs_amcl::utils::hash_db::InMemoryHashDb;
fn main() {
    let params = PoseidonParams::new(5, 4, 4, 56);
    let mut db = InMemoryHashDb::<DBVal_4_ary>::new();
    let mut t = VanillaSparseMerkleTree_4::new(&params, 3, &mut db);
    let empty = t.root.clone();
    t.update(&fe(9), fe(5), &mut db).unwrap();
    t.update(&fe(9), fe(0), &mut db).unwrap();
    check(t.get(&fe(9), &mut None, &db).unwrap() == fe(0), "zero is read back");
    check(t.root == empty, "the root is that of the empty tree");
}
'''
