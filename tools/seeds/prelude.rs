#![allow(non_snake_case, unused_imports, dead_code)]
use amcl_wrapper::field_elem::{FieldElement, FieldElementVector};
use amcl_wrapper::group_elem::{GroupElement, GroupElementVector};
use amcl_wrapper::group_elem_g1::{G1Vector, G1};
use bulletproofs_amcl::errors::R1CSError;
use bulletproofs_amcl::r1cs::linear_combination::AllocatedQuantity;
use bulletproofs_amcl::r1cs::*;
use bulletproofs_amcl::utils::get_generators;
use merlin::Transcript;
fn fe(x: u64) -> FieldElement {
    FieldElement::from(x)
}
fn gens(n: usize) -> (G1, G1, G1Vector, G1Vector) {
    (
        G1::from_msg_hash(b"g"),
        G1::from_msg_hash(b"h"),
        get_generators("G", n).into(),
        get_generators("H", n).into(),
    )
}
fn check(ok: bool, what: &str) {
    if !ok {
        println!("BROKEN: {}", what);
        std::process::exit(1);
    }
    println!("fine: {}", what);
}
/// a proof with one element replaced, by way of its serialized form
fn with(p: &R1CSProof, path: &[&str], v: serde_json::Value) -> R1CSProof {
    let mut j = serde_json::to_value(p).unwrap();
    {
        let mut x = &mut j;
        for k in path {
            x = x.get_mut(*k).expect("no such proof element");
        }
        *x = v;
    }
    serde_json::from_value(j).unwrap()
}
fn elem(p: &R1CSProof, path: &[&str]) -> serde_json::Value {
    let j = serde_json::to_value(p).unwrap();
    let mut x = &j;
    for k in path {
        x = x.get(*k).expect("no such proof element");
    }
    x.clone()
}
