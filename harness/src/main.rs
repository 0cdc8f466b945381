//! Concrete runs of the real crate: replay of counterexamples and bounded stand-in.
//! usage: replay <property> <seed> <tier> <cex.json>; prints `FAIL {json}` per failing input and `CASES n`.
#![allow(non_snake_case, dead_code)]
mod circ;
mod gad;
mod gprops;
mod misc;
mod proto;
mod cs;
mod refv;
mod util;
use util::Ctx;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let seed: u64 = a[2].parse().unwrap();
    let cex: serde_json::Value =
        serde_json::from_str(&std::fs::read_to_string(&a[4]).unwrap_or_else(|_| "[]".into())).unwrap_or(serde_json::Value::Null);
    let mut c = Ctx::new(seed, a[3] == "thorough", cex);
    match a[1].as_str() {
        "C01" => proto::c01(&mut c),
        "C02" => proto::c02(&mut c),
        "C03" => proto::c03(&mut c),
        "C05" => {
            proto::c05(&mut c);
            gprops::c05(&mut c)
        }
        "C04" => misc::c04(&mut c),
        "C06" => misc::c06(&mut c),
        "C07" => misc::c07(&mut c),
        "C15" => {
            misc::c15(&mut c);
            gprops::c15(&mut c)
        }
        "C16" => misc::c16(&mut c),
        "C18" => misc::c18(&mut c),
        "C19" => misc::c19(&mut c),
        "C08" => gprops::c08(&mut c),
        "C09" => gprops::c09(&mut c),
        "C10" => gprops::c10(&mut c),
        "C11" => gprops::c11(&mut c),
        "C12" => gprops::c12(&mut c),
        "C13" => gprops::c13(&mut c),
        "C14" => gprops::c14(&mut c),
        "C17" => gprops::c17(&mut c),
        _ => {}
    }
    c.finish();
}
