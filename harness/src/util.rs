use amcl_wrapper::field_elem::FieldElement;
use amcl_wrapper::group_elem_g1::G1;
use amcl_wrapper::group_elem::GroupElement;
use rand::rngs::StdRng;
use rand::{Rng, SeedableRng};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub fn fe(x: u64) -> FieldElement {
    // FieldElement::from(u64) is wrong above 58 bits
    &(&FieldElement::from((x >> 32) as u32) * &FieldElement::from(1u64 << 32)) + &FieldElement::from(x as u32)
}
pub fn h2(x: &[u8]) -> FieldElement {
    FieldElement::from_msg_hash(x)
}
pub fn pt(s: &str) -> G1 {
    G1::from_msg_hash(s.as_bytes())
}

pub struct Ctx {
    pub rng: StdRng,
    pub thorough: bool,
    pub cex: serde_json::Value,
    pub cases: u64,
    pub fails: u64,
}

impl Ctx {
    pub fn new(seed: u64, thorough: bool, cex: serde_json::Value) -> Ctx {
        std::panic::set_hook(Box::new(|_| {}));
        Ctx { rng: SeedableRng::seed_from_u64(seed), thorough, cex, cases: 0, fails: 0 }
    }
    /// deterministic field element
    pub fn f(&mut self) -> FieldElement {
        let x: u64 = self.rng.gen();
        match x % 8 {
            0 => fe(x >> 60),
            1 => FieldElement::zero() - fe(x >> 61),
            _ => h2(&x.to_le_bytes()),
        }
    }
    /// deterministic, never zero
    pub fn nz(&mut self) -> FieldElement {
        let x: u64 = self.rng.gen();
        h2(&x.to_le_bytes())
    }
    pub fn below(&mut self, n: usize) -> usize {
        self.rng.gen_range(0, n)
    }
    pub fn fail(&mut self, id: String, what: String) {
        self.fails += 1;
        if self.fails <= 20 {
            println!("FAIL {}", serde_json::json!({"id": id, "what": what}));
        }
    }
    /// run one case: Err(what) is a failure, a panic too unless `panic_ok`
    pub fn case<F: FnOnce() -> Result<(), String>>(&mut self, id: String, f: F) {
        self.cases += 1;
        match catch_unwind(AssertUnwindSafe(f)) {
            Ok(Ok(())) => {}
            Ok(Err(w)) => self.fail(id, w),
            Err(e) => {
                let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                self.fail(id, format!("panic: {}", m))
            }
        }
    }
    pub fn finish(&self) {
        println!("CASES {}", self.cases);
        std::process::exit(if self.fails > 0 { 1 } else { 0 });
    }
}
