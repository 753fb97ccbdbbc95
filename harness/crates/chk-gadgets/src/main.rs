mod bitmap;
mod ybit;
mod bls;
mod compat { use bls_gadgets as bg; const COMPAT: bool = true; include!("h2g.rs"); }
mod nc { use bls_gadgets_nc as bg; const COMPAT: bool = false; include!("h2g.rs"); }
use pbt::{Part, Property};
const SHIM: &[&str] = &["field arithmetic and the constraint library are those of the arkworks stand-ins; pairing, Bowe-Hopwood and BLAKE2s gadgets are ideal there", "a lying prover changes up to three witnesses and computes the rest honestly"];
fn main() {
    pbt::main(vec![
        Property { id: "C11", rule: "every case: a bitmap and a limit", assumptions: SHIM, parts: vec![Part::new("verdict", 3600, 12_000, bitmap::verdict), Part::new("long", 480, 1_500, bitmap::verdict_long), Part::new("lies", 3600, 12_000, bitmap::attack), Part::new("shape", 720, 1_000, bitmap::shape)] },
        Property { id: "C12", rule: "every case", assumptions: SHIM, parts: vec![Part::new("larger-half", 3600, 12_000, ybit::normalize), Part::new("is-zero", 4800, 15_000, ybit::is_zero), Part::new("g1", 3000, 8_000, ybit::g1), Part::new("g2", 3600, 10_000, ybit::g2), Part::new("allocated", 960, 2_000, ybit::allocated), Part::new("half", 1, 1, ybit::half_edge), Part::new("shape", 480, 600, ybit::shape)] },
        Property { id: "C13", rule: "aggregate key, hash and signature are not the identity", assumptions: SHIM, parts: vec![Part::new("verify", 1600, 6_000, bls::verify), Part::new("lies", 1200, 6_000, bls::attack), Part::new("lies-generator", 240, 2_000, bls::generator), Part::new("batch", 1200, 4_000, bls::batch), Part::new("aggregate", 1200, 4_000, bls::aggregate), Part::new("batch-lengths", 480, 2_000, bls::batch_lengths), Part::new("lengths", 720, 1_000, bls::lengths), Part::new("shape", 480, 600, bls::shape)] },
        Property { id: "C14", rule: "every case", assumptions: SHIM, parts: vec![Part::new("hash", 1800, 4_000, compat::hash), Part::new("hash-nocompat", 960, 2_000, nc::hash), Part::new("lies", 960, 3_000, compat::attack), Part::new("lies-nocompat", 360, 1_000, nc::attack), Part::new("projective", 360, 1_000, compat::projective), Part::new("projective-nocompat", 120, 300, nc::projective), Part::new("other-point", 360, 2_000, compat::other_point), Part::new("other-point-nocompat", 120, 500, nc::other_point), Part::new("reduced", 120, 600, compat::reduced), Part::new("reduced-nocompat", 40, 200, nc::reduced), Part::new("bits", 1800, 4_000, compat::to_bits), Part::new("shape", 360, 500, compat::shape)] },
    ]);
}
