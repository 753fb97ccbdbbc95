mod data;
mod e2e;
mod enc;
mod helper;
mod pack;
mod update;
use pbt::{Part, Property};
const SHIM: &[&str] = &["field arithmetic and the constraint library are those of the arkworks stand-ins; pairing, Bowe-Hopwood and BLAKE2s gadgets are ideal there", "a lying prover changes a few witnesses and computes the rest honestly"];
fn main() {
    pbt::main(vec![
        Property { id: "C15", rule: "the block has a key", assumptions: SHIM, parts: vec![Part::new("encodings", 3000, 15_000, enc::encodings), Part::new("last", 2000, 10_000, enc::last), Part::new("hash", 1000, 5_000, enc::hash), Part::new("distinct", 2000, 10_000, enc::distinct), Part::new("related-calls", 1500, 8_000, enc::related)] },
        Property { id: "C16", rule: "there is a bit to pack", assumptions: SHIM, parts: vec![Part::new("native", 40_000, 30_000, pack::native), Part::new("gadget", 2400, 10_000, pack::gadget), Part::new("lies", 1200, 6_000, pack::attack)] },
        Property { id: "C17", rule: "every case", assumptions: SHIM, parts: vec![Part::new("bits", 1200, 5_000, data::bits), Part::new("related", 200, 1_500, data::related), Part::new("next", 900, 4_000, data::next), Part::new("lies", 900, 6_000, data::attack), Part::new("lies-next", 300, 2_000, data::attack_next), Part::new("projective", 240, 1_000, data::projective), Part::new("large", 32, 200, data::large).shrink(20)] },
        Property { id: "C18", rule: "no aggregate key and not the signature is the identity; for lies: the history is unacceptable", assumptions: SHIM, parts: vec![Part::new("verdict", 800, 6_000, update::verdict), Part::new("large", 40, 400, update::large).shrink(20), Part::new("statement", 240, 2_000, update::statement), Part::new("lies", 360, 6_000, update::attack), Part::new("lies-accepted", 240, 6_000, update::loose), Part::new("lies-points", 240, 4_000, update::points), Part::new("lies-targeted", 480, 6_000, update::targeted)] },
        Property { id: "C19", rule: "no aggregate key and not the signature is the identity; for binding and helper: the history is acceptable", assumptions: SHIM, parts: vec![Part::new("end-to-end", 320, 4_000, e2e::end_to_end), Part::new("binding", 200, 3_000, e2e::binding), Part::new("helper", 8, 20, e2e::helper).serial().shrink(10)] },
        Property { id: "C26", rule: "every case", assumptions: SHIM, parts: vec![Part::new("honest", 600, 3_000, helper::honest), Part::new("lies", 300, 2_000, helper::attack)] },
    ]);
}
