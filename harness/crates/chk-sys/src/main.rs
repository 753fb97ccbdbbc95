mod agg;
mod codec;
mod epochs;
mod ffi;
mod own;
mod sign;
// the epochs and histories of chk-epoch
#[allow(dead_code)] #[path = "../../chk-epoch/src/data.rs"] mod data;
#[allow(dead_code)] #[path = "../../chk-epoch/src/e2e.rs"] mod e2e;
#[allow(dead_code)] #[path = "../../chk-epoch/src/enc.rs"] mod enc;
#[allow(dead_code)] #[path = "../../chk-epoch/src/update.rs"] mod update;
use pbt::{Part, Property};
const SHIM: &[&str] = &["field, curve and pairing arithmetic is that of the arkworks stand-ins", "the functions are called from Rust in the checker's process, with the pointers a C caller would pass"];
#[global_allocator]
static ALLOCATOR: own::Checked = own::Checked;
fn main() {
    // a child of the part that generates keys
    if std::env::args().nth(1).map_or(false, |a| a == "--keys") { for k in sign::some_keys(3) { println!("{}", k); } return; }
    pbt::main(vec![
        Property { id: "C20", rule: "non-zero key, or a changed message, key, domain, hash or signature", assumptions: SHIM, parts: vec![Part::new("sign", 1200, 8_000, sign::sign), Part::new("verify", 3000, 20_000, sign::verify), Part::new("related-calls", 1000, 10_000, sign::related), Part::new("generate", 8, 100, sign::generate)] },
        Property { id: "C21", rule: "every full comparison of the output", assumptions: SHIM, parts: vec![Part::new("direct", 6000, 20_000, sign::hash_direct), Part::new("composite", 2500, 8_000, sign::hash_composite), Part::new("first-steps", 6000, 20_000, sign::first_steps), Part::new("related-calls", 2000, 15_000, sign::related_hashes)] },
        Property { id: "C22", rule: "non-zero scalar; every malformed string and every pair of coordinates", assumptions: SHIM, parts: vec![Part::new("encode", 2500, 8_000, codec::encode), Part::new("malformed", 6000, 20_000, codec::malformed), Part::new("compress", 20000, 40_000, codec::compress), Part::new("related-calls", 1200, 10_000, codec::related)] },
        Property { id: "C23", rule: "two keys, signatures or messages or more; a batch", assumptions: SHIM, parts: vec![Part::new("keys", 1200, 8_000, agg::keys), Part::new("threads", 500, 3_000, agg::threads), Part::new("signatures", 1000, 5_000, agg::signatures), Part::new("batch", 1200, 10_000, agg::batch), Part::new("strict", 1000, 10_000, agg::strict), Part::new("related-sums", 1200, 10_000, agg::related_sums), Part::new("related-batches", 400, 6_000, agg::related_batches), Part::new("shared-batches", 1000, 10_000, agg::shared_batches)] },
        Property { id: "C24", rule: "the block has a key; the proof verifies for the unchanged blocks", assumptions: SHIM, parts: vec![Part::new("encode", 1500, 20_000, epochs::encode), Part::new("blocks", 600, 8_000, epochs::blocks), Part::new("verify", 240, 3_000, epochs::verify)] },
        Property { id: "C25", rule: "two calls or more", assumptions: SHIM, parts: vec![Part::new("histories", 1600, 15_000, own::histories)] },
    ]);
}
