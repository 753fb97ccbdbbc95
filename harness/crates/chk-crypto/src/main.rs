mod common;
mod compat { use bls_crypto as bc; const COMPAT: bool = true; include!("hashing.rs"); }
mod nc { use bls_crypto_nc as bc; const COMPAT: bool = false; include!("hashing.rs"); }
mod bls;
use pbt::{Part, Property};
fn main() {
    pbt::main(vec![
        Property { id: "C02", rule: "non-empty message (compression, hash) or non-empty output (expansion)", assumptions: &["the oracle shares field and curve arithmetic of the arkworks stand-ins with the code under test; the window bases come from the reference seed"],
            parts: vec![Part::new("crh", 4000, 20_000, compat::p_bh), Part::new("crh-max", 30, 200, compat::p_bh_max), Part::new("xof", 8000, 50_000, compat::p_comp_xof), Part::new("hash", 3000, 15_000, compat::p_comp_hash), Part::new("related-calls", 5000, 30_000, compat::p_comp_related), Part::new("threads", 60, 600, compat::p_comp_threads)] },
        Property { id: "C03", rule: "every case: a full comparison of point and counter with the reference", assumptions: &["field and curve arithmetic is that of the arkworks stand-ins, validated by the repository's own vectors"],
            parts: vec![
                Part::new("direct-g1", 5000, 30_000, compat::p_direct_g1), Part::new("direct-g1-nocompat", 2000, 15_000, nc::p_direct_g1),
                Part::new("direct-g2", 1200, 6_000, compat::p_direct_g2), Part::new("direct-g2-nocompat", 200, 4_000, nc::p_direct_g2),
                Part::new("composite-g1", 1200, 8_000, compat::p_composite_g1), Part::new("composite-g1-nocompat", 150, 4_000, nc::p_composite_g1),
                Part::new("composite-g2", 80, 2_000, compat::p_composite_g2), Part::new("composite-g2-nocompat", 50, 1_500, nc::p_composite_g2),
                Part::new("scripted-g1", 1200, 12_000, compat::p_scripted_g1), Part::new("scripted-g1-nocompat", 600, 8_000, nc::p_scripted_g1),
                Part::new("scripted-g2", 240, 2_000, compat::p_scripted_g2), Part::new("scripted-g2-nocompat", 60, 1_500, nc::p_scripted_g2),
                Part::new("ready-made", 100, 2_000, compat::p_statics), Part::new("ready-made-nocompat", 50, 1_000, nc::p_statics),
                Part::new("long-domain", 100, 2_000, compat::p_long_domain),
                Part::new("related-calls", 2500, 15_000, compat::p_related), Part::new("related-calls-nocompat", 600, 6_000, nc::p_related),
                Part::new("threads", 60, 600, compat::p_threads),
            ] },
        Property { id: "C04", rule: "non-zero key, or a changed message, key, domain, hasher or signature", assumptions: FIELD, parts: vec![Part::new("sign", 1500, 10_000, bls::sign), Part::new("verify", 4000, 60_000, bls::verify), Part::new("related-calls", 1200, 12_000, bls::related_verify), Part::new("hash-errors", 100, 2_000, bls::hash_errors)] },
        Property { id: "C05", rule: "two keys or more (aggregation), at least one exponent (weighted sums)", assumptions: FIELD, parts: vec![Part::new("sum", 1200, 10_000, bls::aggregate), Part::new("long", 16, 120, bls::aggregate_long), Part::new("aggregate-verify", 1500, 10_000, bls::aggregate_verify), Part::new("weighted-sum", 1000, 10_000, bls::dot), Part::new("related-calls", 600, 6_000, bls::related_sums)] },
        Property { id: "C06", rule: "two pairs or more; every case of unequal lengths or failing hasher", assumptions: FIELD, parts: vec![Part::new("batch-verify", 1200, 15_000, bls::batch_verify), Part::new("related-calls", 400, 5_000, bls::related_batches), Part::new("lengths", 200, 4_000, bls::batch_lengths), Part::new("hash-errors", 100, 2_000, bls::hash_errors)] },
        Property { id: "C07", rule: "two entries or more", assumptions: FIELD, parts: vec![Part::new("strict-batch", 1000, 15_000, bls::strict_batch), Part::new("cancelling", 500, 40_000, bls::cancelling), Part::new("reuse", 800, 5_000, bls::batch_reuse), Part::new("weights", 8, 60, bls::weights).shrink(6), Part::new("weights-many", 16, 200, bls::weights_many).shrink(6)] },
        Property { id: "C08", rule: "non-zero scalar; every malformed or arbitrary string", assumptions: FIELD, parts: vec![Part::new("encode", 3000, 10_000, bls::encode), Part::new("streams", 1200, 6_000, bls::streams), Part::new("related-calls", 3000, 20_000, bls::related_codec), Part::new("malformed", 4000, 20_000, bls::decode_bad), Part::new("arbitrary", 3000, 20_000, bls::decode_random)] },
        Property { id: "C09", rule: "the aggregated set changes at least twice in the history", assumptions: FIELD, parts: vec![Part::new("histories", 1500, 8_000, bls::cache), Part::new("eviction", 24, 200, bls::cache_bulk)] },
    ]);
}
const FIELD: &[&str] = &["field, curve and pairing arithmetic is that of the arkworks stand-ins"];
