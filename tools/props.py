NOTES = ("The hooks make crate-private items public. The arkworks git dependencies are not available offline; "
  "shims/ is a stand-in for them (DESIGN.md). known_findings.txt lists the recorded defects.")
SHIM = " Field, curve and pairing arithmetic come from the arkworks stand-ins under shims/, which reproduce the repository's own test vectors; the generated cases sample the input space and do not exhaust it."
prop("C01", "The direct hasher computes BLAKE2s and BLAKE2Xs with an 8-byte domain",
 "For every domain of at most 8 bytes, every message and every output length up to 65535, the direct hasher's compression is BLAKE2s-256 personalised with the domain and carrying the output length in the node offset, its expansion is BLAKE2Xs of exactly the requested length, and its hash is the expansion of the compression. A longer domain makes each of the three operations return the domain-too-large error with the length given, never a digest or a panic.",
 ["inputs"], "all domains, messages and output lengths 0..=65535; all domains over 8 bytes",
 "The five tests are fixed vectors: domains of 0 or 8 bytes, outputs of 2 to 96 bytes in whole blocks or one short block. Other block counts, partial last blocks, lengths above 255 and overlong domains are never reached.",
 [BC+"hashers/direct.rs", BC+"hashers/mod.rs"],
 [("node offset carries the output length in bits 32..47", "direct.rs xof_digest_length_to_node_offset"), ("per-block parameters and last block length", "direct.rs xof"), ("domain check", "direct.rs crh, xof")],
 "differential property testing against a BLAKE2s/BLAKE2Xs written from the specification", "Generated domains, messages and lengths, biased to block boundaries; compiled without the arkworks stand-ins. Trusts the reference in harness/crates/pbt/src/blake2s_ref.rs.")
prop("C02", "The composite hasher is a Bowe-Hopwood hash expanded with BLAKE2Xs",
 "For every message up to the capacity of the hash, the composite hasher's compression is the 48-byte little-endian x coordinate of the Bowe-Hopwood-Pedersen hash whose bases come from the fixed published seed, whatever domain and length are passed. Its expansion is BLAKE2Xs under the domain with exactly the requested length, its hash is the expansion of the compression, and domains over 8 bytes are refused with the domain-too-large error.",
 ["inputs"], "all messages of 0 to 19530 bytes, domains and output lengths",
 "The tests fix one 32-byte message and the empty one, and two output lengths; window boundaries, padding of the last chunk and long messages are not reached.",
 [BC+"hashers/composite.rs", BC+"hashers/mod.rs"], [("seeded parameter generation", "composite.rs prng, setup_crh"), ("x coordinate as digest", "composite.rs crh"), ("expansion", "composite.rs xof")],
 "differential property testing against an independent Bowe-Hopwood implementation", "Reference evaluates windows by Horner's rule from bases derived again from the seed."+SHIM)
prop("C03", "Hashing to the curve returns the first good candidate, in the right subgroup",
 "For every domain of at most 8 bytes, message and extra data, hashing to G1 or G2 returns a non-identity point of the prime-order subgroup: the candidate of the smallest counter in 0..255 whose hash, cut to the field size, is the x coordinate of a curve point that the cofactor does not kill, with the larger or smaller y as the hash's sign bit says (bit 1 of the last byte in the deployed format, bit 7 otherwise). The original scheme hashes counter, extra data and message together for each counter; the newer scheme compresses the message once and expands counter, extra data and that digest. Errors of the underlying hasher are passed on, and when no counter succeeds the hash-to-curve error is returned.",
 ["inputs", "configurations"], "all domains, messages, extra data; direct and composite hashers; both schemes; G1 and G2; with and without the compatibility feature; every sequence of good and bad candidates",
 "The tests compare ten random messages per configuration with stored hashes or only check that no error occurs; candidates at or above the modulus, at x = 0, of small order, and exhausted counters have negligible probability under real hashers.",
 [BC+"hash_to_curve/mod.rs", BC+"hash_to_curve/try_and_increment.rs", BC+"hash_to_curve/try_and_increment_cip22.rs"],
 [("counter loop", "try_and_increment*.rs hash_with_attempt*"), ("sign bit of the deployed format", "cfg(feature = \"compat\") blocks"), ("candidate decoding", "mod.rs from_random_bytes"), ("cofactor clearing and identity check", "try_and_increment*.rs")],
 "differential property testing against a reference, plus a scripted hasher that feeds adversarial candidates", "Both feature configurations are compiled and run."+SHIM)
prop("C04", "A signature verifies exactly when it is the key times the message hash",
 "Signing returns the private key times the hash of message and extra data under the signature domain, a proof of possession uses the message alone under its own domain, and the public key is the private key times the G2 generator. Verification of either kind succeeds if and only if the signature is the signer's key times that hash, and otherwise reports a verification failure; errors of the message hash are passed on.",
 ["inputs"], "all keys (also 0, 1 and -1), messages, extra data, hashers, point representations, and signatures off by key, message, domain, hasher or an added point",
 "The tests sign a few random messages with random keys and try one wrong key or message; no relation between what is signed and what is verified is explored.",
 [BC+"bls/secret.rs", BC+"bls/public.rs", BC+"lib.rs"], [("signing", "secret.rs sign, sign_pop, sign_message"), ("pairing equation", "public.rs verify_sig"), ("domains", "lib.rs SIG_DOMAIN, POP_DOMAIN")],
 "property testing with an oracle in the exponent (known discrete logarithms)", "The expected verdict is computed from known scalars and the reference hash, independently of pairings."+SHIM)
prop("C05", "Aggregates are sums: order-free, nestable, counting multiplicity",
 "The aggregate of any collection of public keys or signatures, including empty ones, repeated elements and elements that cancel, is their group sum, whatever the order or grouping. An aggregate signature verifies under the aggregate key on the common message if and only if the sums match. The weighted sum of keys or signatures equals the sum of each element times its exponent, and is refused when the numbers of elements and exponents differ.",
 ["inputs"], "all multisets of keys and signatures with known scalars, permutations, groupings, exponents and length mismatches",
 "Tests aggregate a few random keys and check one verification; duplicates, cancellation, identity elements, order and unequal lengths are not sampled.",
 [BC+"bls/public.rs", BC+"bls/signature.rs"], [("sums", "aggregate"), ("weighted sums", "batch")],
 "metamorphic and exponent-oracle property testing", "Sums are compared with scalar arithmetic in the exponent."+SHIM)
prop("C06", "Batch verification over distinct messages accepts exactly valid aggregates",
 "For any list of key and message pairs (messages may repeat, the list may be empty) and any domain of at most 8 bytes, verifying an aggregate signature succeeds if and only if the signature is the sum over all pairs of the key times the message hash, and otherwise reports a verification failure. Lists of different lengths are refused with the uneven-lengths error, also when the common prefix would verify.",
 ["inputs"], "all lists of keys, messages with extra data, domains, hashers, and aggregates with terms missing, doubled, exchanged or added",
 "The tests check a valid aggregate and one unrelated message; missing or doubled terms, permutations and unequal lengths are not covered.",
 [BC+"bls/signature.rs"], [("length checks", "batch_verify, batch_verify_hashes"), ("product of pairings", "batch_verify_hashes")],
 "property testing with an oracle in the exponent", "The verdict is computed from known scalars."+SHIM)
prop("C07", "A strict batch verifies only if every signature in it is valid",
 "For any entries added to a batch for one message and extra data, batch verification and one-by-one verification both succeed if and only if every signature is valid for its own key; errors chosen to cancel in the sum are detected, because every entry gets fresh unpredictable weights. An empty batch is valid.",
 ["inputs", "histories"], "all batches with valid, invalid, swapped and mutually cancelling signatures; repeated verification of one batch",
 "The tests add one obviously wrong signature; cancelling errors, for which a plain sum would be accepted, are tried once with two entries at most.",
 [BC+"bls/batch.rs", BC+"bls/public.rs", BC+"bls/signature.rs"], [("random exponents", "batch.rs verify"), ("exponent size", "batch.rs byte_count_from_target_batch_size")],
 "property testing with adversarial cancelling errors and an exponent oracle", "The code draws its weights from the operating system, so the verdict is deterministic up to 2^-128; the stand-in also records the weights, which must have at least 128 bits of freedom for all entries but one."+SHIM)
prop("C08", "Keys and signatures have one encoding, and only valid points are decoded",
 "Private keys, public keys and signatures round-trip through their compressed and uncompressed encodings, the bytes depend on the group element alone, and they are the standard ones: 32, 96 and 48 bytes compressed, 192 and 96 uncompressed (as the size functions report, and read or written one after another from streams), little-endian coordinates, sign and infinity flags in the top bits. Decoding any bytes either fails without panicking or returns an element of the prime-order subgroup that re-encodes to those bytes; truncated input, coordinates not below the modulus, contradictory flags, off-curve points and points outside the subgroup are refused.",
 ["inputs"], "all scalars and point representations; truncated, mutated, non-canonical, off-curve and off-subgroup encodings; arbitrary bytes",
 "Tests round-trip random elements only; no malformed encoding is tried, and the stored vectors cover few points.",
 [BC+"bls/secret.rs", BC+"bls/public.rs", BC+"bls/signature.rs"], [("encodings through the affine form", "CanonicalSerialize impls"), ("checked decoding", "CanonicalDeserialize impls")],
 "round-trip and differential property testing, with generated malformed encodings", "Non-canonical encodings of the identity are outside the property: the curve library accepts them."+SHIM)
prop("C09", "The public key cache never changes what decoding and aggregation return",
 "After any history of decodes, aggregations and clears, decoding bytes through the cache gives what decoding them afresh gives, and aggregation returns (and stores) the sum of the distinct keys in the list just passed, whatever lists came before, whatever the order and repetition within the list. The cache holds at most 512 decoded keys, and clearing it resets both the keys and the stored aggregate.",
 ["histories"], "all histories of decode (valid and invalid bytes), aggregate (drifting, repeated, disjoint and empty lists) and clear, with up to 560 distinct keys",
 "The tests run one short scripted history; the incremental update depends on every earlier list.",
 [BC+"bls/cache.rs"], [("incremental aggregate", "aggregate"), ("decode cache", "deserialize"), ("reset", "clear_cache")],
 "stateful model-based property testing", "Keys are passed in affine form, as decoding yields them; the model is a set of known scalars."+SHIM)
prop("C10", "Bit and byte conversions agree with positional notation and invert each other",
 "Packing bits, least or most significant first, gives the little-endian bytes of the number they denote, in ceil(n/8) bytes with zero padding at the top. Unpacking bytes returns the requested number of low bits of the little-endian number (all there are, if fewer), in the requested order, and both directions are inverse to each other.",
 ["inputs"], "all bit strings and byte strings, any length, any number of bits requested",
 "There are no tests of these functions themselves; circuits use them with a few fixed lengths.",
 [BG+"utils.rs"], [("packing", "bits_be_to_bytes_le, bits_le_to_bytes_le"), ("unpacking", "bytes_le_to_bits_be, bytes_le_to_bits_le")],
 "differential and round-trip property testing", "Compiled on its own, without the arkworks stand-ins.")
GAD = " The gadgets' own constraints run as they are; the constraint library is the stand-in, with pairing, Bowe-Hopwood and BLAKE2s as ideal gadgets. Lying provers are sampled (one to three witnesses changed, the rest computed honestly), not exhausted."
prop("C11", "The bitmap constraint holds exactly when the limit is respected",
 "For every non-empty bitmap, counted value (zeros or ones) and limit below half the field size, the constraints are satisfied by an honest witness if and only if the value occurs at most limit times, also with several hundred occurrences. When it occurs more often, no choice of the auxiliary witnesses satisfies them. The constraints do not depend on the values, and are the same at key generation and at proving.",
 ["inputs", "schedules"], "all bitmaps of 1 to several hundred bits (witness, public and constant bits), limits, and values a prover may substitute for auxiliary witnesses",
 "The tests try bitmaps of five bits with honest witnesses; long bitmaps and provers that lie about the count are not covered.",
 [BG+"bitmap.rs"], [("counting with a linear combination", "enforce_maximum_occurrences_in_bitmap"), ("count bound to the bits", "last constraint"), ("comparison", "enforce_cmp")],
 "property testing with a counting oracle, and adversarial witness substitution", "Found and fixed: an 8-bit counter overflowed beyond 255 matches."+GAD)
prop("C12", "The sign bit computed in a circuit is the one of point compression",
 "For every base field element the circuit's bit says whether it exceeds (p-1)/2, the zero test says whether it is 0, and the sign bit of a G1 or G2 point is that of its y coordinate: y > (p-1)/2, for G2 decided by the second coefficient unless that is 0, then by the first. Honest witnesses satisfy the constraints, and no choice of auxiliary witnesses makes them accept the other bit. The constraints do not depend on the values.",
 ["inputs", "schedules"], "all field elements (0, 1, (p-1)/2 and neighbours, p-1, random), as witness, public input or constant; points with any y; substituted auxiliary witnesses",
 "The tests take random points and four fixed y values with honest witnesses only.",
 [BG+"y_to_bit.rs"], [("bit against (p-1)/2", "normalize"), ("zero test", "is_eq_zero"), ("lexicographic rule for G2", "y_to_bit for G2Var")],
 "property testing against integer comparison, and adversarial witness substitution", "Known finding: the one element (p-1)/2 can be passed off as larger."+GAD)
prop("C13", "The circuit accepts a multi-signature exactly when it is valid",
 "For all public keys, bitmaps, limits, padding keys, messages and signatures away from the identity, the signature gadget is satisfied if and only if at most the allowed number of bits are 0, no key equal to the padding key has its bit set, and the signature is that of the sum of the keys whose bit is set. The aggregates it returns are the sums of the signing keys and of all keys, the batch gadget is satisfied if and only if the signature is the sum of each key's signature on its own message, and a bitmap or a batch of messages whose length differs from the number of keys is refused. Lying about auxiliary witnesses does not help, and the constraints do not depend on the values.",
 ["inputs", "schedules"], "all small sets of keys with repeated, cancelling and padding keys; signatures missing, adding or exchanging signers; witness, public and constant inputs; substituted auxiliary witnesses",
 "The tests run a handful of honest scenarios; padding keys in other positions, exchanged signers and lying provers are not covered.",
 [BG+"bls.rs"], [("selection by bit", "enforce_aggregated_pubkeys"), ("padding key forbidden", "conditional_enforce_not_equal"), ("pairing equation", "enforce_bls_equation")],
 "property testing with an oracle in the exponent, and adversarial witness substitution", "Identity points are outside the property: the pairing gadget of the library does not define them."+GAD)
prop("C14", "Hashing to the curve in a circuit yields the native hash, and nothing else",
 "For every message, extra data and counter, the circuit that hashes to the curve is satisfied if and only if the counter's candidate is good, and then its point, its compressed bits and its expanded bits are those of the native composite scheme with the deployed or the original sign bit as configured; no choice of auxiliary witnesses yields another point. The bit-expansion gadget returns exactly the bits of BLAKE2Xs with the personalisation, for every length in whole 256-bit blocks, whether constraints are generated or not.",
 ["inputs", "configurations", "schedules"], "all messages and extra data, all counters, both feature configurations, with and without hash constraints, 1 to 40 blocks",
 "The test hashes six random strings with honest witnesses and the right counter, in the default configuration.",
 [BG+"hash_to_group.rs", BG+"utils.rs"], [("decompression check", "hash_to_group"), ("cofactor", "scale_by_cofactor_g1"), ("expansion blocks", "hash_to_bits, blake2xs_params"), ("compression", "pedersen_hash")],
 "differential property testing against the native reference, and adversarial witness substitution", "Found and fixed: without constraints the length was ignored."+GAD)
EPO = " The constraint library, curves and the proof system are the stand-ins, with pairing, Bowe-Hopwood and BLAKE2s as ideal gadgets. Lying provers are sampled, not exhausted."
prop("C15", "Epoch blocks have one fixed encoding, and different blocks differ in it",
 "For every epoch block the encodings are the concatenation, in the published order, of index (16 bits), round (8), allowed non-signers (32), entropy and parent entropy (128 bits, zero if absent) and 755-bit public keys padded to the maximum with the G2 generator, low bit first for numbers and high bit first for keys, then read as a big-endian number into little-endian bytes. The public input of a proof is the BLAKE2s hash of the first block's encoding followed by that of the last block's with its aggregate key, and what validators sign is the hash to G1 of the inner encoding with index, round and limit as extra data. Blocks that differ in any encoded field have different encodings.",
 ["inputs"], "all indices, rounds, limits, entropies present or absent, key lists shorter, equal to or longer than the maximum, any key coordinates",
 "The tests encode a few blocks and compare two encodings of the same block; field order, padding, sign bits and byte order are checked at few values.",
 [ES+"epoch_block.rs", ES+"encoding.rs", "crates/bls-gadgets/src/utils.rs"], [("field order", "encode_*_cip22"), ("padding keys", "padding_pk"), ("key bits", "encoding.rs encode_public_key"), ("public input hash", "hash_first_last_epoch_block")],
 "differential property testing against a reference encoder, and metamorphic field changes", "Entropies of other lengths than 16 bytes, and inner encodings over the 19530 bytes that the composite hash takes (about 200 keys), are outside the property."+EPO)
prop("C16", "Packing bits into field elements is positional, lossless and enforced",
 "Packing yields, for each chunk of at most the element size, the field element whose big-endian value the chunk is, in order, both natively and in the circuit, as witnesses or as public inputs. Honest witnesses satisfy the constraints, and no other element or public input is accepted for the same bits, whatever a prover does. The constraints do not depend on the values, and are the same at key generation and at proving.",
 ["inputs", "schedules"], "all bit strings of 0 to 4 elements, element sizes 1 to the capacity of either field, witness and constant bits, private and public elements; substituted witnesses and public inputs",
 "The packing is tested only inside two other circuits with honest witnesses.",
 [ES+"gadgets/pack.rs", ES+"gadgets/mod.rs"], [("packing gadget", "MultipackGadget::pack"), ("native packing", "pack")],
 "differential property testing, and adversarial witness and input substitution", "Found and fixed: the bits above the packed ones were free."+EPO)
prop("C17", "An epoch in the circuit is the block: same numbers, keys, encoding and hash",
 "For every block the circuit's epoch has the block's index, limit, entropies and keys, its encodings are those of the native block, and its message hash is the native hash to G1; it is satisfied if and only if the index is the previous one plus one, or zero. Whatever a prover substitutes, the numbers and keys accepted are exactly those that the accepted encodings spell out and the hash commits to. The constraints do not depend on the values, and are the same at key generation and at proving.",
 ["inputs", "schedules"], "all blocks of 1 to 5 keys (repeated, negated, padding keys, any projective representation), previous indices next to and far from the index; substituted witnesses, including other projective coordinates for the same x",
 "The tests use honest witnesses with one block and six index pairs; a prover that uses a number or key its encoding does not show is never tried.",
 [ES+"gadgets/epoch_data.rs", ES+"gadgets/mod.rs"], [("encoding in the circuit", "EpochData::to_bits"), ("range of numbers", "fr_to_bits"), ("key bits", "g2_to_bits"), ("sequence", "enforce_next_epoch"), ("hash", "hash_bits_to_g1")],
 "differential property testing against the native encoding, and adversarial witness substitution", "Found and fixed: numbers with bits beyond their encoding, and free z coordinates of keys."+EPO)
prop("C18", "The circuit is satisfied exactly by signed, chained histories of validator sets",
 "For every history of epochs, dummies included, the circuit is satisfied if and only if each real epoch has the next index, names the previous entropy as its parent's (where the first epoch has one), at most the allowed number of the previous validators did not sign, no padding key signs, the last epoch is not a dummy, and the signature is the sum of the signers' signatures on the epochs' hashes. Its public inputs are the packed hash of the first and the last block: with any others it is unsatisfied. A prover with an unacceptable history cannot satisfy it by lying about its witnesses, and its constraints are those of key generation.",
 ["inputs", "histories", "schedules"], "all histories of 1 to 4 epochs with 1 to 5 validators, dummies and padding keys anywhere, limits up to 2^32-1, unacceptable in one or several ways; other public inputs; substituted witnesses",
 "The tests run a dozen fixed histories with honest witnesses and do not look at the public inputs.",
 [ES+"gadgets/epochs.rs", ES+"gadgets/single_update.rs", ES+"gadgets/epoch_bits.rs", ES+"gadgets/epoch_data.rs", BG+"bls.rs"], [("transition", "SingleUpdate::constrain"), ("state carried over dummies", "verify_intermediate_epochs"), ("signature", "verify_signature"), ("public inputs", "EpochBits::verify_edges")],
 "model-based property testing of histories with an oracle in the exponent, and adversarial witness substitution", "The first block's own entropy is not part of the public statement (old blocks lack it), so a prover may choose it; identity points are outside the property."+EPO)
prop("C19", "A proof verifies exactly for an acceptable history between the two blocks",
 "Setup, proving and verification, with one proof or two and with any number of transitions up to the maximum, give a verifying proof for every acceptable history, also with padded validator sets. For an unacceptable one there is an error or a proof that does not verify. A verifying proof does not verify for blocks that differ in any field their encodings cover, nor if the proof is altered, nor under the key of another setup.",
 ["inputs", "histories", "configurations"], "all histories of 1 to 3 transitions with up to 2 fewer than the maximum, 1 to 4 validators, unacceptable in one or several ways; every covered field changed; proof elements replaced",
 "The end-to-end tests are ignored for their cost, honest only, and never alter a block or a proof.",
 [ES+"api/prover.rs", ES+"api/setup.rs", ES+"api/verifier.rs", ES+"gadgets/hash_to_bits.rs"], [("dummy padding", "prove, to_dummy_update"), ("helper proof", "generate_hash_helper"), ("setup", "trusted_setup"), ("public input", "verify")],
 "end-to-end property testing with an acceptance oracle, and metamorphic alteration", "The proof system is a trapdoor prover that proves exactly satisfied circuits of the setup's shape; verification is real. Known finding: with two proofs the helper proof is not enforced. Found and fixed: dummies signed for padding keys."+EPO)
FFI = " The functions run in the checker's process on the pointers a C caller would pass; a case that ends the process or does not end is found and reported by the watching parent process."
prop("C20", "Signing and verifying through the C interface is the native scheme",
 "For every key, message and extra data, empty ones passed as null pointers included, the C functions produce the public key, signature and proof of possession that the scheme defines for the hash that the two flags choose, and their verdict is true exactly if the pairing equation holds for that hash, domain, message, extra data and key. Flags that choose no hash make the call fail, and a failing call sets no output. Generated keys are non-zero and do not repeat.",
 ["inputs", "configurations"], "all keys, messages, extra data and flag combinations; keys and signatures in any projective representation; null pointers for empty arrays; signatures for another message, key, hash or domain",
 "No test of the repository calls these functions.",
 [SYS+"signatures.rs"], [("choice of the hash", "sign_message, verify_signature"), ("proof of possession", "sign_pop, verify_pop"), ("raw arrays", "slice_from_raw in utils.rs")],
 "differential property testing against an independent reference in the exponent", "Found and fixed: null pointers for empty arrays were undefined behaviour."+SHIM+FFI)
prop("C21", "The C hash functions return the bytes of the native hashes",
 "For every message and extra data the direct and composite hash functions of the C interface return the coordinates of the native hash to the curve for the requested domain, and the number of the successful attempt. The compression and first-step functions return the native digest of the requested length.",
 ["inputs"], "all messages and extra data, both domains, digest lengths from 0 to 65535",
 "No test of the repository calls these functions.",
 [SYS+"signatures.rs"], [("direct hash and its attempt", "hash_direct, hash_direct_with_attempt"), ("composite hashes", "hash_composite, hash_composite_cip22"), ("first steps", "hash_crh, hash_direct_first_step")],
 "differential property testing against an independent reference", "The composite hashes return some projective coordinates of the point; the point is compared."+SHIM+FFI)
prop("C22", "Encodings that cross the C interface are canonical and reject malformed bytes",
 "The C functions encode every key and signature as the native encodings do and decode these again, with and without the cache. Truncated, non-canonical, off-curve and off-subgroup bytes make the call fail without ending the process or spoiling the cache, and compressing plain coordinates yields the x coordinate with the sign of y, or fails for malformed input.",
 ["inputs"], "all scalars and points in any projective representation; strings truncated, with numbers not below the modulus, wrong flags or points outside curve or subgroup; any pair of coordinates",
 "No test of the repository calls these functions.",
 [SYS+"serialization.rs"], [("encoding", "serialize, serialize_uncompressed"), ("decoding", "deserialize, deserialize_public_key_cached"), ("compression", "compress_signature, compress_pubkey")],
 "round-trip and differential property testing, with malformed input", "Found and fixed: malformed coordinates ended the process."+SHIM+FFI)
prop("C23", "Aggregates and batches through the C interface",
 "For every history of calls, from one thread or several, aggregating public keys returns the sum of the distinct keys of this call, and the subtracting variant the given key minus that sum; aggregating signatures returns their sum. Batch verification is true exactly if the product equation over all messages holds; the strict variant tells for every batch whether each of its signatures is valid for its own key, a batch with different numbers of keys and signatures is not valid, and succeeds exactly if all are.",
 ["histories", "schedules", "inputs"], "all sequences of slowly changing key sets through the shared cache, concurrent callers, lists of messages and batches of any length with wrong, exchanged and cancelling signatures",
 "No test of the repository calls these functions; the shared cache makes results depend on earlier and concurrent calls.",
 [SYS+"signatures.rs", SYS+"cache.rs", SYS+"utils.rs"], [("shared cache", "PUBLIC_KEY_CACHE"), ("batches", "batch_verify_signature, batch_verify_strict"), ("conversion", "Message, MessageFFI, Buffer")],
 "stateful and concurrent property testing against a model in the exponent", "A key listed twice in one call counts once if both have the same coordinates, as keys that were decoded do. Found and fixed: empty messages, and batches with a key but no signature."+SHIM+FFI)
prop("C24", "Epoch blocks and proofs through the C interface",
 "For every epoch block the C functions return the native encodings, and a block read from C data is the block it describes, with an absent entropy for a null pointer; a key that does not decode makes the read fail. A proof verifies through the C interface exactly if it does natively: the honest proof for its two blocks, and nothing for another index, limit, entropy, key, order of blocks, or for truncated or altered bytes of the proof or a truncated verifying key.",
 ["inputs"], "all blocks including empty and padded ones with either entropy missing; proofs of random acceptable histories with one or two proofs, and one change to a block or to the bytes",
 "The tests convert two random blocks and verify one fixed proof.",
 [SYS+"snark/epoch_block.rs", SYS+"snark/mod.rs"], [("encodings", "encode_epoch_block_to_bytes, encode_epoch_block_to_bytes_cip22"), ("reading a block", "TryFrom<&EpochBlockFFI>"), ("verification", "verify")],
 "differential property testing, and metamorphic testing of proofs", "Proofs come from the stand-in's trapdoor prover, which proves satisfied circuits only."+SHIM+FFI)
prop("C25", "What the C interface hands out is owned by the caller until released",
 "Every object and buffer that a C function hands out keeps its contents whatever is called in between, is released completely and with the layout it was allocated with by the matching release function, and releasing it returns true. A failing call hands out and keeps nothing, and releasing a null pointer returns false.",
 ["histories"], "all interleavings of calls and releases of the objects and buffers that the C functions return",
 "No test of the repository calls these functions, and a wrong layout or a leak does not show in results.",
 [SYS+"serialization.rs", SYS+"signatures.rs", SYS+"snark/epoch_block.rs"], [("handing out", "Box::into_raw, mem::forget"), ("release", "destroy_private_key, destroy_public_key, destroy_signature, free_vec")],
 "stateful property testing under a checking allocator", "The checker's allocator knows every layout and overwrites what is released; a leak has to repeat itself three times, since caches and lazily made tables stay."+SHIM+FFI)

prop("C26", "The helper circuit proves that hashes are expanded as published",
 "For any messages the helper circuit is satisfied by an honest witness, and its public inputs are the bits of all messages, packed, followed by the bits of the messages' 64-byte BLAKE2Xs expansions under the signature domain, packed on their own. Whatever a prover substitutes and whatever inputs it states, accepted public inputs spell out messages and their own expansions. The constraints do not depend on the messages and are those of key generation for as many messages of 384 bits.",
 ["inputs", "schedules"], "1 to 4 messages of 384 bits and of other whole numbers of bytes; other public inputs; substituted witnesses",
 "One test proves and verifies three random messages; it has no wrong statement and no lying prover.",
 [ES+"gadgets/hash_to_bits.rs", ES+"gadgets/pack.rs", BG+"hash_to_group.rs"], [("expansion per message", "HashToBits::generate_constraints"), ("statement", "MultipackGadget::pack"), ("key generation", "HashToBits::empty")],
 "differential property testing against a BLAKE2Xs written from the specification, and adversarial witness and input substitution", "The update circuit does not enforce this proof (known finding of C19); the property is about the helper circuit itself."+EPO)
