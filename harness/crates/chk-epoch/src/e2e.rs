//! C19: setup, prove, verify.
use crate::enc::{self, Blk};
use crate::update::{history, spoil, History};
use ark_bls12_377::{Bls12_377, Fq, Fr};
use ark_bw6_761::BW6_761;
use ark_ec::{AffineCurve, ProjectiveCurve};
use ark_ff::PrimeField;
use ark_groth16::{Proof, VerifyingKey};
use ark_relations::r1cs::ConstraintSynthesizer;
use bls_crypto::Signature;
use circ::*;
use epoch_snark::{prove, trusted_setup, verify, EpochBlock, EpochTransition, HashToBitsHelper, Parameters, SingleUpdate, ValidatorSetUpdate, VerificationError};
use oracle::random_scalar;
use pbt::{ensure, fail, no_panic, Case, Outcome};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex, OnceLock};
pub type Keys = Parameters<BW6_761, Bls12_377>;
pub type P = Proof<BW6_761>;

type Slot = Arc<OnceLock<Result<Arc<Keys>, String>>>;
static SETUPS: Mutex<BTreeMap<(usize, usize, bool, u64), Slot>> = Mutex::new(BTreeMap::new());
/// keys for n validators and max transitions; two different ones are kept for each size
pub fn keys(n: usize, max: usize, two: bool, which: u64) -> Result<Arc<Keys>, String> {
    let slot = SETUPS.lock().unwrap_or_else(|e| e.into_inner()).entry((n, max, two, which)).or_default().clone();
    slot.get_or_init(|| {
        use rand::SeedableRng;
        let mut rng = rand_chacha::ChaChaRng::seed_from_u64(which * 1000 + n as u64 * 10 + max as u64);
        match no_panic(|| trusted_setup(n, max, n / 3, &mut rng, two)) { Ok(Ok(k)) if k.hash_to_bits.is_some() == two => Ok(Arc::new(k)), Ok(Ok(_)) => Err(format!("the setup for {} has {}", if two { "two proofs" } else { "one proof" }, if two { "no helper parameters" } else { "helper parameters" })), Ok(Err(e)) => Err(format!("{:?}", e)), Err(p) => Err(p) }
    }).clone()
}
fn transitions(h: &History) -> Vec<EpochTransition> {
    // the signatures only have to add up
    let mut parts = h.parts();
    let d = h.sig - h.signature();
    *parts.last_mut().unwrap() += d;
    h.epochs.iter().zip(parts).map(|(e, s)| EpochTransition { block: e.b.block(), aggregate_signature: Signature::from(s), bitmap: e.bits.clone() }).collect()
}
pub fn proof(k: &Keys, h: &History, max: usize) -> Result<P, String> {
    let (first, t) = (h.first.b.block(), transitions(h));
    match no_panic(|| prove(k, h.n() as u32, &first, &t, max)) { Ok(Ok(p)) => Ok(p), Ok(Err(e)) => Err(format!("{:?}", e)), Err(p) => Err(p) }
}
thread_local! { static SLOT: RefCell<VerifyingKey<BW6_761>> = RefCell::new(VerifyingKey::default()); }
/// every key is used at the same place, as from a reused buffer
fn verdict(vk: &VerifyingKey<BW6_761>, f: &EpochBlock, l: &EpochBlock, p: &P) -> Result<bool, String> {
    SLOT.with(|s| s.borrow_mut().clone_from(vk));
    match no_panic(|| SLOT.with(|s| verify(&s.borrow(), f, l, p))) { Ok(Ok(())) => Ok(true), Ok(Err(VerificationError::VerificationFailed)) => Ok(false), Ok(Err(e)) => Err(e.to_string()), Err(p) => Err(format!("panic: {}", p)) }
}
pub struct In { pub h: History, pub max: usize, pub two: bool }
pub fn input(c: &mut Case, spoilt: bool) -> In {
    let (n, m) = match c.weighted(&[20, 1, 1]) { 0 => (c.size(1, 4), c.size(1, 3)), 1 => (*c.pick(&[6usize, 9, 16, 30]), 1), _ => (2, *c.pick(&[5usize, 9])) };
    let max = m + match c.weighted(&[12, 8, 4, 3]) { 3 => 3 + c.size(0, 4), k => k };
    let mut h = history(c, n, m, false, false);
    let mut what = vec![];
    if spoilt { for _ in 0..c.weighted(&[2, 3]) { what.push(spoil(c, &mut h)); } }
    let two = c.chance(1, 4);
    c.log(format!("{} transitions at most{}: {} [{}]", max, if two { ", two proofs" } else { "" }, h.show(), what.join(", ")));
    if max > m { c.label("fewer transitions than the maximum"); }
    c.label(if two { "two proofs" } else { "one proof" });
    In { h, max, two }
}
pub fn end_to_end(c: &mut Case) -> Outcome {
    let i = input(c, true);
    // a block of index 0 inside would be taken for one of the dummies that fill up the circuit
    if i.h.identities() || i.h.epochs[..i.h.epochs.len() - 1].iter().any(|e| e.dummy()) { return Ok(()); }
    let f = i.h.fault();
    c.label(f.unwrap_or("acceptable"));
    if f.is_none() && i.max > i.h.epochs.len() && i.h.before().last().unwrap().ks.iter().any(|k| *k == Fr::from(1u64)) { c.label("dummies after padded validators"); }
    c.nontrivial_here();
    let k = match keys(i.h.n(), i.max, i.two, 0) { Ok(k) => k, Err(e) => return fail("setup", e) };
    let p = match proof(&k, &i.h, i.max) { Ok(p) => p, Err(e) => { return if f.is_none() { fail("prove", format!("proving an acceptable history: {}", e)) } else { c.label("not proved"); Ok(()) } } };
    let (a, b) = (i.h.first.b.block(), i.h.epochs.last().unwrap().b.block());
    match (f, verdict(&k.epochs.vk, &a, &b, &p)) {
        (None, Ok(true)) => Ok(()),
        (None, v) => fail("refused", format!("the proof of an acceptable history does not verify: {:?}", v)),
        (Some(_), Ok(false)) => Ok(()),
        (Some(w), Ok(true)) => fail("accepted", format!("a verifying proof in spite of: {}", w)),
        (Some(_), Err(e)) => fail("verify-error", e),
    }
}
/// a verifying proof does not verify for anything else
pub fn binding(c: &mut Case) -> Outcome {
    let i = input(c, false);
    if i.h.identities() || i.h.fault().is_some() { return Ok(()); }
    let k = match keys(i.h.n(), i.max, i.two, 0) { Ok(k) => k, Err(e) => return fail("setup", e) };
    let p = match proof(&k, &i.h, i.max) { Ok(p) => p, Err(e) => return fail("prove", e) };
    let (f, l) = (i.h.first.b.clone(), i.h.epochs.last().unwrap().b.clone());
    let at = |f: &Blk, l: &Blk, p: &P| verdict(&k.epochs.vk, &f.block(), &l.block(), p);
    ensure!(at(&f, &l, &p) == Ok(true), "refused", "the proof of an acceptable history does not verify");
    let n = i.h.n();
    let j = c.size(0, n - 1);
    let (mut f2, mut l2, mut p2) = (f.clone(), l.clone(), p.clone());
    let g1 = |c: &mut Case| { let s = ark_bw6_761::Fr::from(1 + c.u64() / 2); ark_bw6_761::G1Affine::prime_subgroup_generator().mul(s.into_repr()).into_affine() };
    let what = match c.below(20) {
        0 => { f2.index ^= 1 << c.below(16); "first index" }
        1 => { f2.mns ^= 1 << c.below(32); "first limit" }
        2 => { f2.keys[j] = -f2.keys[j]; "a first key negated" }
        3 => { f2.keys[j] = enc::fr_keys(&[random_scalar(c)])[0]; "a first key" }
        4 => { l2.index ^= 1 << c.below(16); "last index" }
        5 => { l2.mns ^= 1 << c.below(32); "last limit" }
        6 => { l2.keys[j] = enc::fr_keys(&[random_scalar(c)])[0]; "a last key" }
        7 => { let mut e = l2.ee.clone().unwrap_or(vec![0; 16]); e[c.size(0, 15)] ^= 1 << c.below(8); l2.ee = Some(e); "last entropy" }
        8 => { let mut e = f2.pe.clone().unwrap_or(vec![0; 16]); e[c.size(0, 15)] ^= 1 << c.below(8); f2.pe = Some(e); "first parent entropy" }
        9 => { std::mem::swap(&mut f2, &mut l2); "first and last exchanged" }
        // nothing has to be proved about a block and itself, but a proof it takes all the same
        16 => { l2 = f2.clone(); "the first block as the last" }
        17 => { f2 = l2.clone(); "the last block as the first" }
        18 => { f2.index = l2.index; f2.mns = l2.mns; f2.keys = l2.keys.clone(); "first with the numbers and keys of the last" }
        19 => { p2 = P::default(); "an empty proof" }
        10 => { f2.keys.push(oracle::g2()); f2.max = n + 1; "a first key more" }
        11 => { p2.a = g1(c); "proof a" }
        12 => { p2.c = g1(c); "proof c" }
        13 => { p2.a = -p2.a; "proof a negated" }
        14 => { p2.b = -p2.b; "proof b negated" }
        _ => {
            let o = match keys(n, i.max, i.two, 1) { Ok(k) => k, Err(e) => return fail("setup", e) };
            c.label("another verifying key");
            c.nontrivial_here();
            ensure!(verdict(&o.epochs.vk, &f.block(), &l.block(), &p) == Ok(false), "other-key", "the proof verifies under the key of another setup");
            ensure!(at(&f, &l, &p) == Ok(true), "refused", "the proof of an acceptable history does not verify after another key was used");
            return Ok(());
        }
    };
    if l2.apk() == ark_bls12_377::G2Projective::default() { return Ok(()); }
    c.log(what);
    c.label(what);
    c.nontrivial_here();
    match at(&f2, &l2, &p2) { Ok(false) => Ok(()), v => fail("other-statement", format!("{} changed: {:?}", what, v)) }
}
/// In two-proof mode the circuit takes any helper proof: what its verifier gadget returns is not enforced.
pub fn helper(c: &mut Case) -> Outcome {
    let h = history(c, 2, 1, false, true);
    if h.identities() || h.fault().is_some() { return Ok(()); }
    c.log(h.show());
    c.nontrivial_here();
    let k = match keys(2, 1, true, 0) { Ok(k) => k, Err(e) => return fail("setup", e) };
    let vk = k.hash_to_bits.as_ref().unwrap().vk.clone();
    let g = |c: &mut Case| oracle::smul(&oracle::g1(), &random_scalar(c)).into_affine();
    let junk: Proof<Bls12_377> = Proof { a: g(c), b: oracle::smul(&oracle::g2(), &random_scalar(c)).into_affine(), c: g(c) };
    let r = run::<Fq, _>(None, |cs| ValidatorSetUpdate::<Bls12_377> { initial_epoch: crate::data::data(&h.first.b), num_validators: 2,
        epochs: h.epochs.iter().map(|e| SingleUpdate { epoch_data: crate::data::data(&e.b), signed_bitmap: e.bits.iter().map(|b| Some(*b)).collect() }).collect(),
        aggregated_signature: Some(h.sig), hash_helper: Some(HashToBitsHelper { proof: junk.clone(), verifying_key: vk.clone() }) }.generate_constraints(cs));
    ensure!(!r.sat, "helper-ignored", "the circuit accepts random points as the helper proof");
    Ok(())
}
