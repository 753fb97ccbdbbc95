//! C24: epoch blocks and proofs through the C interface.
use crate::enc::{self, Blk};
use crate::ffi::*;
use crate::{e2e, update};
use ark_serialize::CanonicalSerialize;
use bls_crypto::PublicKey;
use bls_snark_sys::snark::epoch_block as eb;
use bls_snark_sys::snark::epoch_block::EpochBlockFFI;
use epoch_snark::EpochBlock;
use pbt::{ensure, ensure_eq, fail, hexs, Case, Outcome};
use std::convert::TryFrom;

pub fn bl(c: &mut Case) -> Blk {
    let n = match c.below(4) { 0 => c.size(0, 1), _ => c.count(1, 6, 130) };
    let keys = (0..n).map(|_| enc::key(c)).collect();
    let max = match c.below(4) { 0 => 0, 1 => n, _ => n + c.count(0, 4, 300) };
    Blk { index: enc::number(c, 16) as u16, round: enc::number(c, 8) as u8, ee: enc::entropy(c), pe: enc::entropy(c), mns: enc::number(c, 32) as u32, max, keys }
}
pub fn ent(e: &Option<Vec<u8>>) -> *const u8 { e.as_ref().map_or(std::ptr::null(), |e| e.as_ptr()) }
pub fn encode(c: &mut Case) -> Outcome {
    let b = bl(c);
    c.log(b.show());
    if !b.keys.is_empty() { c.nontrivial_here(); }
    let keys: Vec<PublicKey> = b.keys.iter().map(|k| PublicKey::from(*k)).collect();
    let ptrs: Vec<*const PublicKey> = keys.iter().map(|k| k as *const PublicKey).collect();
    let (q, n) = raw(c, &ptrs);
    let (mut x, mut xl) = (std::ptr::null_mut(), -1);
    let m = bytes(|o, l| eb::encode_epoch_block_to_bytes_cip22(b.index, b.round, ent(&b.ee), ent(&b.pe), b.mns, b.max as u32, q, n, o, l, &mut x, &mut xl))?;
    let m = match m { Some(m) => m, None => return fail("encode-fails", "encoding fails") };
    let x = take(x, xl)?;
    ensure!(m == enc::to_bytes(&b.inner()), "inner", "the encoding is {} instead of {}", hexs(&m), hexs(&enc::to_bytes(&b.inner())));
    ensure_eq!(hexs(&x), hexs(&enc::to_bytes(&b.extra())), "extra", "extra data");
    let m = bytes(|o, l| eb::encode_epoch_block_to_bytes(b.index, b.mns, q, n, o, l))?;
    ensure_eq!(m.map(|m| hexs(&m)), Some(hexs(&enc::to_bytes(&b.legacy()))), "legacy", "encoding before CIP22");
    Ok(())
}
struct Flat { bytes: Vec<u8> }
fn flat(b: &Blk) -> Flat { Flat { bytes: b.keys.iter().flat_map(oracle::compress).collect() } }
fn ffi(b: &Blk, f: &Flat) -> EpochBlockFFI {
    EpochBlockFFI { index: b.index, round: b.round, epoch_entropy: ent(&b.ee), parent_entropy: ent(&b.pe), pubkeys: if f.bytes.is_empty() { std::ptr::null() } else { f.bytes.as_ptr() }, pubkeys_num: b.keys.len(), maximum_non_signers: b.mns, maximum_validators: b.max }
}
/// an encoding of a key that cannot be decoded
fn break_key(c: &mut Case, f: &mut Flat) {
    let n = f.bytes.len() / 96;
    let o = 96 * if c.chance(1, 3) { n - 1 } else { c.size(0, n - 1) };
    let (mut b, mut what) = crate::codec::bad(c, 1);
    if b.len() < 96 { b = f.bytes[o..o + 96].to_vec(); b[95] |= 0xc0; what = "both flags set"; }
    c.log(format!("key {} of {}: {}", o / 96, n, what));
    f.bytes[o..o + 96].copy_from_slice(&b);
}
pub fn blocks(c: &mut Case) -> Outcome {
    let b = bl(c);
    let mut f = flat(&b);
    let bad = !b.keys.is_empty() && c.chance(1, 4);
    c.log(format!("{}{}", b.show(), if bad { ", a key broken" } else { "" }));
    if !b.keys.is_empty() { c.nontrivial_here(); }
    let keys: Vec<PublicKey> = b.keys.iter().map(|k| PublicKey::from(*k)).collect();
    match eb::serialize_pubkeys(&keys) { Ok(v) => ensure_eq!(hexs(&v), hexs(&f.bytes), "serialize", "serialized keys"), Err(e) => return fail("serialize", e.to_string()) }
    if bad { c.label("a key broken"); break_key(c, &mut f); }
    match EpochBlock::try_from(&ffi(&b, &f)) {
        Ok(r) => { ensure!(!bad, "block-accepts", "a block with a broken key is read"); ensure!(r == b.block(), "block", "another block is read") }
        Err(e) => ensure!(bad, "block-rejects", "{}", e),
    }
    // a truncated object is not read, whatever its length says
    let k = PublicKey::from(oracle::g2());
    let mut v = vec![];
    k.serialize(&mut v).unwrap();
    let n = c.size(0, 96);
    let r = unsafe { eb::read_slice::<PublicKey>(if n == 0 { std::ptr::null() } else { v.as_ptr() }, n) };
    ensure!(r.is_ok() == (n == 96), "read-slice", "reading a key from {} bytes: {}", n, r.is_ok());
    Ok(())
}
pub fn verify(c: &mut Case) -> Outcome {
    let i = e2e::input(c, false);
    if i.h.identities() || i.h.fault().is_some() { return Ok(()); }
    let k = match e2e::keys(i.h.n(), i.max, i.two, 0) { Ok(k) => k, Err(e) => return fail("setup", e) };
    let p = match e2e::proof(&k, &i.h, i.max) { Ok(p) => p, Err(e) => return fail("prove", e) };
    let (mut vk, mut pr) = (vec![], vec![]);
    k.epochs.vk.serialize(&mut vk).unwrap();
    p.serialize(&mut pr).unwrap();
    let n = i.h.n();
    let (vk0, pr0) = (vk, pr);
    let (mut vk, mut pr) = (vk0.clone(), pr0.clone());
    let (mut fa, mut fb) = (flat(&i.h.first.b), flat(&i.h.epochs.last().unwrap().b));
    c.nontrivial_here();
    // several calls on the same buffers, each overwritten in place
    for call in 0..c.size(2, 5) {
    let (mut a, mut b) = (i.h.first.b.clone(), i.h.epochs.last().unwrap().b.clone());
    fn put(old: &mut Vec<u8>, new: Vec<u8>) { old.clear(); old.extend_from_slice(&new); }
    put(&mut vk, vk0.clone());
    put(&mut pr, pr0.clone());
    put(&mut fa.bytes, flat(&a).bytes);
    put(&mut fb.bytes, flat(&b).bytes);
    // the circuit does not see the first block's own entropy and no block's round
    let (what, expect) = match c.below(16) {
        0 | 1 => ("unchanged", true),
        2 => { a.round ^= 1; b.round ^= 4; ("rounds", true) }
        3 => { a.index ^= 1 << c.below(16); ("first index", false) }
        4 => { b.index ^= 1 << c.below(16); ("last index", false) }
        5 => { a.mns ^= 1 << c.below(32); ("first limit", false) }
        6 => { b.mns ^= 1 << c.below(32); ("last limit", false) }
        7 => { let mut e = b.ee.clone().unwrap_or(vec![0; 16]); e[c.size(0, 15)] ^= 1 << c.below(8); b.ee = Some(e); ("last entropy", false) }
        8 => { let mut e = a.pe.clone().unwrap_or(vec![0; 16]); e[c.size(0, 15)] ^= 1 << c.below(8); a.pe = Some(e); ("first parent entropy", false) }
        9 => { let j = c.size(0, n - 1); a.keys[j] = a.keys[j] + oracle::g2() + oracle::g2(); put(&mut fa.bytes, flat(&a).bytes); ("a first key", false) }
        10 => { let j = c.size(0, n - 1); b.keys[j] = b.keys[j] + oracle::g2() + oracle::g2(); put(&mut fb.bytes, flat(&b).bytes); ("a last key", false) }
        11 => { if c.bool() { break_key(c, &mut fa); } else { break_key(c, &mut fb); } ("a key that does not decode", false) }
        12 => { let k = c.size(0, vk.len() - 1); vk.truncate(k); ("truncated verifying key", false) }
        13 => { let k = c.size(0, pr.len() - 1); pr.truncate(k); ("truncated proof", false) }
        14 => { let k = c.size(0, pr.len() - 1); pr[k] ^= 1 << c.below(8); ("a bit of the proof", false) }
        _ => { std::mem::swap(&mut a, &mut b); std::mem::swap(&mut fa, &mut fb); ("blocks exchanged", false) }
    };
    c.log(what);
    c.label(what);
    let sum = |b: &Blk| b.apk() == ark_bls12_377::G2Projective::default();
    if sum(&b) { continue; }
    let (vq, vl) = raw(c, &vk);
    let (pq, pl) = raw(c, &pr);
    let v = unsafe { bls_snark_sys::snark::verify(vq, vl as u32, pq, pl as u32, ffi(&a, &fa), ffi(&b, &fb)) };
    ensure!(v == expect, if expect { "verify-rejects" } else { "verify-accepts" }, "call {}: {}: {}", call, what, v);
    }
    Ok(())
}
#[allow(dead_code)]
fn _u() { let _ = update::history; }
