//! C25: ownership of what the C interface hands out.
//!
//! The allocator of this program knows the layout of every allocation: releasing one with another
//! layout, or twice, ends the process, and released memory is overwritten.
use crate::enc;
use crate::epochs;
use crate::ffi::{extra, raw, short, POP, SIG};
use ark_bls12_377::{Fr, G1Projective, G2Projective};
use bls_crypto::{PrivateKey, PublicKey, Signature};
use bls_snark_sys::serialization as se;
use bls_snark_sys::signatures as f;
use bls_snark_sys::snark::epoch_block as eb;
use oracle::{h2g1, nonzero_scalar, smul, Hash};
use pbt::{blake2s_ref as b2, ensure, ensure_eq, fail, hexs, Case, Fail, Outcome};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::os::raw::c_int;

pub struct Checked;
const LIVE: usize = 0x5afe_a110_c000_0001;
const DEAD: usize = 0xdead_a110_c000_0002;
thread_local! { static BALANCE: Cell<(isize, isize)> = const { Cell::new((0, 0)) }; }
fn count(n: isize, b: isize) { let _ = BALANCE.try_with(|c| { let v = c.get(); c.set((v.0 + n, v.1 + b)); }); }
fn wrong(what: &str) -> ! {
    // without allocating
    use std::io::Write;
    let _ = std::io::stderr().write_all(what.as_bytes());
    std::process::abort()
}
fn outer(l: Layout) -> (usize, Layout) { let pad = l.align().max(32); (pad, Layout::from_size_align(l.size() + pad, pad.max(16)).unwrap()) }
unsafe impl GlobalAlloc for Checked {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let (pad, o) = outer(l);
        let p = System.alloc(o);
        if p.is_null() { return p; }
        let q = p.add(pad);
        let h = (q as *mut usize).sub(3);
        *h = LIVE; *h.add(1) = l.size(); *h.add(2) = l.align();
        count(1, l.size() as isize);
        q
    }
    unsafe fn dealloc(&self, q: *mut u8, l: Layout) {
        let h = (q as *mut usize).sub(3);
        if *h == DEAD { wrong("memory is released twice\n"); }
        if *h != LIVE { wrong("memory is released that was not allocated\n"); }
        if *h.add(1) != l.size() || *h.add(2) != l.align() { wrong("memory is released with another layout than it was allocated with\n"); }
        *h = DEAD;
        std::ptr::write_bytes(q, 0xdd, l.size());
        count(-1, -(l.size() as isize));
        let (pad, o) = outer(l);
        System.dealloc(q.sub(pad), o);
    }
}

enum Held { Private(*mut PrivateKey, Fr), Public(*mut PublicKey, G2Projective), Sig(*mut Signature, G1Projective), Bytes(*mut u8, c_int, Vec<u8>) }
impl Held {
    fn intact(&self) -> bool { unsafe { match self { Held::Private(p, k) => *(**p).as_ref() == *k, Held::Public(p, k) => *(**p).as_ref() == *k, Held::Sig(p, k) => *(**p).as_ref() == *k, Held::Bytes(p, n, v) => std::slice::from_raw_parts(*p, *n as usize) == &v[..] } } }
    fn destroy(self) -> bool { unsafe { match self { Held::Private(p, _) => se::destroy_private_key(p), Held::Public(p, _) => se::destroy_public_key(p), Held::Sig(p, _) => se::destroy_signature(p), Held::Bytes(p, n, _) => se::free_vec(p, n) } } }
}
fn o<T>(f: impl FnOnce(*mut *mut T) -> bool) -> Result<*mut T, Fail> { let mut p = std::ptr::null_mut(); if f(&mut p) && !p.is_null() { Ok(p) } else { fail("call-fails", "a call on good arguments fails") } }
fn v(want: Vec<u8>, f: impl FnOnce(*mut *mut u8, *mut c_int) -> bool) -> Result<Held, Fail> { let (mut p, mut n) = (std::ptr::null_mut(), -1); if f(&mut p, &mut n) && !p.is_null() { ensure_eq!(n as usize, want.len(), "length", "length of a buffer"); Ok(Held::Bytes(p, n, want)) } else { fail("call-fails", "a call on good arguments fails") } }
const KINDS: u64 = 21;
/// one call; what it hands out
fn call(c: &mut Case, kind: u64, a: &Fr, m: &[u8], e: &[u8]) -> Result<Vec<Held>, Fail> {
    let (k, p) = (PrivateKey::from(*a), PublicKey::from(smul(&oracle::g2(), a)));
    let hp = h2g1(Hash::Direct, SIG, m, e);
    let (g1, g2) = (smul(&hp, a), smul(&oracle::g2(), a));
    let s = Signature::from(g1);
    let ((mp, ml), (ep, el)) = (raw(c, m), raw(c, e));
    Ok(match kind {
        0 => { let b = oracle::fr_bytes(a); vec![Held::Private(o(|x| se::deserialize_private_key(b.as_ptr(), 32, x))?, *a)] }
        1 => vec![Held::Public(o(|x| f::private_key_to_public_key(&k, x))?, g2)],
        2 => vec![Held::Sig(o(|x| f::sign_message(&k, mp, ml, ep, el, false, false, x))?, g1)],
        3 => vec![Held::Sig(o(|x| f::sign_pop(&k, mp, ml, x))?, smul(&h2g1(Hash::Direct, POP, m, b""), a))],
        4 => { let b = oracle::compress(&g2); vec![Held::Public(o(|x| se::deserialize_public_key(b.as_ptr(), 96, x))?, g2)] }
        5 => { let b = oracle::compress(&g1); vec![Held::Sig(o(|x| se::deserialize_signature(b.as_ptr(), 48, x))?, g1)] }
        6 => vec![v(oracle::fr_bytes(a), |x, n| se::serialize_private_key(&k, x, n))?],
        7 => vec![v(oracle::compress(&g2), |x, n| se::serialize_public_key(&p, x, n))?],
        8 => vec![v(oracle::uncompressed(&g2), |x, n| se::serialize_public_key_uncompressed(&p, x, n))?],
        9 => vec![v(oracle::compress(&g1), |x, n| se::serialize_signature(&s, x, n))?],
        10 => vec![v(oracle::uncompressed(&g1), |x, n| se::serialize_signature_uncompressed(&s, x, n))?],
        11 => { let b = oracle::uncompressed(&g1); let mut b2 = b.clone(); b2[95] &= 0x3f; vec![v(oracle::compress(&g1), |x, n| se::compress_signature(b2.as_ptr(), 96, x, n))?] }
        12 => { let mut b = oracle::uncompressed(&g2); b[191] &= 0x3f; vec![v(oracle::compress(&g2), |x, n| se::compress_pubkey(b.as_ptr(), 192, x, n))?] }
        13 => { use ark_ec::ProjectiveCurve; let q = h2g1(Hash::Direct, SIG, m, b"").into_affine(); let w = [oracle::fq_bytes(&q.x), oracle::fq_bytes(&q.y), vec![0]].concat(); let mut t = 0; vec![if c.bool() { v(w, |x, n| f::hash_direct(mp, ml, x, n, false))? } else { v(w, |x, n| f::hash_direct_with_attempt(mp, ml, x, n, &mut t, false))? }] }
        14 => { let n0 = c.size(0, 200); vec![v(b2::hash(SIG, m, n0), |x, n| f::hash_direct_first_step(mp, ml, n0 as c_int, x, n))?] }
        15 => vec![v(oracle::bh_crh(m), |x, n| f::hash_crh(mp, ml, 96, x, n))?],
        16 => { let mut t = 0; let (mut x, mut n) = (std::ptr::null_mut(), -1); let ok = if c.bool() { f::hash_composite(mp, ml, ep, el, &mut x, &mut n) } else { f::hash_composite_cip22(mp, ml, ep, el, &mut x, &mut n, &mut t) }; ensure!(ok && n == 144, "call-fails", "a hash fails"); let w = unsafe { std::slice::from_raw_parts(x, 144) }.to_vec(); vec![Held::Bytes(x, n, w)] }
        17 => {
            let b = epochs::bl(c);
            let keys: Vec<PublicKey> = b.keys.iter().map(|k| PublicKey::from(*k)).collect();
            let ptrs: Vec<*const PublicKey> = keys.iter().map(|k| k as *const PublicKey).collect();
            let (mut y, mut yn) = (std::ptr::null_mut(), -1);
            let h = v(enc::to_bytes(&b.inner()), |x, n| eb::encode_epoch_block_to_bytes_cip22(b.index, b.round, epochs::ent(&b.ee), epochs::ent(&b.pe), b.mns, b.max as u32, ptrs.as_ptr(), ptrs.len() as i32, x, n, &mut y, &mut yn))?;
            let l = v(enc::to_bytes(&b.legacy()), |x, n| eb::encode_epoch_block_to_bytes(b.index, b.mns, ptrs.as_ptr(), ptrs.len() as i32, x, n))?;
            ensure_eq!(yn, 7, "length", "length of the extra data");
            vec![h, Held::Bytes(y, yn, enc::to_bytes(&b.extra())), l]
        }
        18 => { let sp: Vec<*const Signature> = vec![&s; c.size(0, 3)]; let t = Fr::from(sp.len() as u64) * a; vec![Held::Sig(o(|x| f::aggregate_signatures(sp.as_ptr(), sp.len() as i32, x))?, smul(&hp, &t))] }
        19 => {
            // a buffer of more than 64 kB
            let n = if c.chance(1, 4) { c.size(690, 760) } else { c.size(1, 30) };
            let ptrs: Vec<*const PublicKey> = vec![&p; n];
            let (i, l) = (c.u16(), c.u64() as u32);
            let one = enc::key_bits(&g2);
            let mut bits: Vec<bool> = (0..16).map(|k| i >> k & 1 == 1).chain((0..32).map(|k| l >> k & 1 == 1)).collect();
            for _ in 0..n { bits.extend_from_slice(&one); }
            vec![v(enc::to_bytes(&bits), |x, m| eb::encode_epoch_block_to_bytes(i, l, ptrs.as_ptr(), n as i32, x, m))?]
        }
        // failing calls hand out nothing
        _ => {
            let mut b = oracle::compress(&g2);
            b[95] |= 0xc0;
            let (mut x, mut y, mut z) = (std::ptr::null_mut(), std::ptr::null_mut(), std::ptr::null_mut());
            let mut n = 0;
            let mut w = std::ptr::null_mut();
            let ok = se::deserialize_public_key(b.as_ptr(), 96, &mut x) | se::deserialize_signature(b[48..].as_ptr(), 48, &mut y) | se::deserialize_private_key(b.as_ptr(), 31, &mut z) | se::compress_pubkey(b.as_ptr(), 95, &mut w, &mut n) | f::sign_message(&k, mp, ml, ep, el, false, true, &mut y);
            ensure!(!ok, "call-succeeds", "a call on bad arguments succeeds");
            vec![]
        }
    })
}
pub fn histories(c: &mut Case) -> Outcome {
    bls_snark_sys::init();
    let (a, m, e) = (nonzero_scalar(c), short(c), extra(c));
    let plan: Vec<(u64, u64)> = (0..c.size(1, 24)).map(|_| (c.below(KINDS + 1), c.u64())).collect();
    c.log(format!("calls {:?} with message {} extra {}", plan.iter().map(|p| p.0).collect::<Vec<_>>(), hexs(&m), hexs(&e)));
    if plan.len() > 1 { c.nontrivial_here(); }
    // what the library keeps for good is allocated by the first calls, a leak repeats itself
    for _ in 0..3 {
        let before = BALANCE.with(|b| b.get());
        play(&plan, &a, &m, &e)?;
        let after = BALANCE.with(|b| b.get());
        if after == before { return Ok(()); }
        if after.0 > before.0 { c.log(format!("{} allocations ({} bytes) more", after.0 - before.0, after.1 - before.1)); }
    }
    fail("leak", "allocations remain after everything was released, each time")
}
fn play(plan: &[(u64, u64)], a: &Fr, m: &[u8], e: &[u8]) -> Outcome {
    let mut held: Vec<Held> = Vec::with_capacity(128);
    for (kind, r) in plan {
        // choices of the call itself come from a case of its own, so that what it allocates is released here
        let mut d = Case::replay((0..40).map(|i| r.rotate_left(i) ^ i as u64).collect(), false);
        if *kind == KINDS {
            let p = o(|x| unsafe { f::generate_private_key(x) })?;
            let s = unsafe { *(*p).as_ref() };
            held.push(Held::Private(p, s));
        } else { held.extend(call(&mut d, *kind, a, m, e)?); }
        while r % 3 == 0 && held.len() > 2 {
            let h = held.swap_remove(*r as usize % held.len());
            ensure!(h.intact(), "intact", "what a call handed out has changed");
            ensure!(h.destroy(), "destroy", "releasing a live object returns false");
        }
        ensure!(held.iter().all(|h| h.intact()), "intact", "what an earlier call handed out has changed");
    }
    while let Some(h) = held.pop() { ensure!(h.intact(), "intact", "what a call handed out has changed"); ensure!(h.destroy(), "destroy", "releasing a live object returns false"); }
    Ok(())
}
