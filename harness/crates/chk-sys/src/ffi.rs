//! Calling the C interface as a C program does: out parameters, raw pointers, explicit destruction.
use ark_bls12_377::{Fq, Fq2, Fr, G1Projective, G2Projective};
use bls_crypto::{PrivateKey, PublicKey, Signature};
use bls_snark_sys::serialization as se;
use oracle::{rescale, smul, Hash};
use pbt::{ensure, Case, Fail};
use std::os::raw::c_int;

pub const SIG: &[u8] = b"ULforxof";
pub const POP: &[u8] = b"ULforpop";
/// an object that the library has allocated, destroyed through the library
pub struct Obj<T>(pub *mut T, unsafe extern "C" fn(*mut T) -> bool);
impl<T> std::ops::Deref for Obj<T> { type Target = T; fn deref(&self) -> &T { unsafe { &*self.0 } } }
impl<T> Drop for Obj<T> { fn drop(&mut self) { let ok = unsafe { (self.1)(self.0) }; if !ok && !std::thread::panicking() { panic!("destroying a live object returns false") } } }
/// None: the function returned false
pub fn obj<T>(destroy: unsafe extern "C" fn(*mut T) -> bool, f: impl FnOnce(*mut *mut T) -> bool) -> Result<Option<Obj<T>>, Fail> {
    let mut p: *mut T = std::ptr::null_mut();
    let ok = f(&mut p);
    ensure!(ok != p.is_null(), "out-pointer", "the call returns {}, and the object pointer is {}", ok, if p.is_null() { "null" } else { "set" });
    Ok(if ok { Some(Obj(p, destroy)) } else { None })
}
pub fn private(f: impl FnOnce(*mut *mut PrivateKey) -> bool) -> Result<Option<Obj<PrivateKey>>, Fail> { obj(se::destroy_private_key, f) }
pub fn public(f: impl FnOnce(*mut *mut PublicKey) -> bool) -> Result<Option<Obj<PublicKey>>, Fail> { obj(se::destroy_public_key, f) }
pub fn signature(f: impl FnOnce(*mut *mut Signature) -> bool) -> Result<Option<Obj<Signature>>, Fail> { obj(se::destroy_signature, f) }
/// bytes that the library has allocated, copied and freed through the library
pub fn take(p: *mut u8, len: c_int) -> Result<Vec<u8>, Fail> {
    ensure!(!p.is_null() && len >= 0, "out-pointer", "the call succeeds with a null buffer or length {}", len);
    let v = unsafe { std::slice::from_raw_parts(p, len as usize) }.to_vec();
    ensure!(unsafe { se::free_vec(p, len) }, "free", "freeing a live buffer returns false");
    Ok(v)
}
pub fn bytes(f: impl FnOnce(*mut *mut u8, *mut c_int) -> bool) -> Result<Option<Vec<u8>>, Fail> {
    let (mut p, mut n): (*mut u8, c_int) = (std::ptr::null_mut(), -1);
    if !f(&mut p, &mut n) { ensure!(p.is_null() && n == -1, "out-pointer", "the call fails and sets the buffer or its length"); return Ok(None); }
    take(p, n).map(Some)
}
/// a boolean out parameter, which holds either value before the call; None: the function returned false
pub fn flag(c: &mut Case, f: impl FnOnce(*mut bool) -> bool) -> Result<Option<bool>, Fail> {
    let before = c.bool();
    let mut b = before;
    if f(&mut b) { return Ok(Some(b)); }
    ensure!(b == before, "output-on-failure", "the call fails and sets its output");
    Ok(None)
}
/// a null pointer is how a C caller passes nothing
pub fn raw<T>(c: &mut Case, v: &[T]) -> (*const T, c_int) { if v.is_empty() && c.bool() { c.label("null pointer for nothing"); (std::ptr::null(), 0) } else { (v.as_ptr(), v.len() as c_int) } }
pub fn short(c: &mut Case) -> Vec<u8> { if c.chance(1, 8) { return vec![]; } let n = if c.chance(1, 40) { c.count(0, 300, 5000) } else { c.len_near(&[8, 32], 70) }; c.bytes(n) }
pub fn extra(c: &mut Case) -> Vec<u8> { if c.chance(1, 3) { return vec![]; } let n = if c.chance(1, 60) { c.count(0, 300, 1000) } else { c.len_near(&[8, 32], 40) }; c.bytes(n) }
/// the hash function that the two flags choose
pub fn mode(composite: bool, cip22: bool) -> Option<Hash> { match (composite, cip22) { (true, true) => Some(Hash::CompositeCip22), (true, false) => Some(Hash::Composite), (false, false) => Some(Hash::Direct), (false, true) => None } }
/// mostly the direct hash, which is fast
pub fn flags(c: &mut Case) -> (bool, bool) { *c.pick(&[(false, false), (false, false), (true, true), (true, false), (false, true)]) }
pub fn show(f: (bool, bool)) -> String { format!("composite={} cip22={}", f.0, f.1) }
pub fn rep1(c: &mut Case, p: G1Projective) -> G1Projective { if c.chance(1, 3) { rescale(&p, Fq::from(c.range(2, 1 << 40))) } else { p } }
pub fn rep2(c: &mut Case, p: G2Projective) -> G2Projective { if c.chance(1, 3) { rescale(&p, Fq2::new(Fq::from(c.range(2, 1 << 40)), Fq::from(c.below(1 << 40)))) } else { p } }
pub fn pk(c: &mut Case, a: &Fr) -> PublicKey { let p = smul(&oracle::g2(), a); PublicKey::from(rep2(c, p)) }
pub fn sig(c: &mut Case, p: G1Projective) -> Signature { Signature::from(rep1(c, p)) }
