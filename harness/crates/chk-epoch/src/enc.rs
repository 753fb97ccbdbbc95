//! C15: the encodings of epoch blocks, and the reference for them used by the other parts.
use ark_bls12_377::{Fq, Fq2, Fr, G2Projective};
use ark_ec::ProjectiveCurve;
use ark_ff::{One, Zero};
use bls_crypto::PublicKey;
use epoch_snark::{hash_first_last_epoch_block, EpochBlock, EpochType};
use oracle::{fq_bytes, h2g1, nonzero_scalar, rescale, smul, Hash, Sign};
use pbt::{blake2s_ref as b2, ensure, ensure_eq, hex, Case, Outcome};

// ------------------------------------------------------------------ reference
fn le(v: u64, n: usize) -> Vec<bool> { (0..n).map(|i| v >> i & 1 == 1).collect() }
fn coord(x: &Fq) -> Vec<bool> { let b = fq_bytes(x); (0..377).rev().map(|i| b[i / 8] >> (i % 8) & 1 == 1).collect() }
pub fn key_bits(p: &G2Projective) -> Vec<bool> {
    let a = p.into_affine();
    let mut v = [coord(&a.x.c0), coord(&a.x.c1)].concat();
    v.push(a.y.high());
    v
}
pub fn entropy_bits(e: &Option<Vec<u8>>) -> Vec<bool> { match e { None => vec![false; 128], Some(e) => { assert_eq!(e.len(), 16); e.iter().flat_map(|b| le(*b as u64, 8)).collect() } } }
/// the bit string as a big-endian number, in little-endian bytes
pub fn to_bytes(bits: &[bool]) -> Vec<u8> {
    let mut v = vec![0u8; (bits.len() + 7) / 8];
    for (i, b) in bits.iter().rev().enumerate() { if *b { v[i / 8] |= 1 << (i % 8); } }
    v
}
pub fn out_hash(bytes: &[u8]) -> Vec<bool> { b2::crh(b"ULforout", bytes, 0).iter().flat_map(|b| le(*b as u64, 8)).collect() }
#[derive(Clone)]
pub struct Blk { pub index: u16, pub round: u8, pub ee: Option<Vec<u8>>, pub pe: Option<Vec<u8>>, pub mns: u32, pub max: usize, pub keys: Vec<G2Projective> }
impl Blk {
    pub fn block(&self) -> EpochBlock { EpochBlock::new(self.index, self.round, self.ee.clone(), self.pe.clone(), self.mns, self.max, self.keys.iter().map(|k| PublicKey::from(*k)).collect()) }
    fn keys_bits(&self, padded: bool) -> Vec<bool> {
        let mut v: Vec<bool> = self.keys.iter().flat_map(key_bits).collect();
        if padded { for _ in self.keys.len()..self.max { v.extend(key_bits(&oracle::g2())); } }
        v
    }
    pub fn legacy(&self) -> Vec<bool> { [le(self.index as u64, 16), le(self.mns as u64, 32), self.keys_bits(false)].concat() }
    pub fn first(&self) -> Vec<bool> { [le(self.index as u64, 16), entropy_bits(&self.pe), le(self.mns as u64, 32), self.keys_bits(true)].concat() }
    pub fn last(&self) -> Vec<bool> { [le(self.index as u64, 16), entropy_bits(&self.ee), le(self.mns as u64, 32), self.keys_bits(true)].concat() }
    pub fn apk(&self) -> G2Projective { self.keys.iter().fold(G2Projective::zero(), |a, k| a + k) }
    pub fn last_apk(&self) -> Vec<bool> { [self.last(), key_bits(&self.apk())].concat() }
    pub fn inner(&self) -> Vec<bool> { [entropy_bits(&self.ee), entropy_bits(&self.pe), self.keys_bits(true)].concat() }
    pub fn extra(&self) -> Vec<bool> { [le(self.index as u64, 16), le(self.round as u64, 8), le(self.mns as u64, 32)].concat() }
    pub fn hash(&self) -> ark_bls12_377::G1Projective { h2g1(Hash::CompositeCip22, b"ULforxof", &to_bytes(&self.inner()), &to_bytes(&self.extra())) }
    pub fn show(&self) -> String {
        let e = |e: &Option<Vec<u8>>| match e { None => "none".into(), Some(e) => hex(e) };
        format!("index={} round={} entropy={} parent={} non-signers={} maximum={} keys=[{}]", self.index, self.round, e(&self.ee), e(&self.pe), self.mns, self.max,
            self.keys.iter().map(|k| hex(&oracle::compress(k)[..4])).collect::<Vec<_>>().join(","))
    }
}
pub fn first_last(a: &Blk, b: &Blk) -> Vec<bool> { [out_hash(&to_bytes(&a.first())), out_hash(&to_bytes(&b.last_apk()))].concat() }

// ------------------------------------------------------------------ generators
pub fn entropy(c: &mut Case) -> Option<Vec<u8>> { if c.chance(1, 5) { None } else { Some(c.bytes(16)) } }
fn edge(c: &mut Case) -> Fq {
    match c.below(5) {
        0 => Fq::zero(), 1 => Fq::from(c.below(4)), 2 => -Fq::from(c.below(4)),
        // around (p-1)/2
        3 => { let h = -Fq::from(1u64) * half(); if c.bool() { h + Fq::from(c.below(3)) } else { h - Fq::from(c.below(3)) } }
        _ => { let mut b = c.random_bytes(48); b[47] = 0; oracle::fq(&b).unwrap() }
    }
}
fn half() -> Fq { use ark_ff::Field; Fq::from(2u64).inverse().unwrap() }
pub fn key(c: &mut Case) -> G2Projective {
    let p = smul(&oracle::g2(), &nonzero_scalar(c));
    if c.chance(1, 3) { rescale(&p, Fq2::new(Fq::from(2 + c.below(1 << 40)), Fq::from(c.below(1 << 40)))) } else { p }
}
/// any affine coordinates: encoding a key does not look at the curve equation
fn coordinates(c: &mut Case) -> G2Projective {
    let (x0, x1) = (edge(c), edge(c));
    let (y0, y1) = (edge(c), if c.bool() { Fq::zero() } else { edge(c) });
    G2Projective::new(Fq2::new(x0, x1), Fq2::new(y0, y1), Fq2::one())
}
pub fn number(c: &mut Case, bits: u32) -> u64 {
    let m = if bits == 64 { u64::MAX } else { (1 << bits) - 1 };
    match c.below(4) { 0 => c.below(4), 1 => m - c.below(3), 2 => 1 << c.below(bits as u64), _ => c.u64() & m }
}
fn block(c: &mut Case, odd: bool) -> Blk {
    let n = match c.below(4) { 0 => c.size(0, 1), 1 => 1, _ => c.count(1, 6, 160) };
    let mut keys: Vec<G2Projective> = vec![];
    for i in 0..n {
        let k = if odd && c.chance(1, 3) { coordinates(c) } else if i > 0 && c.chance(1, 4) { let k = keys[if c.bool() { i - 1 } else { c.size(0, i - 1) }]; match c.below(4) { 0 if !odd => smul(&k, &oracle::lambda()), 1 => -k, _ => k } } else { key(c) };
        keys.push(k);
    }
    let max = match c.below(4) { 0 => 0, 1 => n, 2 => n.saturating_sub(1), _ => n + c.count(1, 4, 130) };
    Blk { index: number(c, 16) as u16, round: number(c, 8) as u8, ee: entropy(c), pe: entropy(c), mns: number(c, 32) as u32, max, keys }
}
fn bits(v: &[bool]) -> String { v.iter().map(|b| if *b { '1' } else { '0' }).collect() }
macro_rules! same { ($got:expr, $want:expr, $sig:expr) => {{ let (g, w) = ($got, $want); match g { Err(e) => return pbt::fail($sig, format!("error {}", e)), Ok(g) => { if g != w { let at = g.iter().zip(w.iter()).position(|(a, b)| a != b); return pbt::fail($sig, format!("{} bits or bytes instead of {}, first difference at {:?}", g.len(), w.len(), at)); } } } }} }

pub fn encodings(c: &mut Case) -> Outcome {
    let k = block(c, true);
    c.log(k.show());
    if k.max > k.keys.len() { c.label("padded"); }
    if k.ee.is_none() || k.pe.is_none() { c.label("an entropy is missing"); }
    if k.keys.iter().any(|k| k.into_affine().y.c1.is_zero()) { c.label("a key with y.c1 = 0"); }
    if !k.keys.is_empty() { c.nontrivial_here(); }
    let b = k.block();
    same!(b.encode_to_bits(), k.legacy(), "legacy-bits");
    same!(b.encode_to_bytes(), to_bytes(&k.legacy()), "legacy-bytes");
    same!(b.encode_to_bits_cip22(EpochType::First), k.first(), "first-bits");
    same!(b.encode_to_bits_cip22(EpochType::Last), k.last(), "last-bits");
    same!(b.encode_first_epoch_to_bytes_cip22(), to_bytes(&k.first()), "first-bytes");
    same!(b.blake2_first_epoch_cip22(), out_hash(&to_bytes(&k.first())), "first-hash");
    match b.encode_inner_to_bits_cip22() { Err(e) => return pbt::fail("inner-bits", e.to_string()), Ok((m, x)) => {
        ensure!(m == k.inner(), "inner-bits", "the inner bits differ");
        ensure_eq!(bits(&x), bits(&k.extra()), "extra-bits", "extra data");
    } }
    match b.encode_inner_to_bytes_cip22() { Err(e) => return pbt::fail("inner-bytes", e.to_string()), Ok((m, x)) => {
        ensure!(m == to_bytes(&k.inner()), "inner-bytes", "the inner bytes differ");
        ensure_eq!(hex(&x), hex(&to_bytes(&k.extra())), "extra-bytes", "extra data");
    } }
    ensure_eq!(bits(&EpochBlock::encode_entropy_cip22(k.ee.as_ref())), bits(&entropy_bits(&k.ee)), "entropy-bits", "entropy");
    Ok(())
}
pub fn last(c: &mut Case) -> Outcome {
    let (f, l) = (block(c, true), block(c, false));
    if l.apk().is_zero() { return Ok(()); }
    c.log(format!("first: {} last: {}", f.show(), l.show()));
    if l.max > l.keys.len() { c.label("padded"); }
    c.nontrivial_here();
    let b = l.block();
    same!(b.encode_last_epoch_to_bits_with_aggregated_pk_cip22(), l.last_apk(), "last-apk-bits");
    same!(b.encode_last_epoch_to_bytes_with_aggregated_pk_cip22(), to_bytes(&l.last_apk()), "last-apk-bytes");
    same!(b.blake2_last_epoch_with_aggregated_pk_cip22(), out_hash(&to_bytes(&l.last_apk())), "last-hash");
    same!(hash_first_last_epoch_block(&f.block(), &b), first_last(&f, &l), "first-last-hash");
    Ok(())
}
pub fn hash(c: &mut Case) -> Outcome {
    let mut k = block(c, true);
    if to_bytes(&k.inner()).len() > 19530 { c.label("keys not padded up to the maximum, which the hash cannot take"); k.max = 0; }
    c.log(k.show());
    c.nontrivial_here();
    match k.block().hash_to_g1_cip22() { Err(e) => pbt::fail("hash-error", e.to_string()), Ok(p) => { ensure!(p == k.hash(), "hash", "the point differs from the hash of the inner encoding with the extra data"); Ok(()) } }
}
/// a small change to a block
pub fn relate(c: &mut Case, b: &mut Blk) -> &'static str {
    let n = b.keys.len();
    match c.below(14) {
        0 if n > 0 => { let i = c.size(0, n - 1); b.keys[i] = -b.keys[i]; "a key negated" }
        1 if n > 0 => { for k in b.keys.iter_mut() { *k = -*k; } "all keys negated" }
        2 if n > 0 => { let i = c.size(0, n - 1); b.keys[i] = smul(&b.keys[i], &oracle::lambda()); "a key times a cube root of unity" }
        3 if n > 0 => { let i = if c.bool() { n - 1 } else { c.size(0, n - 1) }; b.keys[i] = key(c); "a key replaced" }
        4 if n > 1 => { let i = c.size(1, n - 1); b.keys.swap(i, i - 1); "two keys exchanged" }
        5 if n > 0 => { let i = c.size(0, n - 1); b.keys.remove(i); "a key removed" }
        6 => { let k = if n > 0 && c.bool() { b.keys[n - 1] } else { key(c) }; b.keys.push(k); "a key added" }
        7 => { b.index ^= 1 << c.below(16); "index" }
        8 => { b.round ^= 1 << c.below(8); "round" }
        9 => { b.mns ^= 1 << c.below(32); "limit" }
        10 => { std::mem::swap(&mut b.ee, &mut b.pe); "entropies exchanged" }
        11 => { let e = if c.bool() { &mut b.ee } else { &mut b.pe }; match e { None => *e = Some(vec![0; 16]), Some(v) => { let i = c.size(0, 15); v[i] ^= 1 << c.below(8); } } "an entropy" }
        12 => { b.max = match c.below(4) { 0 => b.max + 1, 1 => n, 2 => n + 3, _ => b.max.saturating_sub(1) }; "maximum" }
        13 => { b.pe = b.ee.clone(); b.index = b.index.wrapping_add(1); "the epoch after" }
        _ => "nothing",
    }
}
/// A history of encodings of blocks that differ in little: each answer depends on its own block alone.
pub fn related(c: &mut Case) -> Outcome {
    let mut k = block(c, false);
    k.keys.truncate(6);
    k.max = k.max.min(k.keys.len() + 4);
    let mut first = k.clone();
    c.log(k.show());
    c.nontrivial_here();
    for i in 0..2 + c.size(0, 5) {
        if i > 0 { let w = relate(c, &mut k); c.log(w); if c.chance(1, 6) { std::mem::swap(&mut k, &mut first); c.log("the first again"); } }
        if k.keys.iter().any(|k| k.is_zero()) || k.apk().is_zero() { k.keys = vec![oracle::g2()]; }
        // as one object for several encodings, or one object each
        let one = k.block();
        let b = || if i % 2 == 0 { one.clone() } else { k.block() };
        match c.below(8) {
            0 => same!(b().encode_to_bits(), k.legacy(), "related-legacy"),
            1 => same!(b().encode_to_bytes(), to_bytes(&k.legacy()), "related-legacy"),
            2 => same!(b().encode_to_bits_cip22(EpochType::First), k.first(), "related-first"),
            3 => { same!(b().encode_to_bits_cip22(EpochType::Last), k.last(), "related-last"); same!(b().blake2_first_epoch_cip22(), out_hash(&to_bytes(&k.first())), "related-first-hash") }
            4 => { match b().encode_inner_to_bytes_cip22() { Err(e) => return pbt::fail("related-inner", e.to_string()), Ok((m, x)) => { ensure!(m == to_bytes(&k.inner()), "related-inner", "call {}: the inner bytes differ", i); ensure_eq!(hex(&x), hex(&to_bytes(&k.extra())), "related-inner", "call {}: extra data", i); } } }
            5 => same!(b().encode_last_epoch_to_bytes_with_aggregated_pk_cip22(), to_bytes(&k.last_apk()), "related-last-apk"),
            6 => { match b().hash_to_g1_cip22() { Err(e) => return pbt::fail("related-hash", e.to_string()), Ok(p) => ensure!(p == k.hash(), "related-hash", "call {}: the point differs from the hash of the inner encoding with the extra data", i) } }
            _ => { if first.keys.iter().any(|k| k.is_zero()) || first.apk().is_zero() { first.keys = vec![oracle::g2()]; } same!(hash_first_last_epoch_block(&first.block(), &b()), first_last(&first, &k), "related-first-last") }
        }
    }
    Ok(())
}
/// two blocks that differ have different encodings, as far as the encoding covers the difference
pub fn distinct(c: &mut Case) -> Outcome {
    let mut a = block(c, false);
    while a.keys.is_empty() || a.apk().is_zero() { let k = key(c); a.keys.push(k); }
    let mut b = a.clone();
    let n = a.keys.len();
    let what = c.below(8);
    // which of first, last, inner, extra data change
    let (name, d) = match what {
        0 => { b.index ^= 1 << c.below(16); ("index", [true, true, false, true]) }
        1 => { b.round ^= 1 << c.below(8); ("round", [false, false, false, true]) }
        2 => { b.mns ^= 1 << c.below(32); ("non-signers", [true, true, false, true]) }
        3 => { let mut e = a.ee.clone().unwrap_or(vec![0; 16]); e[c.size(0, 15)] ^= 1 << c.below(8); b.ee = Some(e); ("entropy", [false, true, true, false]) }
        4 => { let mut e = a.pe.clone().unwrap_or(vec![0; 16]); e[c.size(0, 15)] ^= 1 << c.below(8); b.pe = Some(e); ("parent entropy", [true, false, true, false]) }
        5 => { let i = c.size(0, n - 1); b.keys[i] = -b.keys[i]; ("a key negated", [true, true, true, false]) }
        6 => { b.keys.push(oracle::g2() + oracle::g2()); b.max = 0; a.max = 0; ("a key more", [true, true, true, false]) }
        _ => { let i = c.size(0, n - 1); b.keys[i] += oracle::g2(); ("a key changed", [true, true, true, false]) }
    };
    if b.keys.iter().any(|k| k.is_zero()) || b.apk().is_zero() { return Ok(()); }
    c.log(format!("{} differs: {}", name, a.show()));
    c.label(name);
    c.nontrivial_here();
    let enc = |k: &Blk| { let b = k.block(); let (m, x) = b.encode_inner_to_bytes_cip22().unwrap(); [b.encode_first_epoch_to_bytes_cip22().unwrap(), b.encode_last_epoch_to_bytes_with_aggregated_pk_cip22().unwrap(), m, x] };
    let (p, q) = (enc(&a), enc(&b));
    for i in 0..4 { ensure!((p[i] != q[i]) == d[i], "distinct", "{} differs, encoding {} {}", name, ["first", "last", "inner", "extra data"][i], if d[i] { "does not" } else { "does too" }); }
    Ok(())
}
pub fn fr_keys(ks: &[Fr]) -> Vec<G2Projective> { ks.iter().map(|k| smul(&oracle::g2(), k)).collect() }
