//! C22: serialization.
use crate::ffi::*;
use ark_bls12_377::{g1, g2, Fq, Fq2, Fr};
use ark_ff::{FpParameters, PrimeField, SquareRootField};
use ark_ec::models::SWModelParameters;
use bls_crypto::PrivateKey;
use bls_snark_sys::serialization as se;
use oracle::{nonzero_scalar, scalar, smul, RefCurve};
use pbt::{ensure, ensure_eq, hex, hexs, Case, Outcome};

pub fn encode(c: &mut Case) -> Outcome {
    let a = scalar(c);
    c.log(format!("scalar {}", hex(&oracle::fr_bytes(&a))));
    if a != Fr::from(0u64) { c.nontrivial_here(); }
    let (g, h) = (smul(&oracle::g2(), &a), smul(&oracle::g1(), &a));
    let (k, p, s) = (PrivateKey::from(a), pk(c, &a), sig(c, h));
    let hx = |v: Option<Vec<u8>>| v.map(|v| hex(&v));
    let kb = bytes(|o, l| se::serialize_private_key(&k, o, l))?;
    ensure_eq!(hx(kb), Some(hex(&oracle::fr_bytes(&a))), "private-key-bytes", "private key");
    let pb = bytes(|o, l| se::serialize_public_key(&p, o, l))?;
    ensure_eq!(hx(pb), Some(hex(&oracle::compress(&g))), "public-key-bytes", "public key");
    let pu = bytes(|o, l| se::serialize_public_key_uncompressed(&p, o, l))?;
    ensure_eq!(hx(pu), Some(hex(&oracle::uncompressed(&g))), "public-key-bytes-uncompressed", "uncompressed public key");
    let sb = bytes(|o, l| se::serialize_signature(&s, o, l))?;
    ensure_eq!(hx(sb), Some(hex(&oracle::compress(&h))), "signature-bytes", "signature");
    let su = bytes(|o, l| se::serialize_signature_uncompressed(&s, o, l))?;
    ensure_eq!(hx(su), Some(hex(&oracle::uncompressed(&h))), "signature-bytes-uncompressed", "uncompressed signature");
    // and back
    
    let kb = oracle::fr_bytes(&a);
    let r = private(|o| se::deserialize_private_key(kb.as_ptr(), kb.len() as i32, o))?;
    ensure_eq!(r.map(|k| *k.as_ref()), Some(a), "private-key-round", "decoded private key");
    let pb = oracle::compress(&g);
    let r = public(|o| se::deserialize_public_key(pb.as_ptr(), pb.len() as i32, o))?;
    ensure!(r.map(|k| *k.as_ref() == g) == Some(true), "public-key-round", "the decoded public key is another one");
    for _ in 0..2 { let r = public(|o| se::deserialize_public_key_cached(pb.as_ptr(), pb.len() as i32, o))?; ensure!(r.map(|k| *k.as_ref() == g) == Some(true), "public-key-cached", "the public key decoded through the cache is another one"); }
    let sb = oracle::compress(&h);
    let r = signature(|o| se::deserialize_signature(sb.as_ptr(), sb.len() as i32, o))?;
    ensure!(r.map(|k| *k.as_ref() == h) == Some(true), "signature-round", "the decoded signature is another one");
    unsafe { ensure!(!se::destroy_private_key(std::ptr::null_mut()) && !se::destroy_public_key(std::ptr::null_mut()) && !se::destroy_signature(std::ptr::null_mut()) && !se::free_vec(std::ptr::null_mut(), 0), "destroy-null", "destroying a null pointer returns true"); }
    Ok(())
}
fn modulus(bytes: usize, words: &[u64]) -> Vec<u8> { (0..bytes).map(|i| (words[i / 8] >> (8 * (i % 8))) as u8).collect() }
/// bytes that encode nothing: 0 private key, 1 public key, 2 signature
pub fn bad(c: &mut Case, kind: u64) -> (Vec<u8>, &'static str) {
    let a = nonzero_scalar(c);
    let mut good = match kind { 0 => oracle::fr_bytes(&a), 1 => oracle::compress(&smul(&oracle::g2(), &a)), _ => oracle::compress(&smul(&oracle::g1(), &a)) };
    let n = good.len();
    match c.below(if kind == 0 { 3 } else { 6 }) {
        0 => { let k = c.size(0, n - 1); good.truncate(k); (good, "truncated") }
        1 => {
            let o = if kind == 1 { 48 * c.size(0, 1) } else { 0 };
            let m = if kind == 0 { modulus(32, <Fr as PrimeField>::Params::MODULUS.as_ref()) } else { modulus(48, <Fq as PrimeField>::Params::MODULUS.as_ref()) };
            let (w, keep) = (m.len(), if kind == 0 { 0 } else { good[n - 1] & 0xc0 });
            good[o..o + w].copy_from_slice(&m);
            good[o] |= c.below(64) as u8 & 0x3e;
            if o + w == n { good[n - 1] |= keep; }
            (good, "number not below the modulus")
        }
        2 if kind == 0 => { good[31] |= 0xe0; (good, "bits above the modulus") }
        2 => { good[n - 1] |= 0xc0; (good, "both flags set") }
        3 => (if kind == 1 { oracle::compress(&oracle::off_subgroup::<g2::Parameters>(Fq2::new(Fq::from(c.u64()), Fq::from(c.u64())))) } else { oracle::compress(&oracle::off_subgroup::<g1::Parameters>(Fq::from(c.u64()))) }, "outside the subgroup"),
        4 => { if kind == 1 { good[47] |= 0x80 >> c.below(7); } else { good[47] |= 0x20; } (good, "bits above the modulus") }
        _ => {
            let mut x = c.u64();
            loop {
                let v = if kind == 1 { let mut b = oracle::fq_bytes(&Fq::from(x)); b.extend(oracle::fq_bytes(&Fq::from(7u64))); let p = g2::Parameters::x_from(&b).unwrap(); if (p * p * p + g2::Parameters::COEFF_B).sqrt().is_some() { None } else { Some(b) } }
                    else { let p = Fq::from(x); if (p * p * p + g1::Parameters::COEFF_B).sqrt().is_some() { None } else { Some(oracle::fq_bytes(&p)) } };
                if let Some(mut v) = v { let n = v.len(); if c.bool() { v[n - 1] |= 0x80; } return (v, "no point has this x"); }
                x = x.wrapping_add(1);
            }
        }
    }
}
pub fn malformed(c: &mut Case) -> Outcome {
    let kind = c.below(3);
    let (b, what) = bad(c, kind);
    c.log(format!("{}: {} {}", ["private key", "public key", "signature"][kind as usize], what, hexs(&b)));
    c.label(what);
    c.nontrivial_here();
    let (p, l) = raw(c, &b);
    let accepted = match kind {
        0 => private(|o| se::deserialize_private_key(p, l, o))?.is_some(),
        1 => { let mut r = public(|o| se::deserialize_public_key(p, l, o))?.is_some(); for _ in 0..2 { r |= public(|o| se::deserialize_public_key_cached(p, l, o))?.is_some(); } r }
        _ => signature(|o| se::deserialize_signature(p, l, o))?.is_some(),
    };
    ensure!(!accepted, "decode-accepts", "{} is decoded", what);
    // a failure leaves the cache usable
    let g = smul(&oracle::g2(), &nonzero_scalar(c));
    let v = oracle::compress(&g);
    let r = public(|o| se::deserialize_public_key_cached(v.as_ptr(), v.len() as i32, o))?;
    ensure!(r.map(|k| *k.as_ref() == g) == Some(true), "public-key-cached", "after a failure the cache decodes another key");
    Ok(())
}
fn coord(c: &mut Case) -> Fq {
    match c.below(4) { 0 => Fq::from(c.below(3)), 1 => -Fq::from(c.below(3)), 2 => { use ark_ff::Field; let h = Fq::from(2u64).inverse().unwrap(); if c.bool() { h + Fq::from(c.below(2)) } else { -h } } _ => { let mut b = c.random_bytes(48); b[47] = 0; oracle::fq(&b).unwrap() } }
}
/// plain coordinates to the compressed form
pub fn compress(c: &mut Case) -> Outcome {
    let key = c.bool();
    let (w, n) = if key { (96, 192) } else { (48, 96) };
    let curve = c.chance(1, 3);
    let k = nonzero_scalar(c);
    // x and y in plain form, and what they compress to
    let xy: Vec<Fq> = if curve { use ark_ec::ProjectiveCurve; if key { let a = smul(&oracle::g2(), &k).into_affine(); vec![a.x.c0, a.x.c1, a.y.c0, a.y.c1] } else { let a = smul(&oracle::g1(), &k).into_affine(); vec![a.x, a.y] } }
        else { (0..n / 48).map(|i| if key && i == 3 && c.bool() { Fq::from(0u64) } else { coord(c) }).collect() };
    let mut b: Vec<u8> = xy.iter().flat_map(oracle::fq_bytes).collect();
    let mut want = b[..w].to_vec();
    let high = if key { use oracle::Sign; Fq2::new(xy[2], xy[3]).high() } else { oracle::fq_high(&xy[1]) };
    if high { want[w - 1] |= 0x80; }
    let what = match c.below(5) {
        0 => { let k = c.size(0, n - 1); b.truncate(k); "too short" }
        1 => { let o = 48 * c.size(0, n / 48 - 1); let m = modulus(48, <Fq as PrimeField>::Params::MODULUS.as_ref()); b[o..o + 48].copy_from_slice(&m); b[o] |= c.below(64) as u8 & 0x3e; if c.bool() { b[o + 47] |= *c.pick(&[0x80, 0x40, 0x20, 0x02]); } "coordinate not below the modulus" }
        2 => { let t = c.bytes(7); b.extend(t); "bytes after the coordinates" }
        _ => "coordinates",
    };
    c.log(format!("{} {}: {} {}", if key { "public key" } else { "signature" }, what, if curve { "on the curve" } else { "any" }, hexs(&b)));
    c.label(what);
    c.nontrivial_here();
    let (p, l) = raw(c, &b);
    let r = bytes(|o, n| if key { se::compress_pubkey(p, l, o, n) } else { se::compress_signature(p, l, o, n) })?;
    if what == "too short" || what == "coordinate not below the modulus" { ensure!(r.is_none(), "compress-accepts", "{} is compressed", what); }
    else { ensure_eq!(r.map(|r| hex(&r)), Some(hex(&want)), "compress", "compressed form"); }
    Ok(())
}

/// A history of encoding and decoding through one buffer and objects that are overwritten in place.
pub fn related(c: &mut Case) -> Outcome {
    let a = nonzero_scalar(c);
    let mut ks = vec![a, -a];
    for _ in 0..c.size(0, 3) { let k = oracle::related(c, &a); ks.push(k); }
    let mut buf: Vec<u8> = Vec::with_capacity(400);
    let (mut sk, mut p, mut s) = (Box::new(PrivateKey::from(a)), Box::new(pk(c, &a)), { let x = smul(&oracle::g1(), &a); Box::new(sig(c, x)) });
    c.log(format!("scalar {} and related ones", hex(&oracle::fr_bytes(&a))));
    c.nontrivial_here();
    let hx = |v: Option<Vec<u8>>| v.map(|v| hex(&v));
    for i in 0..3 + c.size(0, 8) {
        let a = ks[c.size(0, ks.len() - 1)];
        let (g, h) = (smul(&oracle::g2(), &a), smul(&oracle::g1(), &a));
        let op = match c.below(13) { 5 | 6 if a == Fr::from(0u64) => 1, op => op }; // the identity has no coordinates to compress
        let broken = op > 6 && op < 11 && c.chance(1, 5);
        c.log(format!("{}{} of {}", ["serialize private key", "serialize key", "serialize key uncompressed", "serialize signature", "serialize signature uncompressed", "compress key", "compress signature", "decode private key", "decode key", "decode key cached", "decode signature", "decode key cached", "decode key"][op as usize], if broken { " (broken)" } else { "" }, hex(&oracle::fr_bytes(&a)[..4])));
        buf.clear();
        match op { 5 => buf.extend(oracle::uncompressed(&g)), 6 => buf.extend(oracle::uncompressed(&h)), 7 => buf.extend(oracle::fr_bytes(&a)), 8 | 9 | 11 | 12 => buf.extend(oracle::compress(&g)), 10 => buf.extend(oracle::compress(&h)), _ => {} }
        if op == 5 || op == 6 { let n = buf.len(); buf[n - 1] &= 0x3f; }
        if broken { let n = buf.len(); if c.bool() { buf[n - 1] |= 0xe0; } else { buf.pop(); } }
        let (q, l) = (buf.as_ptr(), buf.len() as i32);
        match op {
            0 => { *sk = PrivateKey::from(a); let b = bytes(|o, l| se::serialize_private_key(&*sk, o, l))?; ensure_eq!(hx(b), Some(hex(&oracle::fr_bytes(&a))), "related-bytes", "call {}", i); }
            1 => { *p = pk(c, &a); let b = bytes(|o, l| se::serialize_public_key(&*p, o, l))?; ensure_eq!(hx(b), Some(hex(&oracle::compress(&g))), "related-bytes", "call {}", i); }
            2 => { *p = pk(c, &a); let b = bytes(|o, l| se::serialize_public_key_uncompressed(&*p, o, l))?; ensure_eq!(hx(b), Some(hex(&oracle::uncompressed(&g))), "related-bytes", "call {}", i); }
            3 => { *s = sig(c, h); let b = bytes(|o, l| se::serialize_signature(&*s, o, l))?; ensure_eq!(hx(b), Some(hex(&oracle::compress(&h))), "related-bytes", "call {}", i); }
            4 => { *s = sig(c, h); let b = bytes(|o, l| se::serialize_signature_uncompressed(&*s, o, l))?; ensure_eq!(hx(b), Some(hex(&oracle::uncompressed(&h))), "related-bytes", "call {}", i); }
            5 => { let b = bytes(|o, n| se::compress_pubkey(q, l, o, n))?; ensure_eq!(hx(b), Some(hex(&oracle::compress(&g))), "related-bytes", "call {}", i); }
            6 => { let b = bytes(|o, n| se::compress_signature(q, l, o, n))?; ensure_eq!(hx(b), Some(hex(&oracle::compress(&h))), "related-bytes", "call {}", i); }
            7 => { let r = private(|o| se::deserialize_private_key(q, l, o))?; ensure_eq!(r.map(|k| *k.as_ref()), if broken { None } else { Some(a) }, "related-decode", "call {}", i); }
            8 | 12 => { let r = public(|o| se::deserialize_public_key(q, l, o))?; ensure!(r.map(|k| *k.as_ref() == g) == if broken { None } else { Some(true) }, "related-decode", "call {}: wrong public key or verdict", i); }
            9 | 11 => { let r = public(|o| se::deserialize_public_key_cached(q, l, o))?; ensure!(r.map(|k| *k.as_ref() == g) == if broken { None } else { Some(true) }, "related-decode", "call {}: wrong public key or verdict through the cache", i); }
            _ => { let r = signature(|o| se::deserialize_signature(q, l, o))?; ensure!(r.map(|k| *k.as_ref() == h) == if broken { None } else { Some(true) }, "related-decode", "call {}: wrong signature or verdict", i); }
        }
    }
    Ok(())
}
