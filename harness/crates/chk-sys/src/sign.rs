//! C20: signing and verifying. C21: hashes.
use crate::ffi::*;
use ark_bls12_377::{Fq, Fr, G1Projective};
use ark_ec::ProjectiveCurve;
use ark_ff::Zero;
use bls_crypto::{PrivateKey, Signature};
use bls_snark_sys::signatures as f;
use oracle::{fq_bytes, h2g1, nonzero_scalar, scalar, smul, Hash};
use pbt::{blake2s_ref as b2, ensure, ensure_eq, fail, hex, hexs, Case, Outcome};
use std::os::raw::c_int;

pub fn sign(c: &mut Case) -> Outcome {
    bls_snark_sys::init();
    let (a, fl) = (scalar(c), flags(c));
    let (m, e) = (short(c), extra(c));
    c.log(format!("sign {}: key={} message={} extra={}", show(fl), hex(&oracle::fr_bytes(&a)), hexs(&m), hexs(&e)));
    if !a.is_zero() { c.nontrivial_here(); }
    let k = PrivateKey::from(a);
    let p = match public(|o| f::private_key_to_public_key(&k, o))? { Some(p) => p, None => return fail("to-public", "no public key") };
    ensure!(*p.as_ref() == smul(&oracle::g2(), &a), "to-public", "the public key is not the key times the generator");
    let ((mp, ml), (ep, el)) = (raw(c, &m), raw(c, &e));
    let s = signature(|o| f::sign_message(&k, mp, ml, ep, el, fl.0, fl.1, o))?;
    match (mode(fl.0, fl.1), &s) {
        (None, None) => {}
        (None, Some(_)) => return fail("sign-flags", "a signature for flags that choose no hash"),
        (Some(_), None) => return fail("sign-fails", "signing fails"),
        (Some(h), Some(s)) => {
            ensure!(*s.as_ref() == smul(&h2g1(h, SIG, &m, &e), &a), "sign-point", "the signature is not the key times the message hash");
            let v = flag(c, |o| f::verify_signature(&*p, mp, ml, ep, el, &**s, fl.0, fl.1, o))?;
            ensure_eq!(v, Some(true), "verify-own", "verification of the own signature");
        }
    }
    let q = match signature(|o| f::sign_pop(&k, mp, ml, o))? { Some(q) => q, None => return fail("sign-fails", "signing a proof of possession fails") };
    ensure!(*q.as_ref() == smul(&h2g1(Hash::Direct, POP, &m, b""), &a), "pop-point", "the proof of possession is not the key times the message hash under its domain");
    let v = flag(c, |o| f::verify_pop(&*p, mp, ml, &*q, o))?;
    ensure_eq!(v, Some(true), "verify-own", "verification of the own proof of possession");
    Ok(())
}
pub fn verify(c: &mut Case) -> Outcome {
    let (a, pop) = (scalar(c), c.chance(1, 3));
    let fl = if pop { (false, false) } else { flags(c) };
    let (m, e) = (short(c), if pop { vec![] } else { extra(c) });
    let own = match mode(fl.0, fl.1) { Some(h) => h, None => {
        let (p, s) = (pk(c, &a), sig(c, smul(&oracle::g1(), &a)));
        let ((mp, ml), (ep, el)) = (raw(c, &m), raw(c, &e));
        c.label("flags that choose no hash");
        let v = flag(c, |o| f::verify_signature(&p, mp, ml, ep, el, &s, fl.0, fl.1, o))?;
        ensure_eq!(v, None, "verify-flags", "verification with flags that choose no hash");
        return Ok(());
    } };
    let (mut b, mut m2, mut e2, mut h2, mut d2, mut delta) = (a, m.clone(), e.clone(), own, if pop { POP } else { SIG }, G1Projective::zero());
    let kind = c.below(11);
    let what = match kind {
        0 | 1 => "unchanged",
        2 => { if m2.is_empty() { m2.push(0); } else { let i = c.size(0, m2.len() - 1); m2[i] ^= 1 << c.below(8); } "another message" }
        3 => { if e2.is_empty() { e2.push(c.u8()); } else { let i = c.size(0, e2.len() - 1); e2[i] ^= 1 << c.below(8); } "other extra data" }
        4 => { b = scalar(c); "another key" }
        5 => { b = -a; "negated" }
        6 => { h2 = *c.pick(&[Hash::Direct, Hash::Composite, Hash::CompositeCip22]); "another hash" }
        7 => { d2 = if pop { SIG } else { POP }; "another domain" }
        8 => { let all = [&e2[..], &m2[..]].concat(); let i = c.size(0, all.len()); e2 = all[..i].to_vec(); m2 = all[i..].to_vec(); "boundary between extra data and message moved" }
        9 => { delta = smul(&oracle::g1(), &nonzero_scalar(c)); "a generator multiple added" }
        _ => { m2.push(0); "message extended" }
    };
    c.log(format!("verify{} {}: key={} message={} extra={}, {}", if pop { "_pop" } else { "" }, show(fl), hex(&oracle::fr_bytes(&a)), hexs(&m), hexs(&e), what));
    let s = smul(&h2g1(h2, d2, &m2, &e2), &b) + delta;
    let expect = s == smul(&h2g1(own, if pop { POP } else { SIG }, &m, &e), &a);
    if kind > 1 || !a.is_zero() { c.nontrivial_here(); }
    c.label(if expect { "accepting" } else { "rejecting" });
    let (p, s) = (pk(c, &a), sig(c, s));
    let ((mp, ml), (ep, el)) = (raw(c, &m), raw(c, &e));
    let v = flag(c, |o| if pop { f::verify_pop(&p, mp, ml, &s, o) } else { f::verify_signature(&p, mp, ml, ep, el, &s, fl.0, fl.1, o) })?;
    ensure_eq!(v, Some(expect), if expect { "verify-rejects" } else { "verify-accepts" }, "{}", what);
    Ok(())
}
/// A history of calls with objects and buffers that are overwritten in place, as a C caller reuses them:
/// each answer depends on what the arguments hold at the time of the call.
pub fn related(c: &mut Case) -> Outcome {
    let mut a = nonzero_scalar(c);
    let mut fl = *c.pick(&[(false, false), (false, false), (true, true), (true, false)]);
    let (mut m, mut e) = (short(c), { let n = c.size(0, 24); c.bytes(n) });
    m.truncate(200);
    e.truncate(200);
    let (mut mb, mut eb): (Vec<u8>, Vec<u8>) = (Vec::with_capacity(600), Vec::with_capacity(600));
    let (mut k, mut p, mut s) = (Box::new(PrivateKey::from(a)), Box::new(pk(c, &a)), Box::new(sig(c, G1Projective::zero())));
    let mut sp = G1Projective::zero();
    c.nontrivial_here();
    for i in 0..3 + c.size(0, 6) {
        if i > 0 { match c.below(8) {
            0 => { a = -a; *k = PrivateKey::from(a); *p = pk(c, &a); }
            1 => { let x = oracle::related(c, &a); a = if x.is_zero() { Fr::from(5u64) } else { x }; *k = PrivateKey::from(a); *p = pk(c, &a); }
            2 | 3 => c.relate(&mut [&mut m, &mut e]),
            4 => c.relate(&mut [&mut m]),
            5 => fl = *c.pick(&[(false, false), (true, true), (true, false)]),
            _ => {}
        } }
        m.truncate(500);
        e.truncate(500);
        // the same place in memory, other contents
        mb.clear(); mb.extend_from_slice(&m);
        eb.clear(); eb.extend_from_slice(&e);
        let ((mp, ml), (ep, el)) = ((mb.as_ptr(), mb.len() as c_int), (eb.as_ptr(), eb.len() as c_int));
        let h = mode(fl.0, fl.1).unwrap();
        let op = c.weighted(&[4, 3, 1, 2, 1]);
        c.log(format!("{} {}: key={} message={} extra={}", ["verify", "sign", "sign_pop", "verify_pop", "to public key"][op], show(fl), hex(&oracle::fr_bytes(&a)[..4]), hexs(&m), hexs(&e)));
        match op {
            0 | 3 => {
                let target = if op == 0 { smul(&h2g1(h, SIG, &m, &e), &a) } else { smul(&h2g1(Hash::Direct, POP, &m, b""), &a) };
                if c.chance(1, 3) { sp = target; *s = sig(c, sp); }
                let v = flag(c, |o| if op == 0 { f::verify_signature(&*p, mp, ml, ep, el, &*s, fl.0, fl.1, o) } else { f::verify_pop(&*p, mp, ml, &*s, o) })?;
                c.label(if sp == target { "related: accepting" } else { "related: rejecting" });
                ensure_eq!(v, Some(sp == target), if sp == target { "related-rejects" } else { "related-accepts" }, "call {}", i);
            }
            1 | 2 => {
                let want = if op == 1 { smul(&h2g1(h, SIG, &m, &e), &a) } else { smul(&h2g1(Hash::Direct, POP, &m, b""), &a) };
                let r = signature(|o| if op == 1 { f::sign_message(&*k, mp, ml, ep, el, fl.0, fl.1, o) } else { f::sign_pop(&*k, mp, ml, o) })?;
                ensure!(r.as_ref().map(|r| *r.as_ref() == want) == Some(true), "related-sign", "call {}: not the key times the message hash", i);
                sp = want;
                *s = Signature::from(*r.unwrap().as_ref());
            }
            _ => { let q = public(|o| f::private_key_to_public_key(&*k, o))?; ensure!(q.map(|q| *q.as_ref() == smul(&oracle::g2(), &a)) == Some(true), "related-public", "call {}: not the key times the generator", i); }
        }
    }
    Ok(())
}
/// keys that the library generates here
pub fn some_keys(n: usize) -> Vec<String> {
    (0..n).map(|_| match private(|o| unsafe { f::generate_private_key(o) }) { Ok(Some(k)) => hex(&oracle::fr_bytes(k.as_ref())), _ => String::new() }).filter(|k| !k.is_empty()).collect()
}
pub fn generate(c: &mut Case) -> Outcome {
    let n = 16;
    c.log(format!("{} generated keys", n));
    c.nontrivial_here();
    let mut seen = std::collections::HashSet::new();
    let mut bits = [false; 252];
    for _ in 0..n {
        let k = match private(|o| unsafe { f::generate_private_key(o) })? { Some(k) => k, None => return fail("generate", "no key") };
        let s: Fr = *k.as_ref();
        ensure!(!s.is_zero() && seen.insert(hex(&oracle::fr_bytes(&s))), "generate", "a generated key is zero or repeats");
        for (i, b) in bits.iter_mut().enumerate() { *b |= oracle::fr_bytes(&s)[i / 8] >> (i % 8) & 1 == 1; }
        let p = match public(|o| f::private_key_to_public_key(&*k, o))? { Some(p) => p, None => return fail("to-public", "no public key") };
        ensure!(*p.as_ref() == smul(&oracle::g2(), &s), "to-public", "the public key is not the key times the generator");
    }
    // other threads and other processes get other keys
    let others: Vec<_> = (0..4).map(|_| std::thread::spawn(|| some_keys(3))).collect();
    let children: Vec<_> = (0..2).map(|_| std::process::Command::new(std::env::current_exe().unwrap()).arg("--keys").stdout(std::process::Stdio::piped()).spawn().unwrap()).collect();
    let mut more: Vec<String> = others.into_iter().flat_map(|t| t.join().unwrap()).collect();
    for ch in children { more.extend(String::from_utf8(ch.wait_with_output().unwrap().stdout).unwrap().lines().map(str::to_string)); }
    ensure_eq!(more.len(), 4 * 3 + 2 * 3, "generate", "keys generated in other threads and processes");
    for k in more { ensure!(k != hex(&oracle::fr_bytes(&Fr::zero())) && seen.insert(k), "generate-apart", "a key generated in another thread or process is zero or repeats"); }
    // 2^-16 for each bit: a few may stay zero
    ensure!(bits.iter().filter(|b| !**b).count() < 12, "generate-small", "many bits are zero in all {} keys", n);
    Ok(())
}

// ------------------------------------------------------------------ C21
fn affine(p: &G1Projective) -> Vec<u8> { let a = p.into_affine(); [fq_bytes(&a.x), fq_bytes(&a.y), vec![p.is_zero() as u8]].concat() }
/// three coordinates of a point in any representation
fn point(b: &[u8]) -> Option<G1Projective> {
    if b.len() != 144 { return None; }
    let (x, y, z): (Fq, Fq, Fq) = (oracle::fq(&b[..48])?, oracle::fq(&b[48..96])?, oracle::fq(&b[96..])?);
    Some(G1Projective::new(x, y, z))
}
pub fn hash_direct(c: &mut Case) -> Outcome {
    let (m, pop) = (short(c), c.bool());
    c.log(format!("{} message={}", if pop { "pop" } else { "sig" }, hexs(&m)));
    c.nontrivial_here();
    let (p, n) = oracle::hash_to_curve::<ark_bls12_377::g1::Parameters>(Hash::Direct, true, if pop { POP } else { SIG }, &m, b"").unwrap();
    if n > 0 { c.label("more than one attempt"); }
    let (mp, ml) = raw(c, &m);
    let h = bytes(|o, l| f::hash_direct(mp, ml, o, l, pop))?;
    ensure_eq!(h.map(|h| hex(&h)), Some(hex(&affine(&p))), "hash-direct", "direct hash");
    let mut k: c_int = -1;
    let h = bytes(|o, l| f::hash_direct_with_attempt(mp, ml, o, l, &mut k, pop))?;
    ensure_eq!(h.map(|h| hex(&h)), Some(hex(&affine(&p))), "hash-direct-attempt", "direct hash");
    ensure_eq!(k, n as c_int, "attempt", "number of the attempt");
    Ok(())
}
pub fn hash_composite(c: &mut Case) -> Outcome {
    let (m, e, cip22) = (short(c), extra(c), c.bool());
    c.log(format!("{} message={} extra={}", if cip22 { "cip22" } else { "composite" }, hexs(&m), hexs(&e)));
    c.nontrivial_here();
    let (p, n) = oracle::hash_to_curve::<ark_bls12_377::g1::Parameters>(if cip22 { Hash::CompositeCip22 } else { Hash::Composite }, true, SIG, &m, &e).unwrap();
    if n > 0 { c.label("more than one attempt"); }
    let ((mp, ml), (ep, el)) = (raw(c, &m), raw(c, &e));
    let mut k = c.u8();
    let h = bytes(|o, l| if cip22 { f::hash_composite_cip22(mp, ml, ep, el, o, l, &mut k) } else { f::hash_composite(mp, ml, ep, el, o, l) })?;
    let h = match h { Some(h) => h, None => return fail("hash-fails", "hashing fails") };
    ensure!(point(&h) == Some(p), "hash-composite", "the {} bytes are not the coordinates of the hash", h.len());
    if cip22 { ensure_eq!(k, n as u8, "counter", "counter of the attempt"); }
    Ok(())
}
pub fn first_steps(c: &mut Case) -> Outcome {
    let m = short(c);
    let n = match c.below(3) { 0 => c.size(0, 130), 1 => 32 * c.size(0, 40) + c.size(0, 2), _ => c.size(0, 65535) };
    c.log(format!("message={} length={}", hexs(&m), n));
    if n > 0 { c.nontrivial_here(); }
    let (mp, ml) = raw(c, &m);
    let h = bytes(|o, l| f::hash_direct_first_step(mp, ml, n as c_int, o, l))?;
    ensure_eq!(h.map(|h| hexs(&h)), Some(hexs(&b2::hash(SIG, &m, n))), "first-step", "direct hash");
    let h = bytes(|o, l| f::hash_crh(mp, ml, n as c_int, o, l))?;
    ensure_eq!(h.map(|h| hex(&h)), Some(hex(&oracle::bh_crh(&m))), "crh", "composite compression");
    Ok(())
}
/// A history of hashes of messages in one buffer.
pub fn related_hashes(c: &mut Case) -> Outcome {
    let (mut m, mut e) = (short(c), { let n = c.size(0, 24); c.bytes(n) });
    m.truncate(200);
    e.truncate(200);
    let (mut mb, mut eb): (Vec<u8>, Vec<u8>) = (Vec::with_capacity(600), Vec::with_capacity(600));
    let mut n = c.size(0, 130);
    c.nontrivial_here();
    for i in 0..3 + c.size(0, 6) {
        if i > 0 { match c.below(4) { 0 => c.relate(&mut [&mut m, &mut e]), 1 => c.relate(&mut [&mut m]), 2 => n = c.size(0, 130), _ => {} } }
        m.truncate(500);
        e.truncate(500);
        mb.clear(); mb.extend_from_slice(&m);
        eb.clear(); eb.extend_from_slice(&e);
        let ((mp, ml), (ep, el)) = ((mb.as_ptr(), mb.len() as c_int), (eb.as_ptr(), eb.len() as c_int));
        let (op, pop) = (c.below(6), c.bool());
        c.log(format!("{} pop={} message={} extra={} length={}", ["direct", "direct with attempt", "composite", "cip22", "first step", "crh"][op as usize], pop, hexs(&m), hexs(&e), n));
        let mut k: c_int = -1;
        let mut k8 = 255u8;
        let reference = |h: Hash, d: &[u8], e: &[u8]| oracle::hash_to_curve::<ark_bls12_377::g1::Parameters>(h, true, d, &m, e).unwrap();
        let d = if pop { POP } else { SIG };
        let r = bytes(|o, l| match op {
            0 => f::hash_direct(mp, ml, o, l, pop),
            1 => f::hash_direct_with_attempt(mp, ml, o, l, &mut k, pop),
            2 => f::hash_composite(mp, ml, ep, el, o, l),
            3 => f::hash_composite_cip22(mp, ml, ep, el, o, l, &mut k8),
            4 => f::hash_direct_first_step(mp, ml, n as c_int, o, l),
            _ => f::hash_crh(mp, ml, n as c_int, o, l),
        })?;
        let r = match r { Some(r) => r, None => return fail("related-hash", format!("call {} fails", i)) };
        match op {
            0 | 1 => { let (p, t) = reference(Hash::Direct, d, b""); ensure_eq!(hex(&r), hex(&affine(&p)), "related-hash", "call {}", i); if op == 1 { ensure_eq!(k, t as c_int, "related-attempt", "call {}", i); } }
            2 => ensure!(point(&r) == Some(reference(Hash::Composite, SIG, &e).0), "related-hash", "call {}: not the coordinates of the hash", i),
            3 => { let (p, t) = reference(Hash::CompositeCip22, SIG, &e); ensure!(point(&r) == Some(p), "related-hash", "call {}: not the coordinates of the hash", i); ensure_eq!(k8, t as u8, "related-attempt", "call {}", i); }
            4 => ensure_eq!(hexs(&r), hexs(&b2::hash(SIG, &m, n)), "related-hash", "call {}", i),
            _ => ensure_eq!(hex(&r), hex(&oracle::bh_crh(&m)), "related-hash", "call {}", i),
        }
    }
    Ok(())
}
