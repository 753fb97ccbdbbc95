//! C04 to C09: signatures, aggregation, batch verification, encodings, the public key cache.
use crate::common::*;
use ark_bls12_377::{g1, g2, Fq, Fq2, Fr, G1Affine, G1Projective, G2Projective};
use ark_ec::{AffineCurve, ProjectiveCurve};
use ark_ff::{One, PrimeField, Zero};
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
use bls_crypto::bls::Batch;
use bls_crypto::hash_to_curve::try_and_increment::{COMPOSITE_HASH_TO_G1, DIRECT_HASH_TO_G1};
use bls_crypto::hash_to_curve::try_and_increment_cip22::COMPOSITE_HASH_TO_G1_CIP22;
use bls_crypto::{BLSError, HashToCurve, PrivateKey, PublicKey, PublicKeyCache, Signature};
use oracle::{nonzero_scalar, random_scalar, rescale, scalar, smul, Hash, RefCurve};
use pbt::{ensure, ensure_eq, fail, hex, hexs, no_panic, Case, Outcome};
use std::collections::BTreeSet;
use std::sync::OnceLock;

const SIG: &[u8] = b"ULforxof";
const POP: &[u8] = b"ULforpop";

/// dispatch over the three ready-made hashers
macro_rules! with_hasher { ($h:expr, $x:ident => $e:expr) => { match $h { Hash::Direct => { let $x = &*DIRECT_HASH_TO_G1; $e } Hash::Composite => { let $x = &*COMPOSITE_HASH_TO_G1; $e } _ => { let $x = &*COMPOSITE_HASH_TO_G1_CIP22; $e } } } }
fn hasher(c: &mut Case) -> Hash { *c.pick(&[Hash::Direct, Hash::Direct, Hash::CompositeCip22, Hash::Composite]) }
fn other_hasher(c: &mut Case, h: Hash) -> Hash { let o: Vec<Hash> = [Hash::Direct, Hash::CompositeCip22, Hash::Composite].iter().copied().filter(|x| *x != h).collect(); *c.pick(&o) }
fn short(c: &mut Case) -> Vec<u8> { let n = c.len_near(&[8, 32], 70); c.bytes(n) }
fn h2(h: Hash, d: &[u8], m: &[u8], e: &[u8]) -> G1Projective { oracle::h2g1(h, d, m, e) }
/// another representation of the same point, sometimes
fn rep1(c: &mut Case, p: G1Projective) -> G1Projective { if c.chance(1, 3) { rescale(&p, Fq::from(c.range(2, 1 << 40))) } else { p } }
fn rep2(c: &mut Case, p: G2Projective) -> G2Projective { if c.chance(1, 3) { rescale(&p, Fq2::new(Fq::from(c.range(2, 1 << 40)), Fq::from(c.below(1 << 40)))) } else { p } }
fn pk(c: &mut Case, a: &Fr) -> PublicKey { let p = smul(&oracle::g2(), a); PublicKey::from(rep2(c, p)) }
fn sig(c: &mut Case, p: G1Projective) -> Signature { Signature::from(rep1(c, p)) }
fn verdict(r: Result<Result<(), BLSError>, String>, expect: bool, what: &str, sigp: &str) -> Outcome {
    match (r, expect) {
        (Ok(Ok(())), true) | (Ok(Err(BLSError::VerificationFailed)), false) => Ok(()),
        (Ok(Ok(())), false) => fail(&format!("{}-accepts", sigp), format!("{}: accepted, and the pairing equation does not hold", what)),
        (Ok(Err(e)), true) => fail(&format!("{}-rejects", sigp), format!("{}: rejected with {:?}, and the pairing equation holds", what, e)),
        (Ok(Err(e)), false) => fail(&format!("{}-error", sigp), format!("{}: fails with {:?} instead of a verification failure", what, e)),
        (Err(p), _) => fail(&format!("{}-panic", sigp), format!("{}: panics: {}", what, p)),
    }
}

// ------------------------------------------------------------------ C04
pub fn sign(c: &mut Case) -> Outcome {
    let a = scalar(c);
    let h = hasher(c);
    let (m, e) = (short(c), extra(c));
    c.log(format!("sign with {:?}: key={} message={} extra={}", h, hex(&oracle::fr_bytes(&a)), hexs(&m), hexs(&e)));
    if !a.is_zero() { c.nontrivial_here(); }
    let k = PrivateKey::from(a);
    let p = k.to_public();
    ensure!(*p.as_ref() == smul(&oracle::g2(), &a), "to-public", "the public key is not the key times the generator");
    ensure!(PublicKey::from(&k) == p, "to-public", "From<&PrivateKey> disagrees with to_public");
    let (hs, hp) = (h2(h, SIG, &m, &e), h2(h, POP, &m, b""));
    let s = with_hasher!(h, x => k.sign(&m, &e, x)).map_err(|e| pbt::Fail { sig: "sign-error".into(), msg: format!("{:?}", e) })?;
    ensure!(*s.as_ref() == smul(&hs, &a), "sign-point", "the signature is not the key times the message hash");
    let q = with_hasher!(h, x => k.sign_pop(&m, x)).map_err(|e| pbt::Fail { sig: "pop-error".into(), msg: format!("{:?}", e) })?;
    ensure!(*q.as_ref() == smul(&hp, &a), "pop-point", "the proof of possession is not the key times the message hash under its domain");
    with_hasher!(h, x => verdict(no_panic(|| p.verify(&m, &e, &s, x)), true, "own signature", "verify"))?;
    with_hasher!(h, x => verdict(no_panic(|| p.verify_pop(&m, &q, x)), true, "own proof of possession", "verify-pop"))?;
    if !a.is_zero() {
        with_hasher!(h, x => verdict(no_panic(|| p.verify_pop(&m, &with_hasher!(h, y => k.sign(&m, b"", y)).unwrap(), x)), false, "signature as a proof of possession", "verify-pop"))?;
        with_hasher!(h, x => verdict(no_panic(|| p.verify(&m, b"", &q, x)), false, "proof of possession as a signature", "verify"))?;
    }
    Ok(())
}
pub fn verify(c: &mut Case) -> Outcome {
    let (a, h) = (scalar(c), hasher(c));
    let (m, e) = (short(c), extra(c));
    let pop = c.chance(1, 3);
    // what was signed, by which key, under which domain and hasher
    let (mut b, mut m2, mut e2, mut h2_, mut d2, mut delta) = (a, m.clone(), if pop { vec![] } else { e.clone() }, h, if pop { POP } else { SIG }, G1Projective::zero());
    let kind = c.below(13);
    let what = match kind {
        0 | 1 => "unchanged",
        2 => { if m2.is_empty() { m2.push(0); } else { let i = c.size(0, m2.len() - 1); m2[i] ^= 1 << c.below(8); } "another message" }
        3 => { if e2.is_empty() { e2.push(c.u8()); } else { let i = c.size(0, e2.len() - 1); e2[i] ^= 1 << c.below(8); } "other extra data" }
        4 => { b = if c.bool() { scalar(c) } else { oracle::related(c, &a) }; "another key" }
        5 => { b = -a; "negated" }
        6 => { h2_ = other_hasher(c, h); "another hasher" }
        7 => { d2 = if pop { SIG } else { POP }; "another domain" }
        8 => { let all = [&e2[..], &m2[..]].concat(); let i = c.size(0, all.len()); e2 = all[..i].to_vec(); m2 = all[i..].to_vec(); "boundary between extra data and message moved" }
        9 => { delta = smul(&oracle::g1(), &nonzero_scalar(c)); "a generator multiple added" }
        10 => { m2.push(0); "message extended" }
        11 => { b = a + Fr::one(); "the next key" }
        _ => { e2.clear(); "extra data dropped" }
    };
    c.log(format!("verify{} with {:?}: key={} message={} extra={}, {}", if pop { "_pop" } else { "" }, h, hex(&oracle::fr_bytes(&a)), hexs(&m), hexs(&e), what));
    let s = smul(&h2(h2_, d2, &m2, &e2), &b) + delta;
    let target = smul(&h2(h, if pop { POP } else { SIG }, &m, if pop { b"" } else { &e }), &a);
    let expect = s == target;
    if kind > 1 || !a.is_zero() { c.nontrivial_here(); }
    c.label(if expect { "accepting" } else { "rejecting" });
    let (p, s) = (pk(c, &a), sig(c, s));
    if pop { with_hasher!(h, x => verdict(no_panic(|| p.verify_pop(&m, &s, x)), expect, what, "verify-pop")) } else { with_hasher!(h, x => verdict(no_panic(|| p.verify(&m, &e, &s, x)), expect, what, "verify")) }
}

/// A history of signing and verifying with a few related keys, messages and signatures: every answer
/// depends on its own arguments alone.
pub fn related_verify(c: &mut Case) -> Outcome {
    let a = nonzero_scalar(c);
    let mut ks = vec![a, -a];
    for _ in 0..c.size(0, 2) { let k = oracle::related(c, &a); ks.push(k); }
    let pks: Vec<PublicKey> = ks.iter().map(|k| pk(c, k)).collect();
    let mut msgs: Vec<(Hash, bool, Vec<u8>, Vec<u8>)> = vec![(hasher(c), c.chance(1, 3), short(c), { let n = c.size(0, 20); c.bytes(n) })];
    for _ in 0..c.size(1, 3) {
        let mut x = msgs[c.size(0, msgs.len() - 1)].clone();
        match c.below(6) { 0 => x.0 = hasher(c), 1 => x.1 = !x.1, 2 => { let t = &mut x; c.relate(&mut [&mut t.2]) } _ => { let t = &mut x; c.relate(&mut [&mut t.2, &mut t.3]) } }
        if x.1 { x.3.clear(); }
        msgs.push(x);
    }
    for x in &mut msgs { if x.1 { x.3.clear(); } }
    let hs: Vec<G1Projective> = msgs.iter().map(|(h, pop, m, e)| h2(*h, if *pop { POP } else { SIG }, m, e)).collect();
    // signatures by any of the keys on any of the messages
    let mut sigs: Vec<(G1Projective, Signature)> = vec![];
    for _ in 0..c.size(1, 3) { let (k, m) = (c.size(0, ks.len() - 1), c.size(0, msgs.len() - 1)); let p = smul(&hs[m], &ks[k]); let s = sig(c, p); sigs.push((p, s)); }
    c.log(format!("key {} and related ones, messages {}", hex(&oracle::fr_bytes(&a)), msgs.iter().map(|(h, pop, m, e)| format!("{:?}{} {} {}", h, if *pop { " pop" } else { "" }, hexs(m), hexs(e))).collect::<Vec<_>>().join(" / ")));
    c.nontrivial_here();
    let (mut k, mut m, mut s) = (0usize, 0usize, 0usize);
    for i in 0..2 + c.size(0, 5) {
        if i > 0 { match c.below(6) { 0 | 1 => k = c.size(0, ks.len() - 1), 2 | 3 => m = c.size(0, msgs.len() - 1), 4 => s = c.size(0, sigs.len() - 1), _ => {} } }
        let (h, pop, mm, e) = &msgs[m];
        let op = c.weighted(&[5, 1, 1]);
        c.log(format!("{} key {} message {} signature {}", ["verify", "sign", "sign and verify"][op], k, m, s));
        if op > 0 {
            let sk = PrivateKey::from(ks[k]);
            let r = with_hasher!(*h, x => if *pop { no_panic(|| sk.sign_pop(mm, x)) } else { no_panic(|| sk.sign(mm, e, x)) }).or_else(|p| fail("related-panic", p))?;
            let want = smul(&hs[m], &ks[k]);
            match r { Ok(r) => { ensure!(*r.as_ref() == want, "related-sign", "call {}: the signature is not the key times the message hash", i); sigs.push((want, r)); } Err(e) => return fail("related-sign", format!("{:?}", e)) }
            if op == 2 { s = sigs.len() - 1; } else { continue; }
        }
        let expect = sigs[s].0 == smul(&hs[m], &ks[k]);
        c.label(if expect { "related: accepting" } else { "related: rejecting" });
        let (p, sg) = (&pks[k], &sigs[s].1);
        with_hasher!(*h, x => verdict(no_panic(|| if *pop { p.verify_pop(mm, sg, x) } else { p.verify(mm, e, sg, x) }), expect, "a call in a history", "related"))?;
    }
    Ok(())
}

// ------------------------------------------------------------------ C05
fn scalars(c: &mut Case, lo: usize, usual: usize, max: usize) -> Vec<Fr> { let n = c.count(lo, usual, max); if n > 32 { c.label("more than 32 entries"); } oracle::scalars(c, n) }
fn total(v: &[Fr]) -> Fr { v.iter().fold(Fr::zero(), |a, b| a + b) }
pub fn aggregate(c: &mut Case) -> Outcome {
    let big = if c.thorough { 1100 } else { 300 };
    let v = scalars(c, 0, 16, big);
    c.log(format!("aggregate of {} keys: {}", v.len(), v.iter().take(4).map(|s| hex(&oracle::fr_bytes(s)[..6])).collect::<Vec<_>>().join(",")));
    if v.len() > 1 { c.nontrivial_here(); }
    let h = smul(&oracle::g1(), &random_scalar(c));
    let pks: Vec<PublicKey> = v.iter().map(|s| pk(c, s)).collect();
    let sigs: Vec<Signature> = v.iter().map(|s| { let p = smul(&h, s); sig(c, p) }).collect();
    let (ep, es) = (smul(&oracle::g2(), &total(&v)), smul(&h, &total(&v)));
    let p = no_panic(|| PublicKey::aggregate(&pks)).or_else(|e| fail("aggregate-panic", e))?;
    let s = no_panic(|| Signature::aggregate(&sigs)).or_else(|e| fail("aggregate-panic", e))?;
    ensure!(*p.as_ref() == ep, "aggregate-keys", "the aggregate public key is not the sum of the keys");
    ensure!(*s.as_ref() == es, "aggregate-signatures", "the aggregate signature is not the sum of the signatures");
    let perm = c.permutation(v.len());
    ensure!(PublicKey::aggregate(perm.iter().map(|i| pks[*i].clone())) == p, "aggregate-order", "the aggregate public key depends on the order");
    ensure!(Signature::aggregate(perm.iter().map(|i| sigs[*i].clone())) == s, "aggregate-order", "the aggregate signature depends on the order");
    let k = c.size(0, v.len());
    ensure!(PublicKey::aggregate([PublicKey::aggregate(&pks[..k]), PublicKey::aggregate(&pks[k..])]) == p, "aggregate-nested", "an aggregate of aggregates differs");
    ensure!(Signature::aggregate([Signature::aggregate(&sigs[..k]), Signature::aggregate(&sigs[k..])]) == s, "aggregate-nested", "an aggregate of aggregates differs");
    Ok(())
}
/// thousands of keys, in arithmetic progression so that they are cheap to come by
pub fn aggregate_long(c: &mut Case) -> Outcome {
    let n = if c.chance(1, 3) { c.count(900, 2000, if c.thorough { 70_000 } else { 9000 }) } else { c.size(1500, if c.thorough { 12_000 } else { 5000 }) };
    let (a, b) = (random_scalar(c), random_scalar(c));
    let h = smul(&oracle::g1(), &random_scalar(c));
    c.log(format!("aggregate of {} keys {} + i * {}", n, hex(&oracle::fr_bytes(&a)[..6]), hex(&oracle::fr_bytes(&b)[..6])));
    c.nontrivial_here();
    let (mut p, dp, mut s, ds) = (smul(&oracle::g2(), &a), smul(&oracle::g2(), &b), smul(&h, &a), smul(&h, &b));
    let (mut pks, mut sigs) = (vec![], vec![]);
    for _ in 0..n { pks.push(PublicKey::from(p)); sigs.push(Signature::from(s)); p += dp; s += ds; }
    let sum = |n: u64| Fr::from(n) * a + Fr::from(n * (n - 1) / 2) * b;
    let t = sum(n as u64);
    let ap = no_panic(|| PublicKey::aggregate(&pks)).or_else(|e| fail("aggregate-panic", e))?;
    let as_ = no_panic(|| Signature::aggregate(&sigs)).or_else(|e| fail("aggregate-panic", e))?;
    ensure!(*ap.as_ref() == smul(&oracle::g2(), &t), "aggregate-keys", "the aggregate public key is not the sum of the keys");
    ensure!(*as_.as_ref() == smul(&h, &t), "aggregate-signatures", "the aggregate signature is not the sum of the signatures");
    // weighted: w + i * e
    let m = c.size(150, if c.thorough { 3000 } else { 700 });
    let (mut e, de) = (random_scalar(c), if c.bool() { Fr::from(c.range(1, 9)) } else { random_scalar(c) });
    let (mut ex, mut t) = (vec![], Fr::zero());
    let mut k = a;
    for _ in 0..m { ex.push(e); t += e * k; e += de; k += b; }
    let p = no_panic(|| PublicKey::batch(&ex, pks[..m].to_vec())).or_else(|e| fail("dot-panic", e))?;
    let s = no_panic(|| Signature::batch(&ex, sigs[..m].to_vec())).or_else(|e| fail("dot-panic", e))?;
    ensure!(p.map(|p| *p.as_ref() == smul(&oracle::g2(), &t)) == Some(true), "dot-keys", "the weighted sum of {} keys is wrong", m);
    ensure!(s.map(|s| *s.as_ref() == smul(&h, &t)) == Some(true), "dot-signatures", "the weighted sum of {} signatures is wrong", m);
    Ok(())
}
pub fn aggregate_verify(c: &mut Case) -> Outcome {
    let v = scalars(c, 1, 8, 140);
    let h = hasher(c);
    let (m, e) = (short(c), extra(c));
    let keys: Vec<PrivateKey> = v.iter().map(|s| PrivateKey::from(*s)).collect();
    let mut signers: Vec<usize> = (0..v.len()).collect();
    let what = match c.below(6) {
        0 | 1 => "all signed once",
        2 => { let i = c.size(0, signers.len() - 1); signers.remove(i); "one did not sign" }
        3 => { let i = c.size(0, signers.len() - 1); signers.push(i); "one counted twice" }
        4 => { let i = c.size(0, signers.len() - 1); let j = c.size(0, v.len() - 1); signers[i] = j; "one replaced by another" }
        _ => { signers.clear(); "none signed" }
    };
    c.log(format!("{} keys, {:?}, message={} extra={}, {}", v.len(), h, hexs(&m), hexs(&e), what));
    if v.len() > 1 { c.nontrivial_here(); }
    let sigs: Vec<Signature> = with_hasher!(h, x => signers.iter().map(|i| keys[*i].sign(&m, &e, x).unwrap()).collect());
    let agg = Signature::aggregate(&sigs);
    let apk = PublicKey::aggregate(keys.iter().map(|k| k.to_public()));
    let expect = total(&v) == signers.iter().fold(Fr::zero(), |a, i| a + v[*i]);
    c.label(if expect { "accepting" } else { "rejecting" });
    with_hasher!(h, x => verdict(no_panic(|| apk.verify(&m, &e, &agg, x)), expect, what, "aggregate-verify"))
}
/// a list of scalars that differs from another in little
fn relate_list(c: &mut Case, v: &mut Vec<Fr>) {
    let n = v.len();
    match c.below(8) {
        0 if n > 0 => { let i = c.size(0, n - 1); v[i] = -v[i]; }
        1 if n > 0 => { let i = c.size(0, n - 1); v[i] = oracle::related(c, &v[i]); }
        2 if n > 0 => { let i = n - 1; v[i] = random_scalar(c); }
        3 if n > 0 => { let i = c.size(0, n - 1); v.remove(i); }
        4 if n > 0 => { let i = c.size(0, n - 1); let x = v[i]; v.push(x); }
        5 if n > 1 => { let i = c.size(1, n - 1); v.swap(i, i - 1); let t = v[i] + Fr::one(); v[i] = t; }
        6 if n > 1 => { let i = c.size(1, n - 1); let d = random_scalar(c); v[i] += d; if c.bool() { v[i - 1] -= d; } }
        _ => { let x = random_scalar(c); v.push(x); }
    }
}
/// A history of sums over lists that differ in little.
pub fn related_sums(c: &mut Case) -> Outcome {
    let mut v = { let n = c.count(1, 6, 70); oracle::scalars(c, n) };
    let mut ex: Vec<Fr> = v.iter().map(|_| Fr::from(c.below(1 << 10))).collect();
    let h = smul(&oracle::g1(), &random_scalar(c));
    c.nontrivial_here();
    for i in 0..2 + c.size(0, 4) {
        if i > 0 { match c.below(4) { 0 => relate_list(c, &mut ex), 1 => { let (x, y) = (random_scalar(c), Fr::from(c.below(9))); v.push(x); ex.push(y); } _ => relate_list(c, &mut v) } }
        if ex.len() != v.len() && c.bool() { let n = ex.len().min(v.len()); ex.truncate(n); v.truncate(n); }
        let op = c.below(4);
        c.log(format!("{} of {} entries with {} exponents, first {}", ["sum of keys", "sum of signatures", "weighted sum of keys", "weighted sum of signatures"][op as usize], v.len(), ex.len(), v.first().map(|x| hex(&oracle::fr_bytes(x)[..4])).unwrap_or_default()));
        let t = if op < 2 { total(&v) } else { v.iter().zip(&ex).fold(Fr::zero(), |a, (x, y)| a + *x * y) };
        let same = op < 2 || v.len() == ex.len();
        let pks = |c: &mut Case| -> Vec<PublicKey> { v.iter().map(|s| pk(c, s)).collect() };
        let sigs = |c: &mut Case| -> Vec<Signature> { v.iter().map(|s| { let p = smul(&h, s); sig(c, p) }).collect() };
        let ok = match op {
            0 => { let p = pks(c); no_panic(|| PublicKey::aggregate(&p)).map(|r| *r.as_ref() == smul(&oracle::g2(), &t)) }
            1 => { let p = sigs(c); no_panic(|| Signature::aggregate(&p)).map(|r| *r.as_ref() == smul(&h, &t)) }
            2 => { let p = pks(c); no_panic(|| PublicKey::batch(&ex, p)).map(|r| match r { None => !same, Some(r) => same && *r.as_ref() == smul(&oracle::g2(), &t) }) }
            _ => { let p = sigs(c); no_panic(|| Signature::batch(&ex, p)).map(|r| match r { None => !same, Some(r) => same && *r.as_ref() == smul(&h, &t) }) }
        };
        ensure!(ok == Ok(true), "related-sum", "call {} is wrong ({:?})", i, ok);
    }
    Ok(())
}
pub fn dot(c: &mut Case) -> Outcome {
    let v = scalars(c, 0, 9, 140);
    let n = if c.chance(1, 4) { c.size(0, 10) } else { v.len() };
    let ex: Vec<Fr> = (0..n).map(|_| if c.bool() { Fr::from(c.below(1 << 20)) } else { scalar(c) }).collect();
    c.log(format!("{} keys, {} exponents", v.len(), n));
    if n > 0 { c.nontrivial_here(); }
    let h = smul(&oracle::g1(), &random_scalar(c));
    let pks: Vec<PublicKey> = v.iter().map(|s| pk(c, s)).collect();
    let sigs: Vec<Signature> = v.iter().map(|s| { let p = smul(&h, s); sig(c, p) }).collect();
    let p = no_panic(|| PublicKey::batch(&ex, pks)).or_else(|e| fail("dot-panic", e))?;
    let s = no_panic(|| Signature::batch(&ex, sigs)).or_else(|e| fail("dot-panic", e))?;
    if n != v.len() {
        c.label("lengths differ");
        ensure!(p.is_none() && s.is_none(), "dot-length", "{} keys with {} exponents give a result", v.len(), n);
        return Ok(());
    }
    let t = v.iter().zip(&ex).fold(Fr::zero(), |a, (x, y)| a + *x * y);
    ensure!(p.map(|p| *p.as_ref() == smul(&oracle::g2(), &t)) == Some(true), "dot-keys", "the weighted sum of the keys is wrong");
    ensure!(s.map(|s| *s.as_ref() == smul(&h, &t)) == Some(true), "dot-signatures", "the weighted sum of the signatures is wrong");
    Ok(())
}

// ------------------------------------------------------------------ C06
pub fn batch_verify(c: &mut Case) -> Outcome {
    let (usual, most) = if c.thorough { (12, 300) } else { (6, 140) };
    let n = c.count(0, usual, most);
    if n > 32 { c.label("more than 32 entries"); }
    let h = *c.pick(&[Hash::Direct, Hash::Direct, Hash::Direct, Hash::CompositeCip22, Hash::Composite]);
    let d = domain(c);
    let a = oracle::scalars(c, n);
    let mut msgs: Vec<(Vec<u8>, Vec<u8>)> = vec![];
    for _ in 0..n { if !msgs.is_empty() && c.chance(1, 4) { let i = c.size(0, msgs.len() - 1); let mut t = msgs[i].clone(); if c.bool() { c.relate(&mut [&mut t.0, &mut t.1]); } msgs.push(t); } else { msgs.push((short(c), extra(c))); } }
    let hs: Vec<G1Projective> = msgs.iter().map(|(m, e)| h2(h, &d, m, e)).collect();
    let good = (0..n).fold(G1Projective::zero(), |s, i| s + smul(&hs[i], &a[i]));
    let (mut s, mut d2, mut order) = (good, d.clone(), (0..n).collect::<Vec<_>>());
    let what = match c.below(9) {
        0 | 1 | 2 => "unchanged",
        3 if n > 0 => { let i = c.size(0, n - 1); s = s - smul(&hs[i], &a[i]); "one term missing" }
        4 if n > 0 => { let i = c.size(0, n - 1); s = s + smul(&hs[i], &a[i]); "one term twice" }
        5 if n > 1 => { order = c.permutation(n); "messages permuted against the keys" }
        6 => { d2 = domain(c); "another domain" }
        7 if n > 1 => { let (i, j) = (c.size(0, n - 1), c.size(0, n - 1)); s = s - smul(&hs[i], &a[i]) + smul(&hs[j], &a[i]); "one key's term on another key's message" }
        _ => { s = s + smul(&oracle::g1(), &nonzero_scalar(c)); "a generator multiple added" }
    };
    c.log(format!("{} pairs with {:?}, domain={}: {}", n, h, hexs(&d), what));
    if n > 1 { c.nontrivial_here(); }
    let m2: Vec<(&[u8], &[u8])> = order.iter().map(|i| (&msgs[*i].0[..], &msgs[*i].1[..])).collect();
    let target: G1Projective = (0..n).fold(G1Projective::zero(), |t, i| { let (m, e) = m2[i]; t + smul(&h2(h, &d2, m, e), &a[i]) });
    let expect = target == s;
    c.label(if expect { "accepting" } else { "rejecting" });
    let pks: Vec<PublicKey> = a.iter().map(|x| pk(c, x)).collect();
    let sg = sig(c, s);
    with_hasher!(h, x => verdict(no_panic(|| sg.batch_verify(&pks, &d2, &m2, x)), expect, what, "batch-verify"))?;
    let rp: Vec<&PublicKey> = pks.iter().collect();
    let hh: Vec<G1Projective> = m2.iter().map(|(m, e)| { let p = h2(h, &d2, m, e); rep1(c, p) }).collect();
    verdict(no_panic(|| sg.batch_verify_hashes(&rp, &hh)), expect, what, "batch-verify-hashes")
}
/// A history of batch verifications that differ in little: a key, a message, the order, the signature, the domain.
pub fn related_batches(c: &mut Case) -> Outcome {
    let h = *c.pick(&[Hash::Direct, Hash::Direct, Hash::Direct, Hash::CompositeCip22]);
    let mut d = domain(c);
    let n = c.size(1, 4);
    let mut a = oracle::scalars(c, n);
    let mut msgs: Vec<(Vec<u8>, Vec<u8>)> = (0..n).map(|_| (short(c), { let k = c.size(0, 20); c.bytes(k) })).collect();
    let sum = |d: &[u8], a: &[Fr], m: &[(Vec<u8>, Vec<u8>)]| a.iter().zip(m).fold(G1Projective::zero(), |s, (a, (m, e))| s + smul(&h2(h, d, m, e), a));
    let mut s = sum(&d, &a, &msgs);
    c.nontrivial_here();
    for i in 0..2 + c.size(0, 3) {
        let k = c.size(0, n - 1);
        let what = if i == 0 { "first" } else { match c.below(9) {
            0 => { a[k] = -a[k]; "a key negated" }
            1 => { let x = oracle::related(c, &a[k]); a[k] = x; "a related key" }
            2 | 3 => { let t = &mut msgs[k]; c.relate(&mut [&mut t.0, &mut t.1]); "a related message" }
            4 => { c.relate(&mut [&mut d]); d.truncate(8); "a related domain" }
            5 => { let j = c.size(0, n - 1); msgs.swap(k, j); "messages swapped" }
            6 => { let j = c.size(0, n - 1); a.swap(k, j); "keys swapped" }
            7 => { s = s + smul(&oracle::g1(), &nonzero_scalar(c)); "another signature" }
            _ => "again",
        } };
        let target = sum(&d, &a, &msgs);
        if c.chance(1, 3) { s = target; }
        let expect = s == target;
        c.log(format!("{}: {} pairs with {:?}, domain={}", what, n, h, hexs(&d)));
        c.label(if expect { "related: accepting" } else { "related: rejecting" });
        let pks: Vec<PublicKey> = a.iter().map(|x| pk(c, x)).collect();
        let m2: Vec<(&[u8], &[u8])> = msgs.iter().map(|(m, e)| (&m[..], &e[..])).collect();
        let sg = sig(c, s);
        if c.bool() { with_hasher!(h, x => verdict(no_panic(|| sg.batch_verify(&pks, &d, &m2, x)), expect, what, "related-batch"))? }
        else { let hh: Vec<G1Projective> = m2.iter().map(|(m, e)| h2(h, &d, m, e)).collect(); verdict(no_panic(|| sg.batch_verify_hashes(&pks, &hh)), expect, what, "related-batch-hashes")? }
    }
    Ok(())
}
pub fn batch_lengths(c: &mut Case) -> Outcome {
    let (n, k) = { let n = c.size(0, 5); let k = c.size(0, 5); if n == k { (n, k + 1) } else { (n, k) } };
    let a: Vec<Fr> = (0..n).map(|_| random_scalar(c)).collect();
    let msgs: Vec<Vec<u8>> = (0..k).map(|_| short(c)).collect();
    c.log(format!("{} keys, {} messages", n, k));
    c.nontrivial_here();
    let pks: Vec<PublicKey> = a.iter().map(|x| pk(c, x)).collect();
    // the sum over the common prefix, which a verifier that pairs them up would accept
    let s = (0..n.min(k)).fold(G1Projective::zero(), |s, i| s + smul(&h2(Hash::Direct, SIG, &msgs[i], b""), &a[i]));
    let sg = Signature::from(s);
    let m2: Vec<(&[u8], &[u8])> = msgs.iter().map(|m| (&m[..], &b""[..])).collect();
    let hh: Vec<G1Projective> = msgs.iter().map(|m| h2(Hash::Direct, SIG, m, b"")).collect();
    for (w, r) in [("batch_verify", no_panic(|| sg.batch_verify(&pks, SIG, &m2, &*DIRECT_HASH_TO_G1))), ("batch_verify_hashes", no_panic(|| sg.batch_verify_hashes(&pks, &hh)))] {
        match r { Ok(Err(BLSError::UnevenNumKeysMessages)) => {} Ok(r) => return fail("batch-lengths", format!("{} of {} keys and {} messages: {:?}", w, n, k, r)), Err(p) => return fail("batch-lengths", format!("{} panics: {}", w, p)) }
    }
    Ok(())
}
/// A hashing error of any message is reported, whatever its position.
struct Failing { at: Vec<u8> }
impl HashToCurve for Failing {
    type Output = G1Projective;
    fn hash(&self, d: &[u8], m: &[u8], e: &[u8]) -> Result<G1Projective, BLSError> { if m == &self.at[..] { Err(BLSError::HashToCurveError) } else { DIRECT_HASH_TO_G1.hash(d, m, e) } }
}
pub fn hash_errors(c: &mut Case) -> Outcome {
    let n = c.size(1, 4);
    let bad = c.size(0, n - 1);
    c.log(format!("hashing fails for message {} of {}", bad, n));
    c.nontrivial_here();
    let a: Vec<Fr> = (0..n).map(|_| random_scalar(c)).collect();
    let msgs: Vec<Vec<u8>> = (0..n).map(|i| vec![i as u8; 3]).collect();
    let f = Failing { at: msgs[bad].clone() };
    let pks: Vec<PublicKey> = a.iter().map(|x| pk(c, x)).collect();
    let s = (0..n).filter(|i| *i != bad).fold(G1Projective::zero(), |s, i| s + smul(&h2(Hash::Direct, SIG, &msgs[i], b""), &a[i]));
    let m2: Vec<(&[u8], &[u8])> = msgs.iter().map(|m| (&m[..], &b""[..])).collect();
    let k = PrivateKey::from(a[bad]);
    let mut b = Batch::new(&msgs[bad], b"");
    b.add(pks[bad].clone(), Signature::from(G1Projective::zero()));
    let z = Signature::from(G1Projective::zero());
    let rs: Vec<(&str, Result<Result<(), BLSError>, String>)> = vec![
        ("batch_verify", no_panic(|| Signature::from(s).batch_verify(&pks, SIG, &m2, &f))),
        ("verify", no_panic(|| pks[bad].verify(&msgs[bad], b"", &z, &f))),
        ("verify_pop", no_panic(|| pks[bad].verify_pop(&msgs[bad], &z, &f))),
        ("sign", no_panic(|| k.sign(&msgs[bad], b"", &f).map(|_| ()))),
        ("sign_pop", no_panic(|| k.sign_pop(&msgs[bad], &f).map(|_| ()))),
        ("Batch::verify", no_panic(|| b.verify(&f))),
        ("Batch::verify_each", no_panic(|| b.verify_each(&f))),
    ];
    for (w, r) in rs { match r { Ok(Err(BLSError::HashToCurveError)) => {} Ok(r) => return fail("hash-error", format!("{} with a failing hasher: {:?}", w, r)), Err(p) => return fail("hash-error", format!("{} panics: {}", w, p)) } }
    Ok(())
}

// ------------------------------------------------------------------ C07
pub fn strict_batch(c: &mut Case) -> Outcome {
    let n = c.count(0, 9, 300);
    if n > 32 { c.label("more than 32 entries"); }
    let h = *c.pick(&[Hash::Direct, Hash::Direct, Hash::Direct, Hash::Direct, Hash::CompositeCip22, Hash::Composite]);
    let (m, e) = (short(c), extra(c));
    let mut a = oracle::scalars(c, n);
    let hp = h2(h, SIG, &m, &e);
    // what is added to each signature
    let mut off: Vec<Fr> = vec![Fr::zero(); n];
    let what = match c.below(11) {
        9 | 10 if n > 1 => { let t = nonzero_scalar(c); for (i, k) in null_vector(c, n) { off[i] = t * k; } "errors that cancel in a pattern" }
        0 | 1 => "all valid",
        2 if n > 0 => { let i = c.size(0, n - 1); off[i] = nonzero_scalar(c); "one invalid" }
        3 | 4 if n > 1 => { let p = c.permutation(n); let t = nonzero_scalar(c); off[p[0]] = t; off[p[1]] = -t; "two errors that cancel in the sum" }
        5 if n > 1 => { let p = c.permutation(n); off[p[0]] = a[p[1]] - a[p[0]]; off[p[1]] = a[p[0]] - a[p[1]]; "two signatures swapped" }
        6 if n > 2 => { let p = c.permutation(n); let t = nonzero_scalar(c); let u = Fr::from(c.below(300)); off[p[0]] = t; off[p[1]] = t * u; off[p[2]] = -(t + t * u); "three errors that cancel in the sum" }
        7 if n > 1 => { let p = c.permutation(n); let t = nonzero_scalar(c); off[p[0]] = t * Fr::from(1 + c.below(255)); off[p[1]] = -(t * Fr::from(1 + c.below(255))); "two errors in a small ratio" }
        _ if n > 0 => { let i = c.size(0, n - 1); off[i] = -a[i]; "one signature is the identity" }
        _ => "empty",
    };
    // whole entries, right or wrong, more than once
    if n > 1 && c.chance(1, 4) {
        c.label("repeated entries");
        if c.chance(1, 3) { for i in n / 2..n { a[i] = a[i - n / 2]; off[i] = off[i - n / 2]; } } else {
            let i = match off.iter().position(|x| !x.is_zero()) { Some(i) if c.bool() => i, _ => c.size(0, n - 1) };
            for _ in 0..c.size(1, 3) { let j = c.size(0, n - 1); a[j] = a[i]; off[j] = off[i]; }
        }
    }
    c.log(format!("{} entries with {:?}, message={} extra={}: {}", n, h, hexs(&m), hexs(&e), what));
    if n > 1 { c.nontrivial_here(); }
    let expect = off.iter().all(|x| x.is_zero());
    c.label(if expect { "accepting" } else { "rejecting" });
    c.label(match what { "two errors that cancel in the sum" => "cancelling pair", "three errors that cancel in the sum" => "cancelling triple", "two signatures swapped" => "swapped pair", _ => "other" });
    let mut b = Batch::new(&m, &e);
    for i in 0..n { let p = smul(&hp, &(a[i] + off[i])); let s = sig(c, p); let k = pk(c, &a[i]); b.add(k, s); }
    with_hasher!(h, x => verdict(no_panic(|| b.verify_each(x)), expect, what, "verify-each"))?;
    with_hasher!(h, x => verdict(no_panic(|| b.verify(x)), expect, what, "batch"))
}
/// Small integers with sum zero at a few positions out of n: patterns that cancel for weights with some regularity.
fn null_vector(c: &mut Case, n: usize) -> Vec<(usize, Fr)> {
    let pats: &[&[i64]] = &[&[1, -1], &[1, -1, -1, 1], &[1, -2, 1], &[1, -3, 3, -1], &[1, 1, -1, -1], &[2, -1, -1], &[1, -4, 6, -4, 1], &[1, -1, -1, 1, -1, 1, 1, -1]];
    let fit: Vec<&&[i64]> = pats.iter().filter(|p| p.len() <= n).collect();
    let v: Vec<i64> = if c.chance(1, 4) {
        let k = c.size(2, n.min(12));
        let mut v: Vec<i64> = (0..k).map(|_| c.below(21) as i64 - 10).collect();
        v[0] -= v.iter().sum::<i64>();
        if v.iter().all(|x| *x == 0) { v[0] = 1; v[1] = -1; }
        v
    } else { c.pick(&fit).to_vec() };
    // next to each other, evenly spaced, or anywhere
    let k = v.len();
    let pos: Vec<usize> = match c.weighted(&[3, 2, 2]) {
        0 => { let s = c.size(0, n - k); (s..s + k).collect() }
        1 => { let step = c.size(1, (n - 1) / (k - 1)); let s = c.size(0, n - 1 - step * (k - 1)); (0..k).map(|i| s + i * step).collect() }
        _ => { let mut p = c.permutation(n); p.truncate(k); if c.bool() { p.sort(); } p }
    };
    let f = |x: i64| if x < 0 { -Fr::from((-x) as u64) } else { Fr::from(x as u64) };
    pos.into_iter().zip(v).map(|(p, x)| (p, f(x))).collect()
}
struct Fixed(G1Projective);
impl HashToCurve for Fixed { type Output = G1Projective; fn hash(&self, _: &[u8], _: &[u8], _: &[u8]) -> Result<G1Projective, BLSError> { Ok(self.0) } }
fn fixed() -> Fixed {
    static H: OnceLock<G1Projective> = OnceLock::new();
    Fixed(*H.get_or_init(|| h2(Hash::Direct, SIG, b"x", b"")))
}
/// The exponents have to be unpredictable: repeated attempts at a cancelling error all fail.
pub fn cancelling(c: &mut Case) -> Outcome {
    let n = c.count(2, 8, 150);
    let t = random_scalar(c);
    let v: Vec<(usize, Fr)> = if c.bool() {
        let p = c.permutation(n);
        let (k1, k2) = if c.bool() { (1, 1) } else { (1 + c.below(16), 1 + c.below(16)) };
        vec![(p[0], Fr::from(k1)), (p[1], -Fr::from(k2))]
    } else { null_vector(c, n) };
    c.log(format!("{} entries, errors {}", n, v.iter().map(|(i, k)| { let neg = oracle::fr_bytes(k)[8..].iter().any(|b| *b != 0); format!("{}{}@{}", if neg { "-" } else { "" }, oracle::fr_bytes(&if neg { -*k } else { *k })[0], i) }).collect::<Vec<_>>().join(" ")));
    c.nontrivial_here();
    let f = fixed();
    let mut off = vec![Fr::zero(); n];
    for (i, k) in &v { off[*i] = t * k; }
    let mut b = Batch::new(b"x", b"");
    for i in 0..n {
        let a = Fr::from(1 + c.below(1000));
        b.add(PublicKey::from(oracle::g2().mul(a.into_repr())), Signature::from(f.0.mul((a + off[i]).into_repr())));
    }
    for _ in 0..(if n > 20 { 2 } else { 8 }) { verdict(no_panic(|| b.verify(&f)), false, "errors that cancel for regular weights", "batch")?; }
    Ok(())
}
/// rank over the field of two elements
fn rank(mut rows: Vec<Vec<u64>>) -> usize {
    let mut r = 0;
    let words = rows.first().map(|v| v.len()).unwrap_or(0);
    for bit in 0..64 * words {
        let (w, m) = (bit / 64, 1u64 << (bit % 64));
        if let Some(p) = (r..rows.len()).find(|i| rows[*i][w] & m != 0) {
            rows.swap(r, p);
            let pivot = rows[r].clone();
            for (i, row) in rows.iter_mut().enumerate() { if i != r && row[w] & m != 0 { for (a, b) in row.iter_mut().zip(&pivot) { *a ^= b; } } }
            r += 1;
        }
    }
    r
}
/// The weights themselves, seen by the curve library of the harness. Over many batches their bits
/// span at least 128 dimensions for every entry but one, so that no short or regular weights are in use.
/// Every batch has other keys. Weights that are applied in a way the harness does not see are not judged.
pub fn weights(c: &mut Case) -> Outcome {
    let n = c.size(2, 4);
    let samples = 128 * (n - 1) + 30;
    c.log(format!("{} batches of {} entries", samples, n));
    let f = fixed();
    let mut rows: Vec<Vec<u64>> = vec![];
    let mut each: Vec<BTreeSet<Vec<u64>>> = vec![BTreeSet::new(); n];
    for k in 0..samples {
        let mut b = Batch::new(b"x", b"");
        let mut keys = vec![];
        for i in 0..n {
            let a = Fr::from(2 + (k * n + i) as u64);
            let g = oracle::g2().mul(a.into_repr());
            keys.push(oracle::compress(&g));
            b.add(PublicKey::from(g), Signature::from(f.0.mul(a.into_repr())));
        }
        ark_ec::spy::start();
        let r = no_panic(|| b.verify(&f));
        let seen = ark_ec::spy::stop();
        verdict(r, true, "a valid batch", "batch")?;
        let mut row = vec![];
        for (i, key) in keys.iter().enumerate() {
            let w: Vec<&Vec<u64>> = seen.iter().filter(|(p, s)| p == key && &s[..] != { use ark_ff::FpParameters; <Fr as PrimeField>::Params::MODULUS }.as_ref()).map(|(_, s)| s).collect();
            match w.len() { 0 => row.extend([0u64; 4]), 1 => { let mut s = w[0].clone(); s.resize(4, 0); each[i].insert(s.clone()); row.extend(s); } _ => { c.label("weights not seen"); return Ok(()); } }
        }
        if each.iter().filter(|s| s.is_empty()).count() > 1 { c.label("weights not seen"); return Ok(()); }
        row.push(1);
        rows.push(row);
    }
    c.label("weights seen");
    c.nontrivial_here();
    let still = each.iter().filter(|s| s.len() < 2).count();
    ensure!(still < 2, "weights-fixed", "{} of {} entries always have the same weight", still, n);
    let r = rank(rows) - 1;
    ensure!(r >= 128 * (n - 1), "weights-rank", "the weights of {} entries in {} batches span {} dimensions, expected at least {}", n, samples, r, 128 * (n - 1));
    Ok(())
}

/// Many entries in a few batches: every entry but one has weights that vary in as many ways as there are batches, and
/// so has the difference of any two.
pub fn weights_many(c: &mut Case) -> Outcome {
    let n = if c.chance(1, 4) { c.size(13, 40) } else { c.size(4, 12) };
    let samples = 40;
    c.log(format!("{} batches of {} entries", samples, n));
    let f = fixed();
    // one row per batch: the weights of its entries
    let mut rows: Vec<Vec<[u64; 4]>> = vec![];
    for k in 0..samples {
        let mut b = Batch::new(b"x", b"");
        let mut keys = vec![];
        for i in 0..n {
            let a = Fr::from(2 + (k * n + i) as u64);
            let g = oracle::g2().mul(a.into_repr());
            keys.push(oracle::compress(&g));
            b.add(PublicKey::from(g), Signature::from(f.0.mul(a.into_repr())));
        }
        ark_ec::spy::start();
        let r = no_panic(|| b.verify(&f));
        let seen = ark_ec::spy::stop();
        verdict(r, true, "a valid batch", "batch")?;
        let mut row = vec![];
        for key in &keys {
            let w: Vec<&Vec<u64>> = seen.iter().filter(|(p, s)| p == key && &s[..] != { use ark_ff::FpParameters; <Fr as PrimeField>::Params::MODULUS }.as_ref()).map(|(_, s)| s).collect();
            // an entry with weight one is not multiplied
            let mut v = [0u64; 4];
            match w.len() { 0 => v[0] = 1, 1 => for (x, y) in v.iter_mut().zip(w[0]) { *x = *y }, _ => { c.label("weights not seen"); return Ok(()); } }
            row.push(v);
        }
        if row.iter().filter(|v| **v == [1, 0, 0, 0]).count() > 1 && rows.is_empty() { c.label("weights not seen"); return Ok(()); }
        rows.push(row);
    }
    c.label("weights of many entries seen");
    c.nontrivial_here();
    // random bits of 40 batches are independent but for one chance in 2^80
    let dims = |f: &dyn Fn(&Vec<[u64; 4]>) -> Vec<u64>| rank(rows.iter().map(|r| { let mut v = f(r); v.push(1); v }).collect());
    let poor: Vec<usize> = (0..n).filter(|i| dims(&|r| r[*i].to_vec()) < samples - 1).collect();
    ensure!(poor.len() < 2, "weights-poor", "in {} batches of {} entries, the weights of entries {:?} take few values", samples, n, poor);
    for i in 1..n { for j in 0..i {
        if poor.contains(&i) || poor.contains(&j) { continue; }
        let k = dims(&|r| (0..4).map(|t| r[i][t] ^ r[j][t]).collect());
        ensure!(k >= samples - 1, "weights-related", "in {} batches of {} entries, the weights of entries {} and {} depend on each other ({} dimensions)", samples, n, j, i, k);
    } }
    Ok(())
}
/// A batch that is verified, added to and verified again, next to another one with the same entries.
pub fn batch_reuse(c: &mut Case) -> Outcome {
    let h = *c.pick(&[Hash::Direct, Hash::Direct, Hash::Direct, Hash::CompositeCip22]);
    let (mut m, mut e) = (short(c), { let k = c.size(0, 20); c.bytes(k) });
    let (m0, e0) = (m.clone(), e.clone());
    c.relate(&mut [&mut m, &mut e]);
    let msgs = [(m0, e0), (m, e)];
    let hp: Vec<G1Projective> = msgs.iter().map(|(m, e)| h2(h, SIG, m, e)).collect();
    let mut bs: Vec<Batch> = msgs.iter().map(|(m, e)| Batch::new(m, e)).collect();
    // the sum of errors is kept apart from each of them
    let mut errors: Vec<Vec<G1Projective>> = vec![vec![], vec![]];
    let mut last = random_scalar(c);
    c.log(format!("{:?} message={} extra={} and message={} extra={}", h, hexs(&msgs[0].0), hexs(&msgs[0].1), hexs(&msgs[1].0), hexs(&msgs[1].1)));
    c.nontrivial_here();
    for _ in 0..3 + c.size(0, 8) {
        let i = c.below(2) as usize;
        match c.weighted(&[5, 2, 2]) {
            0 => {
                let a = match c.below(4) { 0 => last, 1 => oracle::related(c, &last), _ => random_scalar(c) };
                last = a;
                // right, for the other message, off by an error, or repairing the error before in the sum
                let (p, what) = match c.weighted(&[6, 1, 1, 2]) {
                    0 => (smul(&hp[i], &a), "valid"),
                    1 => (smul(&hp[1 - i], &a), "for the other message"),
                    2 => (smul(&hp[i], &a) + smul(&oracle::g1(), &random_scalar(c)), "invalid"),
                    _ => (errors[i].last().map(|x| smul(&hp[i], &a) - *x).unwrap_or(smul(&hp[i], &a)), "opposite to the last"),
                };
                c.log(format!("add to {}: {}", i, what));
                errors[i].push(p - smul(&hp[i], &a));
                let (k, s) = (pk(c, &a), sig(c, p));
                bs[i].add(k, s);
            }
            1 => { c.log(format!("verify {}", i)); let ok = errors[i].iter().all(|x| x.is_zero()); c.label(if ok { "reuse: accepting" } else { "reuse: rejecting" }); with_hasher!(h, x => verdict(no_panic(|| bs[i].verify(x)), ok, "a batch in use", "batch-reuse"))? }
            _ => { c.log(format!("verify each of {}", i)); let ok = errors[i].iter().all(|x| x.is_zero()); with_hasher!(h, x => verdict(no_panic(|| bs[i].verify_each(x)), ok, "a batch in use", "batch-reuse-each"))? }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C08
fn enc<T: CanonicalSerialize>(x: &T) -> Result<Vec<u8>, String> { let mut v = vec![]; match no_panic(|| x.serialize(&mut v)) { Ok(Ok(())) => Ok(v), Ok(Err(e)) => Err(format!("{:?}", e)), Err(e) => Err(e) } }
fn enc_u<T: CanonicalSerialize>(x: &T) -> Result<Vec<u8>, String> { let mut v = vec![]; match no_panic(|| x.serialize_uncompressed(&mut v)) { Ok(Ok(())) => Ok(v), Ok(Err(e)) => Err(format!("{:?}", e)), Err(e) => Err(e) } }
fn dec<T: CanonicalDeserialize>(b: &[u8], unc: bool) -> Result<Option<T>, String> { no_panic(|| if unc { T::deserialize_uncompressed(b).ok() } else { T::deserialize(b).ok() }) }
pub fn encode(c: &mut Case) -> Outcome {
    let a = scalar(c);
    c.log(format!("scalar {}", hex(&oracle::fr_bytes(&a))));
    if !a.is_zero() { c.nontrivial_here(); }
    let e = |x: String| pbt::Fail { sig: "encode-error".into(), msg: x };
    // private key
    let k = PrivateKey::from(a);
    let kb = enc(&k).map_err(e)?;
    ensure_eq!(hex(&kb), hex(&oracle::fr_bytes(&a)), "private-key-bytes", "private key");
    ensure_eq!((k.serialized_size(), k.uncompressed_size()), (32, 32), "private-key-size", "private key sizes");
    let e = |x: String| pbt::Fail { sig: "decode-error".into(), msg: x };
    ensure_eq!(dec::<PrivateKey>(&kb, false).map_err(e)?.map(|k| *k.as_ref()), Some(a), "private-key-round", "private key round trip");
    // public key
    let g = smul(&oracle::g2(), &a);
    let p = PublicKey::from(rep2(c, g));
    let (pb, pu) = (enc(&p).map_err(e)?, enc_u(&p).map_err(e)?);
    ensure_eq!(hex(&pb), hex(&oracle::compress(&g)), "public-key-bytes", "compressed public key");
    ensure_eq!(hex(&pu), hex(&oracle::uncompressed(&g)), "public-key-bytes-uncompressed", "uncompressed public key");
    ensure_eq!((pb.len(), pu.len(), p.serialized_size(), p.uncompressed_size()), (96, 192, 96, 192), "public-key-size", "public key sizes");
    for (b, u) in [(&pb, false), (&pu, true)] { ensure!(dec::<PublicKey>(b, u).map_err(e)?.map(|q| *q.as_ref() == g) == Some(true), "public-key-round", "public key round trip (uncompressed: {})", u); }
    // signature
    let g = smul(&oracle::g1(), &a);
    let s = Signature::from(rep1(c, g));
    let (sb, su) = (enc(&s).map_err(e)?, enc_u(&s).map_err(e)?);
    ensure_eq!(hex(&sb), hex(&oracle::compress(&g)), "signature-bytes", "compressed signature");
    ensure_eq!(hex(&su), hex(&oracle::uncompressed(&g)), "signature-bytes-uncompressed", "uncompressed signature");
    ensure_eq!((sb.len(), su.len(), s.serialized_size(), s.uncompressed_size()), (48, 96, 48, 96), "signature-size", "signature sizes");
    for (b, u) in [(&sb, false), (&su, true)] { ensure!(dec::<Signature>(b, u).map_err(e)?.map(|q| *q.as_ref() == g) == Some(true), "signature-round", "signature round trip (uncompressed: {})", u); }
    Ok(())
}
/// gives a few bytes at a time, as a socket or pipe may
struct Slow<'a> { b: &'a [u8], step: usize }
impl<'a> std::io::Read for Slow<'a> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> { let n = buf.len().min(self.step).min(self.b.len()); buf[..n].copy_from_slice(&self.b[..n]); self.b = &self.b[n..]; Ok(n) }
}
/// takes a few bytes at a time and nothing more when it is full
struct Narrow { b: Vec<u8>, step: usize, room: usize }
impl std::io::Write for Narrow {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        if self.room == 0 && !buf.is_empty() { return Err(std::io::Error::new(std::io::ErrorKind::Other, "full")); }
        let n = buf.len().min(self.step).min(self.room);
        self.b.extend_from_slice(&buf[..n]);
        self.room -= n;
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
/// several objects one after another, written to one writer and read from one reader
pub fn streams(c: &mut Case) -> Outcome {
    let n = c.count(1, 4, 9);
    let items: Vec<(u64, bool, Fr)> = (0..n).map(|_| (c.below(3), c.bool(), scalar(c))).collect();
    let step = *c.pick(&[1usize, 7, 48, 1000]);
    let tail = if c.bool() { let k = c.size(1, 200); c.random_bytes(k) } else { vec![] };
    c.log(format!("{} with {} bytes after them, {} bytes at a time", items.iter().map(|(k, u, a)| format!("{}{} {}", if *u { "uncompressed " } else { "" }, ["private key", "public key", "signature"][*k as usize], hex(&oracle::fr_bytes(a)[..4]))).collect::<Vec<_>>().join(", "), tail.len(), step));
    c.nontrivial_here();
    let bytes = |(k, u, a): &(u64, bool, Fr)| match (*k, *u) {
        (0, _) => oracle::fr_bytes(a),
        (1, false) => oracle::compress(&smul(&oracle::g2(), a)), (1, true) => oracle::uncompressed(&smul(&oracle::g2(), a)),
        (_, false) => oracle::compress(&smul(&oracle::g1(), a)), (_, true) => oracle::uncompressed(&smul(&oracle::g1(), a)),
    };
    let mut want: Vec<u8> = items.iter().flat_map(|i| bytes(i)).collect();
    let put = |w: &mut Narrow| -> Result<(), String> {
        for (k, u, a) in &items {
            let r = match k {
                0 => { let x = PrivateKey::from(*a); if *u { x.serialize_uncompressed(&mut *w) } else { x.serialize(&mut *w) } }
                1 => { let x = PublicKey::from(smul(&oracle::g2(), a)); if *u { x.serialize_uncompressed(&mut *w) } else { x.serialize(&mut *w) } }
                _ => { let x = Signature::from(smul(&oracle::g1(), a)); if *u { x.serialize_uncompressed(&mut *w) } else { x.serialize(&mut *w) } }
            };
            r.map_err(|e| format!("{:?}", e))?;
        }
        Ok(())
    };
    let mut w = Narrow { b: vec![], step, room: usize::MAX };
    match no_panic(|| put(&mut w)) { Ok(Ok(())) => {} e => return fail("stream-write", format!("{:?}", e)) }
    ensure_eq!(hex(&w.b), hex(&want), "stream-bytes", "objects written one after another");
    // a writer that runs full is an error
    let room = c.size(0, want.len() - 1);
    let mut w = Narrow { b: vec![], step, room };
    match no_panic(|| put(&mut w)) { Ok(Err(_)) => {} e => return fail("stream-full", format!("a writer with room for {} of {} bytes: {:?}", room, want.len(), e)) }
    ensure!(want.starts_with(&w.b), "stream-bytes", "the bytes before the failure differ");
    want.extend_from_slice(&tail);
    // read them back
    let mut r = Slow { b: &want, step };
    let mut left = want.len();
    for (i, item) in items.iter().enumerate() {
        let (k, u, a) = item;
        let ok = no_panic(|| match k {
            0 => if *u { PrivateKey::deserialize_uncompressed(&mut r) } else { PrivateKey::deserialize(&mut r) }.ok().map(|x| *x.as_ref() == *a),
            1 => if *u { PublicKey::deserialize_uncompressed(&mut r) } else { PublicKey::deserialize(&mut r) }.ok().map(|x| *x.as_ref() == smul(&oracle::g2(), a)),
            _ => if *u { Signature::deserialize_uncompressed(&mut r) } else { Signature::deserialize(&mut r) }.ok().map(|x| *x.as_ref() == smul(&oracle::g1(), a)),
        });
        ensure!(ok == Ok(Some(true)), "stream-read", "object {} of the stream: {:?}", i, ok);
        left -= bytes(item).len();
        ensure_eq!(r.b.len(), left, "stream-position", "bytes left after object {}", i);
    }
    // the same in the middle of a longer input, and cut short
    let (k, u, a) = &items[0];
    let b = bytes(&items[0]);
    let cut = c.size(0, b.len() - 1);
    let mut r = Slow { b: &b[..cut], step };
    let ok = no_panic(|| match k {
        0 => if *u { PrivateKey::deserialize_uncompressed(&mut r) } else { PrivateKey::deserialize(&mut r) }.is_ok(),
        1 => if *u { PublicKey::deserialize_uncompressed(&mut r) } else { PublicKey::deserialize(&mut r) }.is_ok(),
        _ => if *u { Signature::deserialize_uncompressed(&mut r) } else { Signature::deserialize(&mut r) }.is_ok(),
    });
    ensure!(ok == Ok(false), "stream-short", "{} bytes of {} of scalar {}: {:?}", cut, b.len(), hex(&oracle::fr_bytes(a)), ok);
    Ok(())
}
/// A history of encoding and decoding related objects: each answer depends on its own argument alone.
pub fn related_codec(c: &mut Case) -> Outcome {
    let a = nonzero_scalar(c);
    let mut ks = vec![a, -a, oracle::lambda() * a];
    for _ in 0..c.size(0, 2) { let k = oracle::related(c, &a); ks.push(k); }
    c.log(format!("scalar {} and related ones", hex(&oracle::fr_bytes(&a))));
    c.nontrivial_here();
    let er = |x: String| pbt::Fail { sig: "related-codec".into(), msg: x };
    for i in 0..2 + c.size(0, 6) {
        let k = ks[c.size(0, ks.len() - 1)];
        let unc = c.chance(1, 3);
        let op = c.below(6);
        c.log(format!("{}{} of {}", ["encode key", "encode signature", "decode key", "decode signature", "private key", "decode a broken string"][op as usize], if unc { " uncompressed" } else { "" }, hex(&oracle::fr_bytes(&k)[..4])));
        match op {
            0 => { let g = smul(&oracle::g2(), &k); let p = pk(c, &k); let b = if unc { enc_u(&p) } else { enc(&p) }.map_err(er)?; ensure_eq!(hex(&b), hex(&if unc { oracle::uncompressed(&g) } else { oracle::compress(&g) }), "related-codec", "call {}: public key", i); }
            1 => { let g = smul(&oracle::g1(), &k); let p = sig(c, g); let b = if unc { enc_u(&p) } else { enc(&p) }.map_err(er)?; ensure_eq!(hex(&b), hex(&if unc { oracle::uncompressed(&g) } else { oracle::compress(&g) }), "related-codec", "call {}: signature", i); }
            2 => { let g = smul(&oracle::g2(), &k); let r = dec::<PublicKey>(&if unc { oracle::uncompressed(&g) } else { oracle::compress(&g) }, unc).map_err(er)?; ensure!(r.map(|q| *q.as_ref() == g) == Some(true), "related-codec", "call {}: a public key is decoded wrongly", i); }
            3 => { let g = smul(&oracle::g1(), &k); let r = dec::<Signature>(&if unc { oracle::uncompressed(&g) } else { oracle::compress(&g) }, unc).map_err(er)?; ensure!(r.map(|q| *q.as_ref() == g) == Some(true), "related-codec", "call {}: a signature is decoded wrongly", i); }
            4 => { let b = enc(&PrivateKey::from(k)).map_err(er)?; ensure_eq!(hex(&b), hex(&oracle::fr_bytes(&k)), "related-codec", "call {}: private key", i); ensure_eq!(dec::<PrivateKey>(&b, unc).map_err(er)?.map(|x| *x.as_ref()), Some(k), "related-codec", "call {}: private key round trip", i); }
            _ => {
                let key = c.bool();
                let mut b = match (key, unc) { (true, false) => oracle::compress(&smul(&oracle::g2(), &k)), (true, true) => oracle::uncompressed(&smul(&oracle::g2(), &k)), (false, false) => oracle::compress(&smul(&oracle::g1(), &k)), (false, true) => oracle::uncompressed(&smul(&oracle::g1(), &k)) };
                // the length, both flags, or (uncompressed) another y
                let n = b.len();
                match c.below(3) { 0 => { b.pop(); } 1 => b[n - 1] |= 0xc0, _ if unc => b[n / 2] ^= 1, _ => b.truncate(n / 2) }
                let ok = if key { dec::<PublicKey>(&b, unc).map(|x| x.is_some()) } else { dec::<Signature>(&b, unc).map(|x| x.is_some()) }.map_err(er)?;
                ensure!(!ok, "related-codec", "call {}: a broken string is decoded", i);
            }
        }
    }
    Ok(())
}
/// one string of bytes that encodes nothing valid
fn malformed(c: &mut Case, key: bool, unc: bool) -> (Vec<u8>, &'static str) {
    let a = nonzero_scalar(c);
    let mut good = match (key, unc) { (true, false) => oracle::compress(&smul(&oracle::g2(), &a)), (true, true) => oracle::uncompressed(&smul(&oracle::g2(), &a)), (false, false) => oracle::compress(&smul(&oracle::g1(), &a)), (false, true) => oracle::uncompressed(&smul(&oracle::g1(), &a)) };
    let n = good.len();
    match c.below(5) {
        0 => { let k = c.size(0, n - 1); good.truncate(k); (good, "truncated") }
        1 => { good[n - 1] |= 0xc0; (good, "both flags set") }
        2 => {
            // a coordinate at or above the modulus
            let m = <Fq as PrimeField>::Params::MODULUS;
            use ark_ff::FpParameters;
            let o = 48 * c.size(0, n / 48 - 1);
            let d = c.below(200) as u8;
            let keep = good[n - 1] & 0xc0;
            for i in 0..48 { good[o + i] = (m.as_ref()[i / 8] >> (8 * (i % 8))) as u8; }
            good[o] |= d & 0x3e; // the modulus is 1 mod 64
            if o + 48 == n { good[n - 1] |= keep; }
            (good, "coordinate not below the modulus")
        }
        3 => {
            // a curve point outside the subgroup
            let v = if key { let p = oracle::off_subgroup::<g2::Parameters>(Fq2::new(Fq::from(c.u64()), Fq::from(c.u64()))); if unc { oracle::uncompressed(&p) } else { oracle::compress(&p) } } else { let p = oracle::off_subgroup::<g1::Parameters>(Fq::from(c.u64())); if unc { oracle::uncompressed(&p) } else { oracle::compress(&p) } };
            (v, "outside the subgroup")
        }
        _ => {
            if unc { let o = n / 2 + c.size(0, 40); good[o] ^= 1 << c.below(8); (good, "not on the curve") } else {
                // an x with no point
                let mut x = c.u64();
                loop {
                    let v = if key { let mut b = oracle::fq_bytes(&Fq::from(x)); b.extend(oracle::fq_bytes(&Fq::from(7u64))); let p = g2::Parameters::x_from(&b).unwrap(); let r = p * p * p + <g2::Parameters as ark_ec::models::SWModelParameters>::COEFF_B; use ark_ff::SquareRootField; if r.sqrt().is_some() { None } else { Some(b) } }
                        else { let p = Fq::from(x); let r = p * p * p + <g1::Parameters as ark_ec::models::SWModelParameters>::COEFF_B; use ark_ff::SquareRootField; if r.sqrt().is_some() { None } else { Some(oracle::fq_bytes(&p)) } };
                    if let Some(mut v) = v { let n = v.len(); if c.bool() { v[n - 1] |= 0x80; } return (v, "no point has this x"); }
                    x = x.wrapping_add(1);
                }
            }
        }
    }
}
pub fn decode_bad(c: &mut Case) -> Outcome {
    let (key, unc) = (c.bool(), c.chance(1, 3));
    let (b, what) = malformed(c, key, unc);
    c.log(format!("{} {}: {} {}", if unc { "uncompressed" } else { "compressed" }, if key { "public key" } else { "signature" }, what, hexs(&b)));
    c.label(what);
    c.nontrivial_here();
    let accepted = if key { dec::<PublicKey>(&b, unc).map(|x| x.is_some()) } else { dec::<Signature>(&b, unc).map(|x| x.is_some()) }.or_else(|p| fail("decode-panic", p))?;
    ensure!(!accepted, "decode-accepts", "{} is decoded", what);
    Ok(())
}
pub fn decode_random(c: &mut Case) -> Outcome {
    let key = c.bool();
    let n = if key { 96 } else { 48 };
    let mut b = c.random_bytes(n);
    // below the modulus most of the time; small x makes curve points likely
    if c.chance(9, 10) { for o in (0..n).step_by(48) { b[o + 47] = 0; } }
    b[n - 1] |= *c.pick(&[0u8, 0x80, 0x40]);
    c.log(format!("{} from {}", if key { "public key" } else { "signature" }, hexs(&b)));
    c.nontrivial_here();
    // whatever is decoded lies in the subgroup, and is encoded by the bytes that led to it
    if key {
        if let Some(p) = dec::<PublicKey>(&b, false).or_else(|p| fail("decode-panic", p))? { ensure!(oracle::in_subgroup(p.as_ref()), "decode-subgroup", "a decoded key lies outside the subgroup"); if !p.as_ref().is_zero() { ensure_eq!(hex(&enc(&p).unwrap()), hex(&b), "decode-round", "re-encoding") } }
        let r = dec::<PublicKey>(&b, true).or_else(|p| fail("decode-panic", p))?;
        ensure!(r.is_none(), "decode-accepts", "96 bytes are decoded as an uncompressed key");
    } else {
        if let Some(p) = dec::<Signature>(&b, false).or_else(|p| fail("decode-panic", p))? { ensure!(oracle::in_subgroup(p.as_ref()), "decode-subgroup", "a decoded signature lies outside the subgroup"); if !p.as_ref().is_zero() { ensure_eq!(hex(&enc(&p).unwrap()), hex(&b), "decode-round", "re-encoding") } }
    }
    // private keys: canonical below the group order only
    let mut kb = c.random_bytes(32);
    kb[31] &= 0x1f;
    match dec::<PrivateKey>(&kb, false).or_else(|p| fail("decode-panic", p))? {
        Some(k) => ensure_eq!(hex(&enc(&k).unwrap()), hex(&kb), "private-key-decode", "re-encoding of a private key"),
        None => { use ark_ff::FpParameters; let m = <Fr as PrimeField>::Params::MODULUS; let mut l = [0u64; 4]; for i in 0..32 { l[i / 8] |= (kb[i] as u64) << (8 * (i % 8)); } let below = (0..4).rev().find(|i| l[*i] != m.as_ref()[*i]).map(|i| l[i] < m.as_ref()[i]).unwrap_or(false); ensure!(!below, "private-key-decode", "a private key below the order is rejected: {}", hex(&kb)) }
    }
    Ok(())
}

// ------------------------------------------------------------------ C09
struct Pool { sk: Vec<Fr>, pk: Vec<PublicKey>, bytes: Vec<Vec<u8>> }
const POOL: usize = 560;
fn pool() -> &'static Pool {
    static P: OnceLock<Pool> = OnceLock::new();
    P.get_or_init(|| {
        let mut k = Fr::from(0x1234_5678_9abc_def1u64);
        let mut p = Pool { sk: vec![], pk: vec![], bytes: vec![] };
        for _ in 0..POOL { k = match p.sk.len() % 6 { 2 => oracle::lambda() * k, 4 => -k, _ => k * k + Fr::from(7u64) }; let g = smul(&oracle::g2(), &k); let b = oracle::compress(&g); p.sk.push(k); p.pk.push(PublicKey::from(g.into_affine().into_projective())); p.bytes.push(b); }
        p
    })
}
fn cache_ops(c: &mut Case, ops: usize, keys: usize, bulk: bool) -> Outcome {
    let p = pool();
    let mut cache = PublicKeyCache::new();
    if c.bool() { cache = PublicKeyCache::default(); }
    let mut cur: Vec<usize> = vec![];
    let mut combined = Fr::zero();
    let mut log = vec![];
    let mut changed = 0;
    for _ in 0..ops {
        match c.weighted(&[6, 4, 1, 1, if bulk { 2 } else { 0 }]) {
            0 => {
                // the set drifts: some leave, some join, sometimes a fresh set; duplicates and any order
                let mut next: Vec<usize> = match c.weighted(&[5, 1, 1]) { 0 => cur.clone(), 1 => vec![], _ => (0..c.count(0, 8, if keys > 100 { 520 } else { 40 })).map(|_| c.size(0, keys - 1)).collect() };
                if next.len() > 32 { c.label("more than 32 keys"); }
                for _ in 0..c.size(0, 3) { if !next.is_empty() { let i = c.size(0, next.len() - 1); next.remove(i); } }
                for _ in 0..c.size(0, 3) { next.push(c.size(0, keys - 1)); }
                if !next.is_empty() && c.chance(1, 3) { let i = c.size(0, next.len() - 1); let d = next[i]; next.push(d); }
                let perm = c.permutation(next.len());
                let next: Vec<usize> = perm.iter().map(|i| next[*i]).collect();
                let set: BTreeSet<usize> = next.iter().copied().collect();
                let exp = set.iter().fold(Fr::zero(), |a, i| a + p.sk[*i]);
                log.push(format!("aggregate{:?}", next));
                // keys come from bytes through the cache or from elsewhere, in affine form
                let through = c.bool();
                let v: Vec<PublicKey> = next.iter().map(|i| if through { cache.deserialize(p.bytes[*i].clone()).unwrap() } else { p.pk[*i].clone() }).collect();
                let r = no_panic(|| cache.aggregate(v)).or_else(|e| fail("cache-panic", format!("{}: {}", log.join(" "), e)))?;
                let e = smul(&oracle::g2(), &exp);
                if cur != next { changed += 1; }
                ensure!(*r.as_ref() == e, "cache-aggregate", "after {}: the aggregate is not the sum of the {} distinct keys", log.join(" "), set.len());
                ensure!(*cache.combined.as_ref() == e, "cache-combined", "after {}: the stored aggregate differs from the one returned", log.join(" "));
                cur = next;
                combined = exp;
            }
            1 => {
                let i = c.size(0, keys - 1);
                log.push(format!("deserialize({})", i));
                let r = no_panic(|| cache.deserialize(p.bytes[i].clone())).or_else(|e| fail("cache-panic", e))?;
                ensure!(r.as_ref().map(|k| *k == p.pk[i]).unwrap_or(false), "cache-decode", "after {}: the wrong key is returned", log.join(" "));
            }
            2 => {
                let (b, what) = malformed(c, true, false);
                log.push(format!("deserialize({})", what));
                for _ in 0..2 { let r = no_panic(|| cache.deserialize(b.clone())).or_else(|e| fail("cache-panic", e))?; ensure!(r.is_err(), "cache-accepts", "after {}: bytes that encode no key are accepted", log.join(" ")); }
            }
            3 => {
                log.push("clear".into());
                cache.clear_cache();
                cur.clear();
                combined = Fr::zero();
                ensure!(cache.combined.as_ref().is_zero(), "cache-clear", "after {}: a cleared cache keeps an aggregate", log.join(" "));
                ensure!(cache.de.len() == 0, "cache-clear", "after {}: a cleared cache keeps {} decoded keys", log.join(" "), cache.de.len());
            }
            _ => {
                let from = c.size(0, POOL - 1);
                let n = c.size(100, POOL);
                log.push(format!("deserialize({}..+{})", from, n));
                for k in 0..n { let i = (from + k) % POOL; let r = no_panic(|| cache.deserialize(p.bytes[i].clone())).or_else(|e| fail("cache-panic", e))?; ensure!(r.as_ref().map(|k| *k == p.pk[i]).unwrap_or(false), "cache-decode", "after {}: the wrong key is returned for {}", log.join(" "), i); }
                c.label("bulk decode");
            }
        }
        ensure!(cache.de.len() <= 512, "cache-bound", "after {}: {} decoded keys are held", log.join(" "), cache.de.len());
        ensure!(*cache.combined.as_ref() == smul(&oracle::g2(), &combined), "cache-combined", "after {}: the stored aggregate has changed", log.join(" "));
    }
    c.log(log.join(" "));
    if changed > 1 { c.nontrivial_here(); }
    Ok(())
}
pub fn cache(c: &mut Case) -> Outcome { let n = c.size(1, if c.thorough { 40 } else { 18 }); let keys = if c.chance(1, 8) { 140 } else { 12 }; cache_ops(c, n, keys, false) }
pub fn cache_bulk(c: &mut Case) -> Outcome { let n = c.size(2, 5); cache_ops(c, n, POOL, true) }
#[allow(dead_code)]
fn _types(_: G1Affine) {}
