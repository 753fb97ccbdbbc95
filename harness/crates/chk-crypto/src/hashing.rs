// Included once per feature configuration: `bc` is the crate under test, COMPAT its configuration.
use bc::hash_to_curve::try_and_increment::{TryAndIncrement, COMPOSITE_HASH_TO_G1, DIRECT_HASH_TO_G1};
use bc::hash_to_curve::try_and_increment_cip22::{TryAndIncrementCIP22, COMPOSITE_HASH_TO_G1_CIP22};
use bc::hash_to_curve::HashToCurve;
use bc::hashers::composite::{CompositeHasher, COMPOSITE_HASHER, CRH};
use bc::hashers::{DirectHasher, Hasher};
use bc::BLSError;
use crate::common::*;
use ark_bls12_377::{g1, g2, Fq, Fq2};
use ark_ec::models::short_weierstrass_jacobian::GroupProjective;
use ark_ec::models::SWModelParameters;
use ark_ec::ProjectiveCurve;
use ark_ff::{Field, FpParameters, PrimeField, SquareRootField, Zero, One};
use oracle::{Hash, RefCurve, Sign};
use pbt::{blake2s_ref as b2, ensure, ensure_eq, fail, hexs, no_panic, Case, Outcome};
use std::sync::Mutex;

fn name(h: Hash) -> &'static str { match h { Hash::Direct => "direct", Hash::Composite => "composite", Hash::CompositeCip22 => "composite-cip22", Hash::DirectCip22 => "direct-cip22" } }
fn run<P: SWModelParameters>(h: Hash, d: &[u8], m: &[u8], e: &[u8]) -> Result<(GroupProjective<P>, usize), BLSError> {
    match h {
        Hash::Direct => TryAndIncrement::<_, P>::new(&DirectHasher).hash_with_attempt(d, m, e),
        Hash::DirectCip22 => TryAndIncrementCIP22::<_, P>::new(&DirectHasher).hash_with_attempt_cip22(d, m, e),
        Hash::Composite => TryAndIncrement::<_, P>::new(&*COMPOSITE_HASHER).hash_with_attempt(d, m, e),
        Hash::CompositeCip22 => TryAndIncrementCIP22::<_, P>::new(&*COMPOSITE_HASHER).hash_with_attempt_cip22(d, m, e),
    }
}
fn run_plain<P: SWModelParameters>(h: Hash, d: &[u8], m: &[u8], e: &[u8]) -> Result<GroupProjective<P>, BLSError> {
    match h {
        Hash::Direct => TryAndIncrement::<_, P>::new(&DirectHasher).hash(d, m, e),
        Hash::DirectCip22 => TryAndIncrementCIP22::<_, P>::new(&DirectHasher).hash(d, m, e),
        Hash::Composite => TryAndIncrement::<_, P>::new(&*COMPOSITE_HASHER).hash(d, m, e),
        Hash::CompositeCip22 => TryAndIncrementCIP22::<_, P>::new(&*COMPOSITE_HASHER).hash(d, m, e),
    }
}
fn check<P: RefCurve>(c: &mut Case, h: Hash, g: &'static str) -> Outcome {
    let d = domain(c);
    let m = message(c);
    let e = extra(c);
    c.log(format!("{} {} domain={} message={} extra={}", name(h), g, hexs(&d), hexs(&m), hexs(&e)));
    let (exp, tries) = oracle::hash_to_curve::<P>(h, COMPAT, &d, &m, &e).expect("reference found no point");
    if tries > 0 { c.label("more than one counter tried"); }
    c.label(if P::y_high(&exp.into_affine().y) { "larger y" } else { "smaller y" });
    c.nontrivial_here();
    let s = |k: &str| format!("{}-{}-{}{}", name(h), g, k, if COMPAT { "" } else { "-nocompat" });
    let r = no_panic(|| run::<P>(h, &d, &m, &e)).or_else(|p| fail(&s("panic"), p))?;
    match r {
        Ok((p, t)) => {
            ensure!(!p.is_zero(), s("zero"), "the hash is the identity");
            ensure!(oracle::in_subgroup(&p), s("subgroup"), "the hash lies outside the prime-order subgroup");
            ensure_eq!(p.into_affine(), exp.into_affine(), s("point"), "hash to curve");
            ensure_eq!(t, tries, s("attempt"), "counter");
        }
        Err(x) => return fail(&s("error"), format!("{:?}", x)),
    }
    match run_plain::<P>(h, &d, &m, &e) { Ok(p) => ensure_eq!(p.into_affine(), exp.into_affine(), s("plain"), "hash without attempt"), Err(x) => return fail(&s("error"), format!("{:?}", x)) }
    Ok(())
}
pub fn p_direct_g1(c: &mut Case) -> Outcome { let h = if c.bool() { Hash::Direct } else { Hash::DirectCip22 }; check::<g1::Parameters>(c, h, "g1") }
pub fn p_direct_g2(c: &mut Case) -> Outcome { let h = if c.bool() { Hash::Direct } else { Hash::DirectCip22 }; check::<g2::Parameters>(c, h, "g2") }
pub fn p_composite_g1(c: &mut Case) -> Outcome { let h = if c.bool() { Hash::Composite } else { Hash::CompositeCip22 }; check::<g1::Parameters>(c, h, "g1") }
pub fn p_composite_g2(c: &mut Case) -> Outcome { let h = if c.bool() { Hash::Composite } else { Hash::CompositeCip22 }; check::<g2::Parameters>(c, h, "g2") }
/// the ready-made instances
pub fn p_statics(c: &mut Case) -> Outcome {
    let (d, m, e) = (domain(c), message(c), extra(c));
    c.log(format!("domain={} message={} extra={}", hexs(&d), hexs(&m), hexs(&e)));
    c.nontrivial_here();
    let (r, h) = match c.below(3) {
        0 => (DIRECT_HASH_TO_G1.hash(&d, &m, &e), Hash::Direct),
        1 => (COMPOSITE_HASH_TO_G1.hash(&d, &m, &e), Hash::Composite),
        _ => (COMPOSITE_HASH_TO_G1_CIP22.hash(&d, &m, &e), Hash::CompositeCip22),
    };
    let exp = oracle::hash_to_curve::<g1::Parameters>(h, COMPAT, &d, &m, &e).unwrap().0;
    match r { Ok(p) => ensure_eq!(p.into_affine(), exp.into_affine(), format!("static-{}{}", name(h), if COMPAT { "" } else { "-nocompat" }), "ready-made hasher {}", name(h)), Err(x) => return fail("static-error", format!("{:?}", x)) }
    Ok(())
}
pub fn p_long_domain(c: &mut Case) -> Outcome {
    let n = c.size(9, 30);
    let d = c.bytes(n);
    let (m, e) = (message(c), extra(c));
    let h = *c.pick(&[Hash::Direct, Hash::DirectCip22, Hash::Composite, Hash::CompositeCip22]);
    c.log(format!("{} domain of {} bytes", name(h), n));
    c.nontrivial_here();
    match no_panic(|| run::<g1::Parameters>(h, &d, &m, &e)) {
        Ok(Err(BLSError::DomainTooLarge(k))) => ensure_eq!(k, n, format!("long-domain-{}", name(h)), "length in the error"),
        Ok(Err(x)) => return fail(&format!("long-domain-{}", name(h)), format!("unexpected error {:?}", x)),
        Ok(Ok(_)) => return fail(&format!("long-domain-{}", name(h)), "an overlong domain is accepted".to_string()),
        Err(p) => return fail(&format!("long-domain-{}", name(h)), format!("panics: {}", p)),
    }
    Ok(())
}

/// A hasher whose outputs are scripted by counter, and which records how it is called.
struct Script { cand: Vec<Vec<u8>>, fail_at: Option<usize>, crh_fails: bool, error: u64, calls: Mutex<Vec<(&'static str, Vec<u8>, Vec<u8>, usize)>>, inner: Option<Vec<u8>> }
/// errors of every kind
fn error(kind: u64, tag: usize) -> BLSError {
    match kind {
        0 => BLSError::DomainTooLarge(tag),
        1 => BLSError::HashingError(format!("failure {}", tag).into()),
        2 => BLSError::IoError(std::io::Error::new(if tag % 2 == 0 { std::io::ErrorKind::UnexpectedEof } else { std::io::ErrorKind::Interrupted }, format!("failure {}", tag))),
        3 => BLSError::SerializationError(ark_serialize::SerializationError::InvalidData),
        4 => BLSError::SerializationError(ark_serialize::SerializationError::NotEnoughSpace),
        5 => BLSError::VerificationFailed,
        6 => BLSError::HashToCurveError,
        _ => BLSError::UnevenNumKeysMessages,
    }
}
impl Hasher for Script {
    type Error = BLSError;
    fn crh(&self, d: &[u8], m: &[u8], n: usize) -> Result<Vec<u8>, BLSError> {
        self.calls.lock().unwrap().push(("crh", d.to_vec(), m.to_vec(), n));
        if self.crh_fails { return Err(error(self.error, 4242)); }
        Ok(match &self.inner { Some(i) => i.clone(), None => m.to_vec() })
    }
    fn xof(&self, d: &[u8], m: &[u8], n: usize) -> Result<Vec<u8>, BLSError> {
        self.calls.lock().unwrap().push(("xof", d.to_vec(), m.to_vec(), n));
        let i = m[0] as usize;
        if self.fail_at == Some(i) { return Err(error(self.error, 1000 + i)); }
        Ok(self.cand[i].clone())
    }
}
/// candidate strings of a chosen kind
fn make<P: RefCurve>(c: &mut Case, kind: usize, n: usize) -> Vec<u8> where P::BaseField: Sign + SquareRootField {
    let mut v = c.random_bytes(n);
    let b = P::BYTES;
    let modulus: Vec<u8> = { let m = <Fq as PrimeField>::Params::MODULUS; (0..48).map(|i| (m.as_ref()[i / 8] >> (8 * (i % 8))) as u8).collect() };
    match kind {
        // not on the curve
        0 => for k in 0..200u8 { v[0] = v[0].wrapping_add(k); if P::x_from(&v[..b]).map(|x| (x * x * x + P::COEFF_A * x + P::COEFF_B).sqrt().is_none()).unwrap_or(false) { break; } },
        // x at or above the modulus
        1 => { let o = b - 48; let d = c.below(3) as u8; for i in 0..48 { v[o + i] = modulus[i]; } v[o] += d; v[b - 1] |= c.u8() & 0xfe; }
        2 => { let d = c.below(2) as u8; for i in 0..48 { v[i] = modulus[i]; } v[0] += d; v[47] |= c.u8() & 0xfe; }
        // x = 0, with any combination of the spare bits
        3 => { for i in 0..b { v[i] = 0; } v[b - 1] = c.u8() & 0xfe; }
        // a point whose order divides the cofactor
        4 => {
            let mut x = P::x_from(&v[..b]).unwrap_or_else(P::BaseField::one);
            let p = loop { if let Some(y) = (x * x * x + P::COEFF_A * x + P::COEFF_B).sqrt() { break GroupProjective::<P>::from(ark_ec::models::short_weierstrass_jacobian::GroupAffine::<P>::new(x, y, false)); } x += P::BaseField::one(); };
            let q = oracle::mul(&p, <P::ScalarField as PrimeField>::Params::MODULUS.as_ref());
            if !q.is_zero() { let xb = q.into_affine().x.bytes(); v[..b].copy_from_slice(&xb); v[b - 1] |= c.u8() & 0xbe; }
        }
        // x just below the modulus
        5 => { let o = b - 48; for i in 0..48 { v[o + i] = modulus[i]; } v[o] -= 1 + c.below(1) as u8; v[b - 1] |= c.u8() & 0xfe; }
        // anything
        _ => {}
    }
    v
}
fn scripted<P: RefCurve>(c: &mut Case, cip22: bool) -> Outcome where P::BaseField: Sign + SquareRootField {
    let n = oracle::hash_length(P::BYTES);
    let (d, m, e) = (domain(c), message(c), extra(c));
    let exhausted = c.chance(1, 25);
    let bad = if exhausted { 255 } else { match c.weighted(&[3, 3, 1, 1]) { 0 => 0, 1 => c.size(1, 5), 2 => c.size(0, 254), _ => 254 - c.size(0, 1) } };
    let mut cand = vec![];
    let shape = c.below(6) as usize;
    for i in 0..256usize {
        let kind = if i < bad { if bad > 20 && i > 8 { if i % 16 == 0 { 4 } else { (shape + i) % 3 } } else { c.below(5) as usize } } else if i == bad { 5 + c.below(3) as usize } else { 7 };
        cand.push(make::<P>(c, kind, n));
    }
    let fail_at = if c.chance(1, 6) { Some(c.size(0, 1 + bad.min(253))) } else { None };
    let crh_fails = c.chance(1, 20);
    let kind = c.below(8);
    let inner = if cip22 { let k = c.size(0, 60); Some(c.bytes(k)) } else { None };
    c.log(format!("{} candidates: first {} bad, error {} at {:?}, crh fails: {}, domain={} message={} extra={}", if cip22 { "cip22" } else { "plain" }, bad, kind, fail_at, crh_fails, hexs(&d), hexs(&m), hexs(&e)));
    c.nontrivial_here();
    // expected
    let mut exp: Result<(GroupProjective<P>, usize), String> = Err("HashToCurveError".into());
    if crh_fails { exp = Err(format!("{:?}", error(kind, 4242))); } else {
        for i in 0..255 {
            if fail_at == Some(i) { exp = Err(format!("{:?}", error(kind, 1000 + i))); break; }
            if let Some(p) = oracle::candidate::<P>(&cand[i], COMPAT) { exp = Ok((p, i)); break; }
        }
    }
    match &exp { Ok((_, i)) if *i > 0 => c.label("scripted: later counter"), Ok(_) => c.label("scripted: first counter"), Err(_) => c.label("scripted: error") }
    let s = Script { cand, fail_at, crh_fails, error: kind, calls: Mutex::new(vec![]), inner: inner.clone() };
    let r = no_panic(|| if cip22 { TryAndIncrementCIP22::<_, P>::new(&s).hash_with_attempt_cip22(&d, &m, &e) } else { TryAndIncrement::<_, P>::new(&s).hash_with_attempt(&d, &m, &e) }).or_else(|p| fail("scripted-panic", p))?;
    match (&r, &exp) {
        (Ok((p, t)), Ok((q, u))) => { ensure_eq!(t, u, "scripted-attempt", "counter"); ensure_eq!(p.into_affine(), q.into_affine(), "scripted-point", "point"); }
        (Err(x), Err(y)) => ensure_eq!(&format!("{:?}", x), y, "scripted-error", "error"),
        (Ok((_, t)), Err(y)) => return fail("scripted-accept", format!("a point at counter {}, expected {}", t, y)),
        (Err(x), Ok((_, u))) => return fail("scripted-reject", format!("{:?}, expected a point at counter {}", x, u)),
    }
    // what was hashed
    let calls = s.calls.lock().unwrap();
    for (k, cd, cm, cn) in calls.iter() {
        ensure_eq!(hexs(cd), hexs(&d), "scripted-domain", "domain passed to {}", k);
        ensure_eq!(*cn, n, "scripted-length", "length passed to {}", k);
        if *k == "xof" || !cip22 {
            let exp: Vec<u8> = match &inner { Some(i) => [&cm[..1], &e[..], &i[..]].concat(), None => [&cm[..1], &e[..], &m[..]].concat() };
            ensure!(*cm == exp, "scripted-input", "{} is called on {}, expected {}", k, hexs(cm), hexs(&exp));
        } else { ensure!(*cm == m, "scripted-input", "crh is called on {}, expected the message {}", hexs(cm), hexs(&m)); }
    }
    Ok(())
}
pub fn p_scripted_g1(c: &mut Case) -> Outcome { let t = c.bool(); scripted::<g1::Parameters>(c, t) }
pub fn p_scripted_g2(c: &mut Case) -> Outcome { let t = c.bool(); scripted::<g2::Parameters>(c, t) }

/// Several calls in a row whose arguments are related: what a call returns depends on its own arguments alone.
pub fn p_related(c: &mut Case) -> Outcome {
    let (mut d, mut m, mut e) = (domain(c), { let n = c.len_near(&[32, 64], 140); c.bytes(n) }, { let n = c.size(0, 40); c.bytes(n) });
    let mut h = *c.pick(&[Hash::Direct, Hash::DirectCip22, Hash::Composite, Hash::CompositeCip22]);
    let steps = 2 + c.size(0, 4);
    let mut past: Vec<(Hash, Vec<u8>, Vec<u8>, Vec<u8>)> = vec![];
    c.nontrivial_here();
    for i in 0..steps {
        if i > 0 { match c.below(8) {
            0 => { let x = c.pick(&past).clone(); h = x.0; d = x.1; m = x.2; e = x.3 }
            1 => h = *c.pick(&[Hash::Direct, Hash::DirectCip22, Hash::Composite, Hash::CompositeCip22]),
            2 => c.relate(&mut [&mut d, &mut m, &mut e]),
            3 => c.relate(&mut [&mut d]),
            4 | 5 => c.relate(&mut [&mut m]),
            _ => c.relate(&mut [&mut m, &mut e]),
        } }
        d.truncate(8);
        past.push((h, d.clone(), m.clone(), e.clone()));
        let g2_ = matches!(h, Hash::Direct | Hash::DirectCip22) && c.chance(1, 6);
        c.log(format!("{} {} domain={} message={} extra={}", name(h), if g2_ { "g2" } else { "g1" }, hexs(&d), hexs(&m), hexs(&e)));
        let sig = format!("related-{}{}", name(h), if COMPAT { "" } else { "-nocompat" });
        let ok = if g2_ {
            let (q, t) = oracle::hash_to_curve::<g2::Parameters>(h, COMPAT, &d, &m, &e).expect("reference found no point");
            no_panic(|| run::<g2::Parameters>(h, &d, &m, &e)).or_else(|p| fail(&sig, p))?.map(|(p, u)| p == q && t == u)
        } else {
            let (q, t) = oracle::hash_to_curve::<g1::Parameters>(h, COMPAT, &d, &m, &e).expect("reference found no point");
            no_panic(|| run::<g1::Parameters>(h, &d, &m, &e)).or_else(|p| fail(&sig, p))?.map(|(p, u)| p == q && t == u)
        };
        ensure!(matches!(ok, Ok(true)), sig, "call {} differs from the reference ({:?})", i, ok);
    }
    Ok(())
}
/// the same from several threads at once
pub fn p_threads(c: &mut Case) -> Outcome {
    let t = 2 + c.size(0, 2);
    let m0 = c.bytes(40);
    let jobs: Vec<Vec<(Hash, Vec<u8>, Vec<u8>, Vec<u8>)>> = (0..t).map(|_| (0..6).map(|_| { let (mut m, mut e) = (m0.clone(), vec![]); if c.bool() { c.relate(&mut [&mut m, &mut e]); } (*c.pick(&[Hash::Direct, Hash::DirectCip22, Hash::Composite, Hash::CompositeCip22]), domain(c), m, e) }).collect()).collect();
    c.log(format!("{} threads of 6 calls each around message {}", t, hexs(&m0)));
    c.nontrivial_here();
    let hs: Vec<_> = jobs.into_iter().map(|j| std::thread::spawn(move || {
        for (h, d, m, e) in j {
            let p = run::<g1::Parameters>(h, &d, &m, &e).map_err(|e| format!("{:?}", e))?;
            if oracle::hash_to_curve::<g1::Parameters>(h, COMPAT, &d, &m, &e).unwrap() != p { return Err(format!("{} domain={} message={} extra={} differs from the reference", name(h), hexs(&d), hexs(&m), hexs(&e))); }
        }
        Ok(())
    })).collect();
    for h in hs { match h.join() { Err(_) => return fail("threads-panic", "a thread panicked"), Ok(Err(e)) => return fail("threads", e), Ok(Ok(())) => {} } }
    Ok(())
}

// ------------------------------------------------------------------ C02
/// Several calls in a row whose arguments are related.
pub fn p_comp_related(c: &mut Case) -> Outcome {
    let (mut d, mut m) = (domain(c), { let cap = if c.chance(1, 6) { 900 } else { 140 }; let n = c.len_near(&[34, 64, 70, 105, 128], cap); c.bytes(n) });
    let mut n = c.size(0, 130);
    let own = if c.chance(1, 40) { Some(CompositeHasher::<CRH>::new().unwrap()) } else { None };
    let steps = 2 + c.size(0, 4);
    let mut past: Vec<(Vec<u8>, Vec<u8>, usize)> = vec![];
    c.nontrivial_here();
    for i in 0..steps {
        if i > 0 { match c.below(8) {
            0 => { let x = c.pick(&past).clone(); d = x.0; m = x.1; n = x.2 }
            1 => c.relate(&mut [&mut d, &mut m]),
            2 => c.relate(&mut [&mut d]),
            3 => n = match c.below(4) { 0 => n + 32, 1 => n + 1, 2 => n / 2, _ => c.size(0, 300) },
            4 => m = oracle::bh_crh(&m),
            _ => c.relate(&mut [&mut m]),
        } }
        d.truncate(8);
        past.push((d.clone(), m.clone(), n));
        let op = *c.pick(&[0usize, 0, 1, 2, 2]);
        c.log(format!("{} domain={} message={} length={}", ["crh", "xof", "hash"][op], hexs(&d), hexs(&m), n));
        let h: &CompositeHasher<CRH> = match &own { Some(h) if c.bool() => h, _ => &*COMPOSITE_HASHER };
        let (r, want) = match op {
            0 => (no_panic(|| h.crh(&d, &m, n)), oracle::bh_crh(&m)),
            1 => (no_panic(|| h.xof(&d, &m, n)), b2::xof(&d, &m, n)),
            _ => (no_panic(|| h.hash(&d, &m, n)), oracle::composite_hash(&d, &m, n)),
        };
        match r.or_else(|e| fail("related-panic", e))? { Ok(v) => ensure!(v == want, "related", "call {}: got {}, expected {}", i, hexs(&v), hexs(&want)), Err(e) => return fail("related-error", format!("{:?}", e)) }
    }
    Ok(())
}
pub fn p_comp_threads(c: &mut Case) -> Outcome {
    let t = 2 + c.size(0, 2);
    let m0 = { let n = c.size(0, 120); c.bytes(n) };
    let jobs: Vec<Vec<(Vec<u8>, Vec<u8>, usize)>> = (0..t).map(|_| (0..8).map(|_| { let mut m = m0.clone(); if c.bool() { c.relate(&mut [&mut m]); } (domain(c), m, c.size(0, 130)) }).collect()).collect();
    c.log(format!("{} threads of 8 calls each around message {}", t, hexs(&m0)));
    c.nontrivial_here();
    let hs: Vec<_> = jobs.into_iter().map(|j| std::thread::spawn(move || {
        for (d, m, n) in j {
            let (h, k) = (COMPOSITE_HASHER.hash(&d, &m, n).map_err(|e| format!("{:?}", e))?, COMPOSITE_HASHER.crh(&d, &m, n).map_err(|e| format!("{:?}", e))?);
            if h != oracle::composite_hash(&d, &m, n) { return Err(format!("hash of {} under {} to {} bytes is {}", hexs(&m), hexs(&d), n, hexs(&h))); }
            if k != oracle::bh_crh(&m) { return Err(format!("crh of {} is {}", hexs(&m), hexs(&k))); }
        }
        Ok(())
    })).collect();
    for h in hs { match h.join() { Err(_) => return fail("threads-panic", "a thread panicked"), Ok(Err(e)) => return fail("threads", e), Ok(Ok(())) => {} } }
    Ok(())
}
fn bh_message(c: &mut Case) -> Vec<u8> {
    // windows of 93 chunks of 3 bits end inside bytes 34, 69, 104, ...
    let cap = match c.weighted(&[12, 3, 1]) { 0 => 150, 1 => 800, _ => oracle::BH_MAX };
    let n = match c.weighted(&[3, 3, 1]) {
        0 => c.size(0, cap),
        1 => { let w = c.size(1, (cap / 35).max(1)); ((w * 279) / 8 + c.size(0, 3)).saturating_sub(1).min(oracle::BH_MAX) }
        _ => c.size(0, 8),
    };
    c.bytes(n)
}
pub fn p_bh(c: &mut Case) -> Outcome {
    let m = bh_message(c);
    let (d, n) = ({ let k = c.size(0, 12); c.bytes(k) }, c.size(0, 70000));
    c.log(format!("crh message={} (domain of {} bytes, length {})", hexs(&m), d.len(), n));
    if m.len() > 34 { c.label("more than one window"); }
    if m.len() % 3 != 0 { c.label("padded last chunk"); }
    if !m.is_empty() { c.nontrivial_here(); }
    let r = no_panic(|| COMPOSITE_HASHER.crh(&d, &m, n)).or_else(|p| fail("crh-panic", p))?;
    match r { Ok(v) => ensure_eq!(hexs(&v), hexs(&oracle::bh_crh(&m)), "crh", "compression"), Err(e) => return fail("crh-error", format!("{:?}", e)) }
    Ok(())
}
pub fn p_bh_max(c: &mut Case) -> Outcome {
    let n = oracle::BH_MAX - c.below(40) as usize;
    let m = c.random_bytes(n);
    c.log(format!("crh of {} bytes", n));
    c.nontrivial_here();
    let r = no_panic(|| COMPOSITE_HASHER.crh(b"", &m, 96)).or_else(|p| fail("crh-panic", p))?;
    match r { Ok(v) => ensure_eq!(hexs(&v), hexs(&oracle::bh_crh(&m)), "crh", "compression of a maximal message"), Err(e) => return fail("crh-error", format!("{:?}", e)) }
    Ok(())
}
pub fn p_comp_xof(c: &mut Case) -> Outcome {
    let d = domain(c);
    let m = if c.bool() { c.bytes(48) } else { message(c) };
    let n = c.len_near(&[32, 64, 96, 128, 768], 2000);
    c.log(format!("xof domain={} input={} length={}", hexs(&d), hexs(&m), n));
    if n > 0 { c.nontrivial_here(); }
    let r = no_panic(|| COMPOSITE_HASHER.xof(&d, &m, n)).or_else(|p| fail("xof-panic", p))?;
    match r { Ok(v) => ensure_eq!(hexs(&v), hexs(&b2::xof(&d, &m, n)), "xof", "expansion"), Err(e) => return fail("xof-error", format!("{:?}", e)) }
    let k = c.size(9, 20);
    let long = c.bytes(k);
    for (w, r) in [("xof", no_panic(|| COMPOSITE_HASHER.xof(&long, &m, n))), ("hash", no_panic(|| COMPOSITE_HASHER.hash(&long, &m, n)))] {
        match r { Ok(Err(BLSError::DomainTooLarge(x))) if x == k => {} Ok(r) => return fail("long-domain", format!("{} under a domain of {} bytes: {:?}", w, k, r.map(|v| hexs(&v)))), Err(p) => return fail("long-domain", format!("{} panics: {}", w, p)) }
    }
    Ok(())
}
pub fn p_comp_hash(c: &mut Case) -> Outcome {
    let (d, m) = (domain(c), bh_message(c));
    let n = c.len_near(&[32, 64, 96, 128, 768], 2000);
    c.log(format!("hash domain={} message={} length={}", hexs(&d), hexs(&m), n));
    if n > 0 && !m.is_empty() { c.nontrivial_here(); }
    let fresh = c.chance(1, 20);
    let r = no_panic(|| if fresh { CompositeHasher::<CRH>::new().unwrap().hash(&d, &m, n) } else { COMPOSITE_HASHER.hash(&d, &m, n) }).or_else(|p| fail("hash-panic", p))?;
    match r { Ok(v) => ensure_eq!(hexs(&v), hexs(&oracle::composite_hash(&d, &m, n)), "hash", "composite hash"), Err(e) => return fail("hash-error", format!("{:?}", e)) }
    Ok(())
}
#[allow(dead_code)]
fn _unused() -> Option<Fq2> { let _ = Fq::one().square(); None }
