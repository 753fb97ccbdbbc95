//! C13: the signature verification gadget.
use ark_bls12_377::{constraints::{G1Var, G2Var, PairingVar}, Bls12_377, Fq, Fr, G1Projective, G2Projective};
use ark_ec::ProjectiveCurve;
use ark_ff::{Field, PrimeField, Zero};
use ark_r1cs_std::alloc::{AllocVar, AllocationMode};
use ark_r1cs_std::fields::fp::FpVar;
use ark_r1cs_std::groups::CurveVar;
use ark_r1cs_std::R1CSVar;
use ark_relations::r1cs::{ConstraintSystemRef, SynthesisError};
use bls_gadgets::BlsVerifyGadget;
use circ::*;
use oracle::{nonzero_scalar, random_scalar, smul};
use pbt::{ensure, fail, hex, Case, Outcome};
type Gadget = BlsVerifyGadget<Bls12_377, Fq, PairingVar>;
type Cs = ConstraintSystemRef<Fq>;

fn p1(k: &Fr) -> G1Projective { smul(&oracle::g1(), k) }
fn p2(k: &Fr) -> G2Projective { smul(&oracle::g2(), k) }
fn v1(cs: &Cs, p: G1Projective, m: AllocationMode) -> Result<G1Var, SynthesisError> { let s = cs.is_in_setup_mode() && m != AllocationMode::Constant; G1Var::new_variable_omit_prime_order_check(cs.clone(), || if s { Err(SynthesisError::AssignmentMissing) } else { Ok(p) }, m) }
fn v2(cs: &Cs, p: G2Projective, m: AllocationMode) -> Result<G2Var, SynthesisError> { let s = cs.is_in_setup_mode() && m != AllocationMode::Constant; G2Var::new_variable_omit_prime_order_check(cs.clone(), || if s { Err(SynthesisError::AssignmentMissing) } else { Ok(p) }, m) }
fn hx(k: &Fr) -> String { let b = oracle::fr_bytes(k); if k.into_repr() < Fr::from(1u64 << 32).into_repr() { format!("{}", k.into_repr().as_ref()[0]) } else { hex(&b[..6]) + ".." } }

/// everything by its discrete logarithm
#[derive(Clone)]
struct In { keys: Vec<Fr>, bits: Vec<bool>, hash: Fr, sig: Fr, max: u64, pad: Fr, km: Vec<AllocationMode>, bm: Vec<AllocationMode>, forms: Vec<Form>, sm: AllocationMode, mm: AllocationMode, pm: AllocationMode }
impl In {
    fn apk(&self) -> Fr { let mut a = Fr::zero(); for (k, b) in self.keys.iter().zip(&self.bits) { if *b { a += k; } } a }
    fn zeros(&self) -> u64 { self.bits.iter().filter(|b| !**b).count() as u64 }
    fn padded(&self) -> bool { self.keys.iter().zip(&self.bits).any(|(k, b)| *b && *k == self.pad) }
    fn holds(&self) -> bool { self.zeros() <= self.max && !self.padded() && self.apk() * self.hash == self.sig }
    fn show(&self) -> String { format!("keys=[{}] bits={} hash={} sig={} max={} padding={}", self.keys.iter().map(hx).collect::<Vec<_>>().join(","), self.bits.iter().map(|b| if *b { '1' } else { '0' }).collect::<String>(), hx(&self.hash), hx(&self.sig), self.max, hx(&self.pad)) + &forms_shown(&self.forms) }
}
fn keys(c: &mut Case, n: usize, pad: &Fr) -> Vec<Fr> {
    let mut v: Vec<Fr> = vec![];
    for i in 0..n {
        let k = match c.weighted(&[6, 1, 1, 1]) { 0 => nonzero_scalar(c), 1 | 2 if i > 0 => { let k = v[c.size(0, i - 1)]; let k = oracle::related(c, &k); if k.is_zero() { Fr::from(1u64) } else { k } } 3 => *pad, _ => random_scalar(c) };
        v.push(k);
    }
    v
}
fn input(c: &mut Case, modes: bool) -> In {
    let pad = if c.bool() { Fr::from(1u64) } else { nonzero_scalar(c) };
    let n = c.count(1, 7, 70);
    let ks = keys(c, n, &pad);
    let mut bits: Vec<bool> = match c.weighted(&[3, 3]) { 0 => vec![true; n], _ => (0..n).map(|_| c.chance(2, 3)).collect() };
    // mostly leave the padding key unsigned
    if c.chance(3, 4) { for (b, k) in bits.iter_mut().zip(&ks) { if *k == pad { *b = false; } } }
    let hash = nonzero_scalar(c);
    let m = |c: &mut Case| if modes { mode_c(c) } else { AllocationMode::Witness };
    let km: Vec<_> = (0..n).map(|_| m(c)).collect();
    let mut bm: Vec<_> = (0..n).map(|_| m(c)).collect();
    let keep = c.size(0, n - 1);
    if bm[keep] == AllocationMode::Constant { bm[keep] = AllocationMode::Witness; }
    let forms = if modes { forms(c, n) } else { vec![Form::Plain; n] };
    let sm = if modes { mode(c) } else { AllocationMode::Witness };
    let (mm, pm) = (m(c), m(c));
    let mut i = In { keys: ks, bits, hash, sig: Fr::zero(), max: 0, pad, km, bm, forms, sm, mm, pm };
    let z = i.zeros();
    i.max = match c.weighted(&[5, 2, 2]) { 0 => z, 1 => z + c.below(3), _ => z.saturating_sub(1) };
    // the signature: valid, or off by something
    let all = i.keys.iter().fold(Fr::zero(), |a, k| a + k);
    i.sig = match c.weighted(&[10, 2, 2, 2, 1, 1]) {
        0 => i.apk() * hash,
        1 => { let k = nonzero_scalar(c); i.apk() * hash + k }
        2 => { let k = c.size(0, n - 1); let d = i.keys[k] * hash; if i.bits[k] { i.apk() * hash - d } else { i.apk() * hash + d } }
        3 => all * hash,
        4 => -(i.apk() * hash),
        _ => i.apk(),
    };
    i
}
/// the pairing gadget of the library does not treat the identity; such inputs are outside the property
fn identities(i: &In) -> bool { i.apk().is_zero() || i.sig.is_zero() || i.hash.is_zero() }
fn c_verify(i: &In, cs: Cs) -> Result<(), SynthesisError> {
    let h = v1(&cs, p1(&i.hash), i.sm)?;
    let s = v1(&cs, p1(&i.sig), i.sm)?;
    let ks = i.keys.iter().zip(&i.km).map(|(k, m)| v2(&cs, p2(k), *m)).collect::<Result<Vec<_>, _>>()?;
    let bs = i.bits.iter().zip(&i.bm).zip(&i.forms).map(|((b, m), f)| bit(&cs, *b, *m, *f)).collect::<Result<Vec<_>, _>>()?;
    let setup = cs.is_in_setup_mode() && i.mm != AllocationMode::Constant;
    let max = FpVar::new_variable(cs.clone(), || if setup { Err(SynthesisError::AssignmentMissing) } else { Ok(Fq::from(i.max)) }, i.mm)?;
    let pad = v2(&cs, p2(&i.pad), i.pm)?;
    inputs_done();
    Gadget::verify(&ks, &bs, &h, &s, &max, &pad)
}
pub fn verify(c: &mut Case) -> Outcome {
    let i = input(c, true);
    if identities(&i) { c.label("identity involved: not judged"); return Ok(()); }
    c.log(i.show());
    c.label(if i.holds() { "valid" } else if i.zeros() > i.max { "too many non-signers" } else if i.padded() { "padding key signed" } else { "bad signature" });
    c.nontrivial_here();
    let r = run::<Fq, _>(None, |cs| c_verify(&i, cs));
    if let Err(e) = &r.out { if i.holds() { return fail("verify-error", format!("synthesis fails on a valid signature: {}", e)); } }
    ensure!(r.sat == i.holds(), if r.sat { "verify-accepts" } else { "verify-rejects" }, "satisfied: {}, expected: {}", r.sat, i.holds());
    Ok(())
}
pub fn attack(c: &mut Case) -> Outcome {
    let mut i = input(c, true);
    if i.holds() {
        // make it false in one way
        match c.below(3) {
            0 => { i.bits[0] = false; i.sig = i.apk() * i.hash; i.max = i.zeros().saturating_sub(1); }
            1 => { i.bits[0] = true; i.pad = i.keys[0]; i.sig = i.apk() * i.hash; i.max = i.zeros(); }
            _ => i.sig += Fr::from(1 + c.below(5)),
        }
    }
    if identities(&i) || i.holds() { c.label("not judged"); return Ok(()); }
    c.log(i.show());
    let r = run::<Fq, _>(None, |cs| c_verify(&i, cs));
    if r.out.is_err() || r.count <= r.first { return Ok(()); }
    c.nontrivial_here();
    for _ in 0..3 {
        let p = lies_of(c, &r);
        let t = run::<Fq, _>(Some(p.clone()), |cs| c_verify(&i, cs));
        if t.applied > 0 { c.label("lie told"); }
        ensure!(!t.sat, "verify-unsound", "a lying prover has it accepted: {}", shown(&p));
    }
    Ok(())
}
/// A prover replaces the generator, which the gadget fixes, by one that the wrong signature is valid for.
pub fn generator(c: &mut Case) -> Outcome {
    let mut i = input(c, false);
    i.max = i.zeros();
    let good = i.apk() * i.hash;
    let t = match c.below(3) { 0 => -Fr::from(1u64), 1 => Fr::from(2 + c.below(9)), _ => nonzero_scalar(c) };
    i.sig = good * t;
    if identities(&i) || i.padded() || i.holds() { c.label("not judged"); return Ok(()); }
    c.log(i.show());
    let r = run::<Fq, _>(None, |cs| c_verify(&i, cs));
    if r.out.is_err() { return Ok(()); }
    c.nontrivial_here();
    let limbs = |v: &Fq| v.into_repr().as_ref().to_vec();
    let at = |k: &Fr| { let a = p2(k).into_affine(); vec![limbs(&a.x.c0), limbs(&a.x.c1), limbs(&a.y.c0), limbs(&a.y.c1)] };
    let (one, f) = (Fr::from(1u64), t.inverse().unwrap());
    let list: Vec<_> = [one, -one].iter().map(|s| (at(s), at(&(*s * f)))).collect();
    let p = replaced(c, &r.trace, r.first, &list);
    if p.at.is_empty() { return Ok(()); }
    c.label("generator replaced");
    let t = run::<Fq, _>(Some(p.clone()), |cs| c_verify(&i, cs));
    ensure!(!t.sat, "verify-unsound", "a prover gets a wrong signature accepted by replacing the generator: {}", shown(&p));
    Ok(())
}
pub fn shape(c: &mut Case) -> Outcome {
    let i = input(c, false);
    let mut j = i.clone();
    for k in 0..j.keys.len() { j.keys[k] = nonzero_scalar(c); j.bits[k] = c.bool(); }
    j.hash = nonzero_scalar(c);
    j.sig = nonzero_scalar(c);
    j.max = c.below(8);
    c.log(i.show());
    c.nontrivial_here();
    let (a, b) = (run::<Fq, _>(None, |cs| c_verify(&i, cs)), run::<Fq, _>(None, |cs| c_verify(&j, cs)));
    let s = match setup::<Fq, _>(|cs| c_verify(&i, cs)) { Ok(s) => s, Err(e) => return fail("verify-setup", e) };
    if a.out.is_ok() && b.out.is_ok() { ensure!(a.shape == b.shape, "verify-shape", "the constraints depend on the values"); }
    if a.out.is_ok() { ensure!(a.shape == s, "verify-shape", "the constraints at key generation differ from those at proving"); }
    Ok(())
}
pub fn batch(c: &mut Case) -> Outcome {
    let n = if c.chance(1, 30) { 0 } else { c.count(1, 5, 20) };
    let ks: Vec<Fr> = (0..n).map(|_| nonzero_scalar(c)).collect();
    let mut hs: Vec<Fr> = (0..n).map(|_| nonzero_scalar(c)).collect();
    if n > 1 && c.chance(1, 4) { hs[1] = hs[0]; }
    let good = ks.iter().zip(&hs).fold(Fr::zero(), |a, (k, h)| a + *k * h);
    let sig = match c.weighted(&[4, 1, 1, 1]) {
        0 => good,
        1 => good + nonzero_scalar(c),
        2 if n > 0 => { let k = c.size(0, n - 1); good - ks[k] * hs[k] }
        // keys and hashes paired in another order
        _ => { let p = c.permutation(n); (0..n).fold(Fr::zero(), |a, k| a + ks[k] * hs[p[k]]) }
    };
    if sig.is_zero() { return Ok(()); }
    let expect = sig == good;
    let (km, hm, sm, prep) = (mode_c(c), mode_c(c), mode(c), c.bool());
    c.log(format!("batch keys=[{}] hashes=[{}] sig={} {:?} {:?}", ks.iter().map(hx).collect::<Vec<_>>().join(","), hs.iter().map(hx).collect::<Vec<_>>().join(","), hx(&sig), km, hm));
    c.label(if expect { "valid batch" } else { "invalid batch" });
    c.nontrivial_here();
    let f = |cs: Cs| {
        use ark_r1cs_std::pairing::PairingVar as _;
        let kv = ks.iter().map(|k| v2(&cs, p2(k), km)).collect::<Result<Vec<_>, _>>()?;
        let hv = hs.iter().map(|k| v1(&cs, p1(k), hm)).collect::<Result<Vec<_>, _>>()?;
        let s = v1(&cs, p1(&sig), sm)?;
        inputs_done();
        if prep {
            let kv = kv.iter().map(|k| PairingVar::prepare_g2(k)).collect::<Result<Vec<_>, _>>()?;
            let hv = hv.iter().map(|k| PairingVar::prepare_g1(k)).collect::<Result<Vec<_>, _>>()?;
            Gadget::batch_verify_prepared(&kv, &hv, &s)
        } else { Gadget::batch_verify(&kv, &hv, &s) }
    };
    let r = run::<Fq, _>(None, f);
    if let Err(e) = &r.out { if expect { return fail("batch-error", e.clone()); } }
    ensure!(r.sat == expect, if r.sat { "batch-accepts" } else { "batch-rejects" }, "satisfied: {}, expected: {}", r.sat, expect);
    Ok(())
}
/// more keys than hashes or the other way round: the rest must not be ignored
pub fn batch_lengths(c: &mut Case) -> Outcome {
    let (n, k) = { let n = c.size(0, 4); let k = c.size(0, 4); if n == k { if c.bool() { (n + 1, k) } else { (n, k + 1) } } else { (n, k) } };
    let ks: Vec<Fr> = (0..n).map(|_| nonzero_scalar(c)).collect();
    let hs: Vec<Fr> = (0..k).map(|_| nonzero_scalar(c)).collect();
    let mut sig = ks.iter().zip(&hs).fold(Fr::zero(), |a, (k, h)| a + *k * h);
    if sig.is_zero() { sig = nonzero_scalar(c); }
    let (km, hm, prep) = (mode_c(c), mode_c(c), c.bool());
    c.log(format!("batch of {} keys and {} hashes, the signature that of the common part", n, k));
    c.nontrivial_here();
    let r = run::<Fq, _>(None, |cs: Cs| {
        use ark_r1cs_std::pairing::PairingVar as _;
        let kv = ks.iter().map(|k| v2(&cs, p2(k), km)).collect::<Result<Vec<_>, _>>()?;
        let hv = hs.iter().map(|k| v1(&cs, p1(k), hm)).collect::<Result<Vec<_>, _>>()?;
        let s = v1(&cs, p1(&sig), AllocationMode::Witness)?;
        if prep {
            let kv = kv.iter().map(|k| PairingVar::prepare_g2(k)).collect::<Result<Vec<_>, _>>()?;
            let hv = hv.iter().map(|k| PairingVar::prepare_g1(k)).collect::<Result<Vec<_>, _>>()?;
            Gadget::batch_verify_prepared(&kv, &hv, &s)
        } else { Gadget::batch_verify(&kv, &hv, &s) }
    });
    ensure!(!r.sat, "batch-lengths", "{} keys with {} hashes are accepted", n, k);
    Ok(())
}
/// the aggregated keys themselves, identity included
pub fn aggregate(c: &mut Case) -> Outcome {
    let i = input(c, true);
    let lie = c.bool();
    c.log(i.show());
    c.nontrivial_here();
    let all = i.keys.iter().fold(Fr::zero(), |a, k| a + k);
    let f = |cs: Cs| {
        let ks = i.keys.iter().zip(&i.km).map(|(k, m)| v2(&cs, p2(k), *m)).collect::<Result<Vec<_>, _>>()?;
        let bs = i.bits.iter().zip(&i.bm).zip(&i.forms).map(|((b, m), f)| bit(&cs, *b, *m, *f)).collect::<Result<Vec<_>, _>>()?;
        let pad = v2(&cs, p2(&i.pad), i.pm)?;
        inputs_done();
        let a = Gadget::enforce_aggregated_pubkeys(&ks, &bs, &pad)?;
        let b = Gadget::enforce_aggregated_all_pubkeys(&ks)?;
        let h = v1(&cs, p1(&i.hash), AllocationMode::Witness)?;
        let max = FpVar::new_witness(cs.clone(), || Ok(Fq::from(i.max)))?;
        let (h2, d) = Gadget::enforce_bitmap(&ks, &bs, &h, &max, &pad)?;
        let _ = (a.cs(), b.cs());
        Ok((a.value()?, b.value()?, h2.value()?, d.value()?))
    };
    let r = run::<Fq, _>(None, f);
    let ok = !i.padded() && i.zeros() <= i.max;
    ensure!(r.sat == ok || (r.out.is_err() && !ok), if r.sat { "aggregate-accepts" } else { "aggregate-rejects" }, "satisfied: {}, expected: {} ({:?})", r.sat, ok, r.out.as_ref().err());
    if !ok { return Ok(()); }
    let judge = |o: &(G2Projective, G2Projective, G1Projective, G2Projective), what: &str| -> Outcome {
        ensure!(o.0 == p2(&i.apk()), format!("aggregate-{}", what), "the aggregated key is not the sum of the signers' keys");
        ensure!(o.3 == p2(&i.apk()), format!("aggregate-{}", what), "the key next to the bitmap is not the sum of the signers' keys");
        ensure!(o.1 == p2(&all), format!("aggregate-all-{}", what), "the aggregate of all keys is not their sum");
        ensure!(o.2 == p1(&i.hash), format!("aggregate-{}", what), "the message hash changed");
        Ok(())
    };
    judge(r.out.as_ref().ok().unwrap(), "value")?;
    if lie && r.count > r.first {
        let p = lies_of(c, &r);
        let t = run::<Fq, _>(Some(p.clone()), f);
        if t.sat {
            // the hash and the limit are inputs that this circuit allocates late
            let o = t.out.ok().unwrap();
            ensure!(o.0 == p2(&i.apk()) && o.1 == p2(&all) && o.3 == p2(&i.apk()), "aggregate-unsound", "a lying prover gets another aggregate: {}", shown(&p));
        }
    }
    Ok(())
}
pub fn lengths(c: &mut Case) -> Outcome {
    let mut i = input(c, false);
    let d = c.size(1, 2);
    // dropping only signers (or nobody's bit) keeps the common prefix valid
    let drop_bits = c.bool();
    i.bits = vec![true; i.keys.len()];
    i.pad = random_scalar(c);
    if drop_bits && i.bits.len() > d { let n = i.bits.len() - d; i.bits.truncate(n); } else { for _ in 0..d { i.bits.push(c.bool()); i.bm.push(AllocationMode::Witness); i.forms.push(Form::Plain); } }
    i.sig = i.apk() * i.hash;
    i.max = i.zeros();
    if identities(&i) { return Ok(()); }
    c.log(i.show());
    c.nontrivial_here();
    let r = run::<Fq, _>(None, |cs| c_verify(&i, cs));
    ensure!(!r.sat, "verify-lengths", "{} keys with a bitmap of {} bits are accepted", i.keys.len(), i.bits.len());
    Ok(())
}
