// C14: hashing to the curve in a circuit. Included once per feature configuration (`bg`, COMPAT).
use ark_bls12_377::{g1, Fq, G1Projective, Parameters};
use ark_r1cs_std::alloc::{AllocVar, AllocationMode};
use ark_r1cs_std::boolean::Boolean;
use ark_r1cs_std::uint8::UInt8;
use ark_r1cs_std::R1CSVar;
use ark_relations::r1cs::{ConstraintSystemRef, SynthesisError};
use bg::{hash_to_bits, HashToGroupGadget};
use circ::*;
use oracle::{candidate, Hash};
use pbt::{blake2s_ref as b2, ensure, fail, hexs, Case, Outcome};
type Cs = ConstraintSystemRef<Fq>;

fn bits_of(b: &[u8]) -> Vec<bool> { b.iter().flat_map(|x| (0..8).map(move |i| x >> i & 1 == 1)).collect() }
fn values(b: &[Boolean<Fq>]) -> Result<Vec<bool>, SynthesisError> { b.iter().map(|b| b.value()).collect() }
fn bytes_var(cs: &Cs, b: &[u8], m: AllocationMode, forms: &[Form]) -> Result<Vec<UInt8<Fq>>, SynthesisError> {
    let s = cs.is_in_setup_mode() && m != AllocationMode::Constant;
    if forms.is_empty() { return b.iter().map(|x| UInt8::new_variable(cs.clone(), || if s { Err(SynthesisError::AssignmentMissing) } else { Ok(*x) }, m)).collect(); }
    // bytes of bits that come about otherwise
    bits_of(b).chunks(8).zip(forms.chunks(8)).map(|(b, f)| Ok(UInt8::from_bits_le(&b.iter().zip(f).map(|(b, f)| bit(cs, *b, m, *f)).collect::<Result<Vec<_>, SynthesisError>>()?))).collect()
}
struct In { counter: u8, message: Vec<u8>, extra: Vec<u8>, constrained: bool, mm: AllocationMode, em: AllocationMode, cm: AllocationMode, forms: Vec<Form>, cforms: Vec<Form> }
impl In {
    fn show(&self) -> String { format!("message={} extra={} counter={} constraints={}", hexs(&self.message), hexs(&self.extra), self.counter, self.constrained) + &if self.forms.is_empty() { String::new() } else { forms_shown(&self.forms) } }
    fn crh(&self) -> Vec<u8> { oracle::bh_crh(&self.message) }
    fn xof(&self) -> Vec<u8> { b2::xof(b"ULforxof", &[&[self.counter], &self.extra[..], &self.crh()[..]].concat(), 64) }
    fn expect(&self) -> Option<G1Projective> { candidate::<g1::Parameters>(&self.xof(), COMPAT) }
}
type Out = (G1Projective, Vec<bool>, Vec<bool>);
fn circuit(i: &In, cs: Cs) -> Result<Option<Out>, SynthesisError> {
    let counter = bytes_var(&cs, &[i.counter], i.cm, &i.cforms)?.remove(0);
    let m = bytes_var(&cs, &i.message, i.mm, &i.forms)?;
    let e = bytes_var(&cs, &i.extra, i.em, &[])?;
    inputs_done();
    let (p, crh, xof) = HashToGroupGadget::<Parameters, Fq>::enforce_hash_to_group(counter, &m, &e, i.constrained)?;
    if cs.is_in_setup_mode() { return Ok(None); }
    Ok(Some((p.value()?, values(&crh)?, values(&xof)?)))
}
fn input(c: &mut Case) -> In {
    let n = if c.chance(1, 40) { c.count(100, 300, 1500) } else { c.len_near(&[32, 34, 35, 48, 64], 120).max(1) };
    let message = c.bytes(n);
    let extra = match c.weighted(&[1, 3]) { 0 => vec![], _ => { let n = c.len_near(&[8, 15, 16, 32], 80); c.bytes(n) } };
    let derived = c.chance(1, 4);
    let forms = if derived { forms(c, 8 * message.len()) } else { vec![] };
    let (cforms, cm) = if derived { (circ::forms(c, 8), AllocationMode::Witness) } else { (vec![], if c.chance(1, 4) { mode_c(c) } else { AllocationMode::Witness }) };
    let mut i = In { cm, forms, cforms, counter: 0, message, extra, constrained: c.chance(2, 3), mm: mode(c), em: mode_c(c) };
    i.counter = match c.weighted(&[5, 3]) {
        // the counter of the first good candidate
        0 => oracle::hash_to_curve::<g1::Parameters>(Hash::CompositeCip22, COMPAT, b"ULforxof", &i.message, &i.extra).unwrap().1 as u8,
        _ => { if c.bool() { c.u8() } else { c.size(0, 6) as u8 } }
    };
    i
}
pub fn hash(c: &mut Case) -> Outcome {
    let i = input(c);
    c.log(i.show());
    c.nontrivial_here();
    let e = i.expect();
    c.label(match (e.is_some(), i.counter) { (true, 0) => "good candidate at 0", (true, _) => "good candidate at a later counter", _ => "bad candidate" });
    let r = run::<Fq, _>(None, |cs| circuit(&i, cs));
    match e {
        None => ensure!(!r.sat, "accepts-bad-candidate", "a counter without a point is accepted"),
        Some(p) => {
            match &r.out {
                Err(e) => return fail("hash-error", e.clone()),
                Ok(o) => {
                    let o = o.as_ref().unwrap();
                    ensure!(o.1 == bits_of(&i.crh()), "crh-bits", "the compressed bits differ from the hash of the message");
                    ensure!(o.2 == bits_of(&i.xof()), "xof-bits", "the expanded bits differ from the expansion");
                    ensure!(o.0 == p, "point", "the point differs from the one the native hash yields");
                }
            }
            ensure!(r.sat, "hash-unsatisfied", "an honest witness does not satisfy the constraints");
        }
    }
    Ok(())
}
pub fn attack(c: &mut Case) -> Outcome {
    let mut i = input(c);
    i.constrained = true;
    c.log(i.show());
    let e = i.expect();
    let r = run::<Fq, _>(None, |cs| circuit(&i, cs));
    if r.count <= r.first { return Ok(()); }
    c.nontrivial_here();
    for _ in 0..3 {
        let mut p = lies_of(c, &r);
        // the compressed bits, as another representation of the same number
        let crh = i.crh();
        if c.chance(1, 4) && crh[47] >> 1 == 0 {
            let b = bits_of(&crh);
            let at: Vec<usize> = (r.first..(r.count.min(r.trace.len()) + 1).saturating_sub(377)).filter(|s| (0..377).all(|k| r.bools[s + k] && (r.trace[s + k][0] == 1) == b[k])).collect();
            if !at.is_empty() { p = wrap(&r, *c.pick(&at)); c.label("compressed bits plus modulus"); }
        }
        let t = run::<Fq, _>(Some(p.clone()), |cs| circuit(&i, cs));
        if t.applied > 0 { c.label("lie told"); }
        if t.sat {
            let o = t.out.ok().unwrap().unwrap();
            ensure!(Some(o.0) == e && o.1 == bits_of(&i.crh()) && o.2 == bits_of(&i.xof()), "hash-unsound", "a lying prover gets another point or other bits accepted: {}", shown(&p));
        }
    }
    Ok(())
}
/// The curve variables of the library are homogeneous projective with a free z: a prover may keep the x
/// that the hash dictates and pick y and z for another point of the curve.
pub fn projective(c: &mut Case) -> Outcome {
    use ark_ec::ProjectiveCurve;
    use ark_ff::{Field, PrimeField};
    let mut i = input(c);
    i.constrained = true;
    let e = match i.expect() { Some(p) => p, None => return Ok(()) };
    let xof = i.xof();
    let x = oracle::fq_masked(&xof[..48]).unwrap();
    let limbs = |v: &Fq| v.into_repr().as_ref().to_vec();
    let q = oracle::smul(&oracle::g1(), &oracle::random_scalar(c)).into_affine();
    c.log(format!("{} other point: the G1 generator times a scalar, x={}", i.show(), pbt::hex(&oracle::fq_bytes(&q.x))));
    let r = run_traced::<Fq, _>(|cs| circuit(&i, cs));
    let one = limbs(&Fq::from(1u64));
    let at: Vec<usize> = (0..r.trace.len().saturating_sub(2)).filter(|k| r.trace[*k] == limbs(&x) && r.trace[k + 2] == one).collect();
    if at.is_empty() { c.label("no projective point among the witnesses"); return Ok(()); }
    c.nontrivial_here();
    for k in at {
        let z = x * q.x.inverse().unwrap();
        let mut y = q.y * z;
        let high = |l: &[u64]| { let mut b: Vec<u8> = l.iter().flat_map(|w| w.to_le_bytes()).collect(); b.truncate(48); oracle::fq_high(&oracle::fq(&b).unwrap()) };
        if oracle::fq_high(&y) != high(&r.trace[k + 1]) { y = -y; }
        let p = Plan { at: vec![(k + 1, How::Set(limbs(&y))), (k + 2, How::Set(limbs(&z)))] };
        let t = run::<Fq, _>(Some(p), |cs| circuit(&i, cs));
        if t.sat { ensure!(t.out.ok().unwrap().unwrap().0 == e, "projective-point", "a prover gets another point of the curve accepted as the hash, by another z coordinate"); }
    }
    Ok(())
}
/// A prover that puts another point where the one that the hash dictates belongs: the negated one, one whose x differs in a
/// bit, any other; also where the hash dictates none.
pub fn other_point(c: &mut Case) -> Outcome {
    use ark_ec::ProjectiveCurve;
    use ark_ff::PrimeField;
    let mut i = input(c);
    i.constrained = true;
    i.cm = AllocationMode::Witness;
    i.counter = oracle::hash_to_curve::<g1::Parameters>(Hash::CompositeCip22, COMPAT, b"ULforxof", &i.message, &i.extra).unwrap().1 as u8;
    let e = i.expect().unwrap();
    let x = oracle::fq_masked(&i.xof()[..48]).unwrap();
    let limbs = |v: &Fq| v.into_repr().as_ref().to_vec();
    let r = run_traced::<Fq, _>(|cs| circuit(&i, cs));
    let one = limbs(&Fq::from(1u64));
    let at: Vec<usize> = (0..r.trace.len().saturating_sub(2)).filter(|k| r.trace[*k] == limbs(&x) && r.trace[k + 2] == one).collect();
    let bad = c.chance(1, 3);
    c.log(format!("{}{}", i.show(), if bad { ", then a counter without a point" } else { "" }));
    if at.is_empty() { c.label("no point among the witnesses"); return Ok(()); }
    let bytes = |w: &[u64]| { let mut b: Vec<u8> = w.iter().flat_map(|w| w.to_le_bytes()).collect(); b.truncate(48); oracle::fq(&b).unwrap() };
    if bad {
        let start = c.u8();
        let mut found = false;
        for d in 0..=255u8 { i.counter = start.wrapping_add(d); if i.expect().is_none() { found = true; break; } }
        if !found { return Ok(()); }
    }
    c.nontrivial_here();
    for k in at {
        let y = bytes(&r.trace[k + 1]);
        let q = oracle::smul(&oracle::g1(), &oracle::nonzero_scalar(c)).into_affine();
        // the number that the hash dictates now
        let now = oracle::fq_masked(&i.xof()[..48]);
        let (x2, y2) = match c.weighted(&[3, 3, 1]) {
            0 => if bad { (x, y) } else { (x, -y) },
            1 => {
                let from = match (bad, now) { (true, Some(n)) => n, _ => x };
                let b0 = if c.bool() { 376 - c.size(0, 8) } else { c.size(0, 376) };
                let mut out = None;
                for d in 0..40 {
                    let b = (b0 + 377 - d) % 377;
                    let mut l = limbs(&from);
                    l[b / 64] ^= 1 << (b % 64);
                    let mut by: Vec<u8> = l.iter().flat_map(|w| w.to_le_bytes()).collect();
                    by.truncate(48);
                    if let Some(z) = oracle::fq(&by) { if let Some(p) = ark_bls12_377::G1Affine::get_point_from_x(z, c.bool()) { out = Some((p.x, p.y)); break; } }
                }
                match out { Some(o) => { c.label("x off by a bit"); o } None => (q.x, q.y) }
            }
            _ => (q.x, q.y),
        };
        let p = Plan { at: vec![(k, How::Set(limbs(&x2))), (k + 1, How::Set(limbs(&y2))), (k + 2, How::Set(one.clone()))] };
        let t = run::<Fq, _>(Some(p.clone()), |cs| circuit(&i, cs));
        if t.applied > 0 { c.label(if bad { "point given where there is none" } else { "other point given" }); }
        if t.sat { ensure!(!bad && t.out.ok().unwrap().unwrap().0 == e, "other-point", "a prover gets another point accepted as the hash: {}", shown(&p)); }
    }
    Ok(())
}
/// The hash dictates a number that is not below the modulus, so that there is no point; the prover takes the number less the
/// modulus, and decomposes it into the bits of the hash.
pub fn reduced(c: &mut Case) -> Outcome {
    use ark_ff::PrimeField;
    let mut i = input(c);
    i.constrained = true;
    i.cm = AllocationMode::Witness;
    i.counter = oracle::hash_to_curve::<g1::Parameters>(Hash::CompositeCip22, COMPAT, b"ULforxof", &i.message, &i.extra).unwrap().1 as u8;
    let limbs = |v: &Fq| v.into_repr().as_ref().to_vec();
    let bits = |x: &Fq| bits_of(&oracle::fq_bytes(x))[..377].to_vec();
    let x = oracle::fq_masked(&i.xof()[..48]).unwrap();
    let r = run_traced::<Fq, _>(|cs| circuit(&i, cs));
    let one = limbs(&Fq::from(1u64));
    let at: Vec<usize> = (0..r.trace.len().saturating_sub(2)).filter(|k| r.trace[*k] == limbs(&x) && r.trace[k + 2] == one).collect();
    let b0 = bits(&x);
    let runs: Vec<usize> = (0..(r.trace.len() + 1).saturating_sub(377)).filter(|s| (0..377).all(|k| r.bools[s + k] && (r.trace[s + k][0] == 1) == b0[k])).collect();
    let start = c.u8();
    let mut found = None;
    for d in 0..=255u8 {
        i.counter = start.wrapping_add(d);
        let b = bits_of(&i.xof()[..48])[..377].to_vec();
        if oracle::fq_masked(&i.xof()[..48]).is_some() { continue; }
        // less the modulus, by way of the representative of the top bit
        let mut rest = b.clone();
        rest[376] = false;
        let low: Vec<u8> = (0..48).map(|j| (0..8).map(|k| (8 * j + k < 377 && rest[8 * j + k]) as u8 * (1 << k)).sum()).collect();
        let mut top = Fq::from(1u64);
        for _ in 0..376 { top = top + top; }
        let x2 = oracle::fq(&low).unwrap() + top;
        if let Some(p) = ark_bls12_377::G1Affine::get_point_from_x(x2, c.bool()) { found = Some((b, p)); break; }
    }
    let (b, q) = match found { Some(f) => f, None => return Ok(()) };
    c.log(i.show());
    if at.is_empty() || runs.is_empty() { c.label("no decomposed point among the witnesses"); return Ok(()); }
    c.nontrivial_here();
    let now = bits(&q.x);
    for k in at { for s in &runs { for y in &[q.y, -q.y] {
        let mut p = Plan { at: vec![(k, How::Set(limbs(&q.x))), (k + 1, How::Set(limbs(y))), (k + 2, How::Set(one.clone()))] };
        for j in 0..377 { if now[j] != b[j] { p.at.push((s + j, How::Flip)); } }
        let t = run::<Fq, _>(Some(p.clone()), |cs| circuit(&i, cs));
        if t.applied > 0 { c.label("number reduced"); }
        ensure!(!t.sat, "reduced-point", "a prover gets a point accepted whose x is the number that the hash dictates less the modulus: {}", shown(&p));
    } } }
    Ok(())
}
pub fn to_bits(c: &mut Case) -> Outcome {
    let n = c.len_near(&[32, 64, 1, 97], 150).max(1);
    let msg = c.bytes(n);
    let blocks = match c.weighted(&[4, 3, 1]) { 0 => 2, 1 => c.size(1, 5), _ => c.size(1, 40) };
    let len = 256 * blocks as u16;
    let constrained = c.chance(2, 3);
    let mut pers = [0u8; 8];
    match c.weighted(&[1, 3]) { 0 => pers.copy_from_slice(b"ULforxof"), _ => pers.copy_from_slice(&c.bytes(8)) }
    let m = mode(c);
    let fs = forms(c, 8 * msg.len());
    c.log(format!("hash_to_bits message={} length={} personalization={} constraints={}", hexs(&msg), len, pbt::hex(&pers), constrained));
    c.nontrivial_here();
    let f = |cs: Cs| {
        let s = cs.is_in_setup_mode();
        let b = bits_of(&msg).into_iter().zip(&fs).map(|(b, f)| bit(&cs, b, m, *f)).collect::<Result<Vec<_>, _>>()?;
        inputs_done();
        let o = hash_to_bits(&b, len, pers, constrained)?;
        if s { return Ok((o.len(), vec![])); }
        Ok((o.len(), values(&o)?))
    };
    let r = run::<Fq, _>(None, f);
    match &r.out {
        Err(e) => return fail("to-bits-error", e.clone()),
        Ok(o) => {
            ensure!(o.0 == len as usize, "to-bits-length", "{} bits instead of {} (constraints: {})", o.0, len, constrained);
            ensure!(o.1 == bits_of(&b2::xof(&pers, &msg, len as usize / 8)), "to-bits", "the bits differ from the expansion");
        }
    }
    ensure!(r.sat, "to-bits-unsatisfied", "an honest witness does not satisfy the constraints");
    match setup::<Fq, _>(f) { Ok(s) => { ensure!(s == r.shape, "to-bits-shape", "the constraints at key generation differ from those at proving"); } Err(e) => return fail("to-bits-setup", e) }
    Ok(())
}
pub fn shape(c: &mut Case) -> Outcome {
    let i = input(c);
    if i.em == AllocationMode::Constant || i.cm == AllocationMode::Constant || i.expect().is_none() { return Ok(()); }
    let m2 = c.bytes(i.message.len());
    let e2 = c.bytes(i.extra.len());
    let k2 = oracle::hash_to_curve::<g1::Parameters>(Hash::CompositeCip22, COMPAT, b"ULforxof", &m2, &e2).unwrap().1 as u8;
    let j = In { cm: i.cm, forms: i.forms.clone(), cforms: i.cforms.clone(), counter: k2, message: m2, extra: e2, constrained: i.constrained, mm: i.mm, em: i.em };
    c.log(i.show());
    c.nontrivial_here();
    let (a, b) = (run::<Fq, _>(None, |cs| circuit(&i, cs)), run::<Fq, _>(None, |cs| circuit(&j, cs)));
    ensure!(a.shape == b.shape, "hash-shape", "the constraints depend on the values");
    match setup::<Fq, _>(|cs| circuit(&i, cs)) { Ok(s) => { ensure!(s == a.shape, "hash-shape", "the constraints at key generation differ from those at proving"); } Err(e) => return fail("hash-setup", e) }
    Ok(())
}
