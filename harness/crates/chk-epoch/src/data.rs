//! C17: one epoch in a circuit: its encoding, its numbers, its hash and its place in the sequence.
use crate::enc::{self, Blk};
use ark_bls12_377::{G2Affine, Bls12_377, Fq, Fq2, Fr as Scalar, G1Projective, G2Projective};
use ark_ec::{AffineCurve, ProjectiveCurve};
use ark_ff::{Field, One, PrimeField, Zero};
use ark_r1cs_std::alloc::AllocVar;
use ark_r1cs_std::boolean::Boolean;
use ark_r1cs_std::fields::fp::FpVar;
use ark_r1cs_std::R1CSVar;
use ark_relations::r1cs::{ConstraintSystemRef, SynthesisError};
use circ::*;
use epoch_snark::EpochData;
use oracle::Hash;
use pbt::{blake2s_ref as b2, ensure, fail, Case, Outcome};
type Cs = ConstraintSystemRef<Fq>;

pub fn data(b: &Blk) -> EpochData<Bls12_377> {
    EpochData { index: Some(b.index), round: Some(b.round), epoch_entropy: b.ee.clone(), parent_entropy: b.pe.clone(), maximum_non_signers: b.mns, public_keys: b.keys.iter().map(|k| Some(*k)).collect() }
}
fn values(b: &[Boolean<Fq>]) -> Result<Vec<bool>, SynthesisError> { b.iter().map(|b| b.value()).collect() }
pub struct Out { index: Fq, ee: Fq, pe: Fq, mns: Fq, keys: Vec<G2Projective>, first: Vec<bool>, last: Vec<bool>, inner: Option<(Vec<bool>, Vec<bool>)>, hash: Option<(G1Projective, Vec<bool>, Vec<bool>)> }
/// without a previous index: the encoding only
struct In { b: Blk, previous: Option<Fq>, constrained: bool }
fn circuit(i: &In, cs: Cs) -> Result<Option<Out>, SynthesisError> {
    let setup = cs.is_in_setup_mode();
    let d = if setup { EpochData::empty(i.b.keys.len(), i.b.mns as usize) } else { data(&i.b) };
    match &i.previous {
        None => {
            inputs_done();
            let (inner, extra, first, last, index, ee, pe, mns, keys) = d.to_bits(cs)?;
            if setup { return Ok(None); }
            Ok(Some(Out { index: index.value()?, ee: ee.value()?, pe: pe.value()?, mns: mns.value()?, keys: keys.iter().map(|k| k.value()).collect::<Result<_, _>>()?, first: values(&first)?, last: values(&last)?, inner: Some((values(&inner)?, values(&extra)?)), hash: None }))
        }
        Some(p) => {
            let prev = FpVar::new_witness(cs, || if setup { Err(SynthesisError::AssignmentMissing) } else { Ok(*p) })?;
            inputs_done();
            let o = d.constrain(&prev, i.constrained)?;
            if setup { return Ok(None); }
            Ok(Some(Out { index: o.index.value()?, ee: o.epoch_entropy.value()?, pe: o.parent_entropy.value()?, mns: o.maximum_non_signers.value()?, keys: o.pubkeys.iter().map(|k| k.value()).collect::<Result<_, _>>()?,
                first: values(&o.combined_first_epoch_bits)?, last: values(&o.combined_last_epoch_bits)?, inner: None, hash: Some((o.message_hash.value()?, values(&o.crh_bits)?, values(&o.xof_bits)?)) }))
        }
    }
}
fn of_bytes(e: &Option<Vec<u8>>) -> Fq { match e { None => Fq::zero(), Some(e) => oracle::fq(&[&e[..], &[0; 32]].concat()).unwrap() } }
fn bytes_bits(b: &[u8]) -> Vec<bool> { b.iter().flat_map(|x| (0..8).map(move |i| x >> i & 1 == 1)).collect() }
/// the low n bits of a field element that has no others
fn small(x: &Fq, n: usize) -> Option<u128> {
    let b = oracle::fq_bytes(x);
    let mut v = [0u8; 16];
    v[..n / 8].copy_from_slice(&b[..n / 8]);
    if b[n / 8..].iter().any(|b| *b != 0) { None } else { Some(u128::from_le_bytes(v)) }
}
fn first_difference(a: &[bool], b: &[bool]) -> String { format!("{} bits instead of {}, first difference at {:?}", a.len(), b.len(), a.iter().zip(b).position(|(x, y)| x != y)) }
/// what the gadget returned is what the block says
fn agrees(o: &Out, b: &Blk) -> Outcome {
    ensure!(o.index == Fq::from(b.index as u64), "value-index", "the index is another one");
    ensure!(o.mns == Fq::from(b.mns as u64), "value-non-signers", "the number of non-signers is another one");
    ensure!(o.ee == of_bytes(&b.ee), "value-entropy", "the entropy is another one");
    ensure!(o.pe == of_bytes(&b.pe), "value-parent-entropy", "the parent entropy is another one");
    ensure!(o.keys == b.keys, "value-keys", "the keys are others");
    let n = b.keys.len();
    let b = &Blk { max: n, ..b.clone() };
    ensure!(o.first == b.first(), "first-bits", "{}", first_difference(&o.first, &b.first()));
    ensure!(o.last == b.last(), "last-bits", "{}", first_difference(&o.last, &b.last()));
    if let Some((inner, extra)) = &o.inner {
        ensure!(*inner == b.inner(), "inner-bits", "{}", first_difference(inner, &b.inner()));
        ensure!(*extra == b.extra(), "extra-bits", "{}", first_difference(extra, &b.extra()));
    }
    if let Some((p, crh, xof)) = &o.hash {
        let (m, x) = (enc::to_bytes(&b.inner()), enc::to_bytes(&b.extra()));
        let (h, counter) = oracle::hash_to_curve::<ark_bls12_377::g1::Parameters>(Hash::CompositeCip22, true, b"ULforxof", &m, &x).unwrap();
        let d = oracle::bh_crh(&m);
        ensure!(*p == h, "message-hash", "the point is not the hash of the block");
        ensure!(*crh == bytes_bits(&d), "crh-bits", "{}", first_difference(crh, &bytes_bits(&d)));
        let e = bytes_bits(&b2::xof(b"ULforxof", &[&[counter as u8], &x[..], &d[..]].concat(), 64));
        ensure!(*xof == e, "xof-bits", "{}", first_difference(xof, &e));
    }
    Ok(())
}
/// after a lie: the numbers are in range and everything is the encoding of a block with those numbers and keys
fn consistent(o: &Out, plan: &Plan) -> Outcome {
    let big = |what: &str| fail("out-of-range", format!("a lying prover gets {} accepted that its bits do not encode: {}", what, shown(plan)));
    let index = match small(&o.index, 16) { Some(v) => v as u16, None => return big("an index") };
    let mns = match small(&o.mns, 32) { Some(v) => v as u32, None => return big("a number of non-signers") };
    let ee = match small(&o.ee, 128) { Some(v) => v.to_le_bytes().to_vec(), None => return big("an entropy") };
    let pe = match small(&o.pe, 128) { Some(v) => v.to_le_bytes().to_vec(), None => return big("a parent entropy") };
    let mut b = Blk { index, round: 0, ee: Some(ee), pe: Some(pe), mns, max: o.keys.len(), keys: o.keys.clone() };
    let lie = |sig: &'static str, what: &str| fail(sig, format!("a lying prover gets {} accepted: {}", what, shown(plan)));
    if o.first != b.first() || o.last != b.last() { return lie("edge-unsound", "encodings of another block"); }
    if let Some((inner, extra)) = &o.inner {
        if *inner != b.inner() || extra.len() != 56 { return lie("inner-unsound", "another inner encoding"); }
        b.round = (0..8).map(|k| (extra[16 + k] as u8) << k).sum();
        if *extra != b.extra() { return lie("inner-unsound", "other extra data"); }
    }
    if let Some((p, _, xof)) = &o.hash {
        // the round is not returned; the expanded bits decide which one was hashed
        let m = enc::to_bytes(&b.inner());
        let d = oracle::bh_crh(&m);
        for round in 0..=255u8 {
            b.round = round;
            let x = enc::to_bytes(&b.extra());
            for counter in 0..=255u8 {
                let h = b2::xof(b"ULforxof", &[&[counter], &x[..], &d[..]].concat(), 64);
                if bytes_bits(&h) == *xof {
                    return match oracle::candidate::<ark_bls12_377::g1::Parameters>(&h, true) { Some(e) if e == *p => Ok(()), _ => lie("hash-unsound", "another point") };
                }
            }
        }
        return lie("hash-unsound", "the hash of another block");
    }
    Ok(())
}
fn block(c: &mut Case) -> Blk {
    let n = match c.weighted(&[3, 2]) { 0 => c.size(1, 2), _ => c.count(1, 5, 18) };
    block_of(c, n)
}
fn block_of(c: &mut Case, n: usize) -> Blk {
    let mut keys: Vec<G2Projective> = vec![];
    for i in 0..n {
        let k = match c.weighted(&[6, 1, 1, 1]) {
            1 if i > 0 => keys[c.size(0, i - 1)],
            2 if i > 0 => { let k = keys[c.size(0, i - 1)]; if c.bool() { -k } else { oracle::smul(&k, &oracle::lambda()) } }
            3 => oracle::g2(),
            _ => enc::key(c),
        };
        keys.push(k);
    }
    Blk { index: enc::number(c, 16) as u16, round: enc::number(c, 8) as u8, ee: enc::entropy(c), pe: enc::entropy(c), mns: enc::number(c, 32) as u32, max: n, keys }
}
fn shape_ok(i: &In, s: Option<Shape>) -> Outcome {
    match setup::<Fq, _>(|cs| circuit(i, cs)) { Ok(t) => { ensure!(t == s, "shape", "the constraints at key generation differ from those at proving"); Ok(()) } Err(e) => fail("setup", e) }
}
/// as many validators as networks have, up to what the hash can take
pub fn large(c: &mut Case) -> Outcome {
    let n = match c.weighted(&[4, 2, 1]) { 0 => c.size(19, 60), 1 => c.size(61, 140), _ => *c.pick(&[64usize, 100, 110, 128, 150, 200]) };
    let b = block_of(c, n);
    c.label(if n >= 100 { "100 keys or more" } else { "fewer than 100 keys" });
    let hashed = c.bool();
    let i = if hashed { In { previous: Some(Fq::from(b.index as u64) - Fq::one()), b, constrained: c.chance(3, 4) } } else { In { b, previous: None, constrained: true } };
    c.log(format!("{} keys, hashed: {}, {}", n, hashed, i.b.show()));
    c.nontrivial_here();
    let r = run::<Fq, _>(None, |cs| circuit(&i, cs));
    match &r.out { Err(e) => return fail("error", e.clone()), Ok(o) => agrees(o.as_ref().unwrap(), &i.b)? }
    ensure!(r.sat, "unsatisfied", "an honest witness does not satisfy the constraints");
    if c.chance(1, 4) { shape_ok(&i, r.shape)?; }
    Ok(())
}
pub fn bits(c: &mut Case) -> Outcome {
    let i = In { b: block(c), previous: None, constrained: true };
    c.log(i.b.show());
    c.nontrivial_here();
    if i.b.ee.is_none() || i.b.pe.is_none() { c.label("an entropy is missing"); }
    let r = run::<Fq, _>(None, |cs| circuit(&i, cs));
    match &r.out { Err(e) => return fail("error", e.clone()), Ok(o) => agrees(o.as_ref().unwrap(), &i.b)? }
    ensure!(r.sat, "unsatisfied", "an honest witness does not satisfy the constraints");
    shape_ok(&i, r.shape)
}
/// A history of blocks that differ in little, each in a circuit of its own.
pub fn related(c: &mut Case) -> Outcome {
    let mut b = block(c);
    b.keys.truncate(3);
    c.log(b.show());
    c.nontrivial_here();
    for k in 0..c.size(2, 3) {
        if k > 0 { let w = enc::relate(c, &mut b); c.log(w); }
        b.keys.retain(|k| !k.is_zero());
        if b.keys.is_empty() { b.keys.push(oracle::g2()); }
        let hashed = c.chance(1, 3);
        let i = In { b: b.clone(), previous: if hashed { Some(Fq::from(b.index as u64) - Fq::one()) } else { None }, constrained: true };
        let r = run::<Fq, _>(None, |cs| circuit(&i, cs));
        match &r.out { Err(e) => return fail("related-error", e.clone()), Ok(o) => agrees(o.as_ref().unwrap(), &i.b)? }
        ensure!(r.sat, "related-unsatisfied", "an honest witness does not satisfy the constraints");
    }
    Ok(())
}
pub fn next(c: &mut Case) -> Outcome {
    let mut b = block(c);
    let p = match c.weighted(&[6, 1, 1, 2, 1]) {
        0 => Fq::from(b.index as u64) - Fq::one(),
        1 => Fq::from(b.index as u64),
        2 => Fq::from(b.index as u64) + Fq::one(),
        3 => { b.index = 0; Fq::from(c.u16() as u64) }
        _ => Fq::from(enc::number(c, 16)),
    };
    let i = In { b, previous: Some(p), constrained: c.chance(3, 4) };
    let holds = i.b.index == 0 || p + Fq::one() == Fq::from(i.b.index as u64);
    c.log(format!("previous index {:?}: {}", small(&p, 16), i.b.show()));
    c.label(match (i.b.index, holds) { (0, _) => "dummy", (_, true) => "next epoch", _ => "not the next epoch" });
    c.nontrivial_here();
    let r = run::<Fq, _>(None, |cs| circuit(&i, cs));
    match &r.out { Err(e) => return fail("error", e.clone()), Ok(o) => agrees(o.as_ref().unwrap(), &i.b)? }
    ensure!(r.sat == holds, if holds { "next-unsatisfied" } else { "next-accepted" }, "index {} after {:?} is {}", i.b.index, small(&p, 16), if holds { "refused" } else { "accepted" });
    if c.chance(1, 8) { shape_ok(&i, r.shape)?; }
    Ok(())
}
fn attack_with(c: &mut Case, i: &In) -> Outcome {
    let r = run::<Fq, _>(None, |cs| circuit(i, cs));
    if r.out.is_err() || r.count <= r.first { return Ok(()); }
    c.nontrivial_here();
    for _ in 0..3 {
        let mut p = lies_in(c, &r);
        // the number that the index has to be, replaced by what it is
        if let Some(q) = i.previous { if c.chance(1, 3) { let limbs = |v: &Fq| v.into_repr().as_ref().to_vec(); p = replaced(c, &r.trace, r.first, &[(vec![limbs(&(q + Fq::one()))], vec![limbs(&Fq::from(i.b.index as u64))])]); } }
        let t = run::<Fq, _>(Some(p.clone()), |cs| circuit(i, cs));
        if t.applied > 0 { c.label("lie told"); }
        if t.sat {
            c.label("lie accepted: another statement");
            let o = t.out.ok().unwrap().unwrap();
            consistent(&o, &p)?;
            if let Some(p0) = i.previous { ensure!(o.index.is_zero() || o.index == p0 + Fq::one(), "next-unsound", "a lying prover gets an index accepted that does not follow: {}", shown(&p)); }
        }
    }
    Ok(())
}
pub fn attack(c: &mut Case) -> Outcome {
    let mut b = block(c);
    b.keys.truncate(2);
    let i = In { b, previous: None, constrained: true };
    c.log(i.b.show());
    attack_with(c, &i)
}
pub fn attack_next(c: &mut Case) -> Outcome {
    let mut b = block(c);
    b.keys.truncate(2);
    let p = if c.chance(1, 2) { Fq::from(b.index as u64) - Fq::one() } else { Fq::from(enc::number(c, 16)) };
    let i = In { b, previous: Some(p), constrained: true };
    c.log(i.b.show());
    attack_with(c, &i)
}
/// The prover keeps the x coordinates of a key and picks y and z for another point of the curve.
pub fn projective(c: &mut Case) -> Outcome {
    let mut b = block(c);
    b.keys.truncate(2);
    for k in b.keys.iter_mut() { *k = k.into_affine().into_projective(); }
    let i = In { b, previous: None, constrained: true };
    let j = c.size(0, i.b.keys.len() - 1);
    let q = oracle::smul(&oracle::g2(), &{ let s: Scalar = oracle::random_scalar(c); s }).into_affine();
    let k = i.b.keys[j].into_affine();
    c.log(format!("key {} replaced by another point: {}", j, i.b.show()));
    let limbs = |v: &Fq| v.into_repr().as_ref().to_vec();
    let r = run_traced::<Fq, _>(|cs| circuit(&i, cs));
    let at: Vec<usize> = find(&r.trace, &[limbs(&k.x.c0), limbs(&k.x.c1), limbs(&k.y.c0), limbs(&k.y.c1), limbs(&Fq::one()), limbs(&Fq::zero())]);
    if at.is_empty() { c.label("no projective point among the witnesses"); return Ok(()); }
    c.nontrivial_here();
    for a in at {
        // homogeneous coordinates (x : y : z), with the point x / z, y / z; z in general, or with one coordinate as it should be
        let kind = c.below(3);
        let mut found = (q.x, q.y);
        for _ in 0..40 {
            if kind == 0 { break; }
            let t = Fq::from(2 + c.below(1 << 30));
            let z = if kind == 1 { Fq2::new(Fq::one(), t) } else { Fq2::new(t, Fq::zero()) };
            if let Some(p) = G2Affine::get_point_from_x(k.x * z.inverse().unwrap(), c.bool()) { found = (p.x, p.y); c.label("z partly right"); break; }
        }
        let z: Fq2 = k.x * found.0.inverse().unwrap();
        let mut y = found.1 * z;
        use oracle::Sign;
        if y.high() != k.y.high() { y = -y; }
        for (yy, zz) in [(y, z), (y * Fq2::from(2u64), z), (k.y, z), (k.y, Fq2::zero())] {
            let p = Plan { at: vec![(a + 2, How::Set(limbs(&yy.c0))), (a + 3, How::Set(limbs(&yy.c1))), (a + 4, How::Set(limbs(&zz.c0))), (a + 5, How::Set(limbs(&zz.c1)))] };
            let t = run::<Fq, _>(Some(p.clone()), |cs| circuit(&i, cs));
            if t.sat { if let Ok(Some(o)) = &t.out { if o.keys == i.b.keys { continue; } }
                return fail("projective-key", format!("a prover gets another key accepted for the same encoding, by another z coordinate: {}", shown(&p))); }
        }
    }
    Ok(())
}
