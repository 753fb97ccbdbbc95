//! C18: the circuit for a history of validator sets, and the histories used by C19.
use crate::data::data;
use crate::enc::{self, Blk};
use ark_bls12_377::{Bls12_377, Fq, Fr, FqParameters, G1Projective};
use ark_ec::ProjectiveCurve;
use ark_ff::{Field, One, PrimeField, Zero};
use ark_relations::r1cs::{ConstraintSynthesizer, ConstraintSystemRef, SynthesisError};
use circ::*;
use epoch_snark::{pack, SingleUpdate, ValidatorSetUpdate};
use oracle::{nonzero_scalar, random_scalar, smul};
use pbt::{ensure, fail, Case, Outcome};
type Cs = ConstraintSystemRef<Fq>;

#[derive(Clone)]
pub struct Epoch { pub b: Blk, pub ks: Vec<Fr>, pub bits: Vec<bool> }
impl Epoch { pub fn dummy(&self) -> bool { self.b.index == 0 } }
#[derive(Clone)]
pub struct History { pub first: Epoch, pub epochs: Vec<Epoch>, pub sig: G1Projective }
impl History {
    pub fn n(&self) -> usize { self.first.ks.len() }
    /// for every epoch the keys, limit, index and entropy that it builds on
    pub fn before(&self) -> Vec<&Epoch> {
        let mut p = &self.first;
        self.epochs.iter().map(|e| { let q = p; if !e.dummy() { p = e; } q }).collect()
    }
    fn aggregate(p: &Epoch, e: &Epoch) -> Fr { let mut a = Fr::zero(); for (k, b) in p.ks.iter().zip(&e.bits) { if *b { a += k; } } a }
    /// what each epoch contributes to the signature
    pub fn parts(&self) -> Vec<G1Projective> { self.before().iter().zip(&self.epochs).map(|(p, e)| if e.dummy() { oracle::g1() } else { smul(&e.b.hash(), &Self::aggregate(p, e)) }).collect() }
    pub fn signature(&self) -> G1Projective { self.parts().iter().fold(G1Projective::zero(), |a, p| a + p) }
    pub fn last(&self) -> &Epoch { self.before(); self.epochs.iter().rev().find(|e| !e.dummy()).unwrap_or(&self.first) }
    /// the pairing gadget of the library does not define the identity
    pub fn identities(&self) -> bool {
        self.sig.is_zero() || self.before().iter().zip(&self.epochs).any(|(p, e)| !e.dummy() && Self::aggregate(p, e).is_zero()) || self.last().ks.iter().fold(Fr::zero(), |a, k| a + k).is_zero()
    }
    /// why the history is not one to accept
    pub fn fault(&self) -> Option<&'static str> {
        let chained = self.first.b.ee.as_ref().map_or(false, |e| e.iter().any(|b| *b != 0));
        let z = |e: &Option<Vec<u8>>| e.clone().unwrap_or(vec![0; 16]);
        for (p, e) in self.before().iter().zip(&self.epochs) {
            if !e.dummy() && e.b.index as u32 != p.b.index as u32 + 1 { return Some("index"); }
            if !e.dummy() && chained && z(&e.b.pe) != z(&p.b.ee) { return Some("entropy"); }
            if e.bits.iter().filter(|b| !**b).count() as u64 > p.b.mns as u64 { return Some("non-signers"); }
            if p.ks.iter().zip(&e.bits).any(|(k, b)| *b && k.is_one()) { return Some("padding key signs"); }
        }
        if self.epochs.last().unwrap().dummy() { return Some("last is a dummy"); }
        if self.signature() != self.sig { return Some("signature"); }
        None
    }
    pub fn inputs(&self) -> Vec<Fq> { pack::<Fq, FqParameters>(&enc::first_last(&self.first.b, &self.epochs.last().unwrap().b)).unwrap() }
    pub fn show(&self) -> String {
        let ks = |e: &Epoch| e.ks.iter().map(|k| if k.is_one() { "padding".to_string() } else { pbt::hex(&oracle::fr_bytes(k)[..4]) }).collect::<Vec<_>>().join(",");
        let bl = |e: &Epoch| format!("index={} round={} entropy={} parent={} limit={} keys=[{}]", e.b.index, e.b.round, e.b.ee.as_ref().map_or("none".into(), |e| pbt::hex(&e[..4])), e.b.pe.as_ref().map_or("none".into(), |e| pbt::hex(&e[..4])), e.b.mns, ks(e));
        format!("initial {}; {}", bl(&self.first), self.epochs.iter().map(|e| format!("{} signed={}", bl(e), e.bits.iter().map(|b| if *b { '1' } else { '0' }).collect::<String>())).collect::<Vec<_>>().join("; "))
    }
    pub fn circuit(&self, cs: Cs) -> Result<(), SynthesisError> {
        if cs.is_in_setup_mode() { return ValidatorSetUpdate::<Bls12_377>::empty(self.n(), self.epochs.len(), self.first.b.mns as usize, None).generate_constraints(cs); }
        ValidatorSetUpdate::<Bls12_377> { initial_epoch: data(&self.first.b), num_validators: self.n() as u32,
            epochs: self.epochs.iter().map(|e| SingleUpdate { epoch_data: data(&e.b), signed_bitmap: e.bits.iter().map(|b| Some(*b)).collect() }).collect(),
            aggregated_signature: Some(self.sig), hash_helper: None }.generate_constraints(cs)
    }
}
fn epoch(c: &mut Case, n: usize, index: u16, pe: Option<Vec<u8>>, random: bool, padding: bool) -> Epoch {
    // leave one real key, or most of the histories would have no signer
    let real = c.size(0, n - 1);
    let mut ks = vec![];
    for i in 0..n {
        let k = if random { random_scalar(c) } else { match c.weighted(&[6, 1, 2]) { 1 if i > 0 => ks[c.size(0, i - 1)], 2 if i != real && padding => Fr::one(), _ => nonzero_scalar(c) } };
        ks.push(if (random || i == real) && k.is_one() { Fr::from(5u64) } else { k });
    }
    let keys = enc::fr_keys(&ks);
    let ee = if c.chance(1, 10) { None } else { Some(c.bytes(16)) };
    let mns = match c.weighted(&[5, 1, 1]) { 0 => c.below(n as u64 + 1) as u32, 1 => u32::MAX - c.below(2) as u32, _ => enc::number(c, 32) as u32 };
    Epoch { b: Blk { index, round: c.u8(), ee, pe, mns, max: n, keys }, ks, bits: vec![] }
}
/// signers as the limit of the previous epoch allows, with the padding keys among the silent ones if possible
fn signers(c: &mut Case, p: &Epoch, dummy: bool) -> Vec<bool> {
    let n = p.ks.len();
    let mut bits: Vec<bool> = p.ks.iter().map(|k| !k.is_one()).collect();
    let mut silent = bits.iter().filter(|b| !**b).count() as u64;
    if !dummy { for i in c.permutation(n) { if bits[i] && silent < p.b.mns as u64 && bits.iter().filter(|b| **b).count() > 1 && c.bool() { bits[i] = false; silent += 1; } } }
    bits
}
/// a history that is mostly acceptable
pub fn history(c: &mut Case, n: usize, count: usize, dummies: bool, random: bool) -> History {
    let padding = c.chance(1, 3);
    let start = match c.weighted(&[4, 1, 1]) { 0 => c.below(200) as u16, 1 => 0, _ => enc::number(c, 16) as u16 };
    let start = start.min(u16::MAX - 16);
    let pe = enc::entropy(c);
    let mut first = epoch(c, n, start, pe, random, padding);
    if c.chance(1, 4) { first.b.ee = None; }
    fix_limit(c, &mut first);
    let mut epochs: Vec<Epoch> = vec![];
    let mut p = first.clone();
    for k in 0..count {
        let dummy = dummies && k + 1 < count && c.chance(1, 3);
        let pe = if dummy { enc::entropy(c) } else if first.b.ee.is_none() && c.bool() { enc::entropy(c) } else { p.b.ee.clone() };
        let mut e = epoch(c, n, if dummy { 0 } else { p.b.index + 1 }, pe, random, padding);
        // validator sets change little from one epoch to the next
        if !random && k > 0 && c.chance(1, 2) || k == 0 && !random && c.chance(1, 3) {
            e.ks = p.ks.clone();
            if c.bool() { e.b.mns = p.b.mns; e.b.ee = p.b.ee.clone(); e.b.round = p.b.round; }
            match c.below(7) {
                0 => { let i = c.size(0, n - 1); e.ks[i] = -e.ks[i]; }
                1 => for k in e.ks.iter_mut() { *k = -*k; },
                2 => { let i = c.size(0, n - 1); e.ks[i] = nonzero_scalar(c); if e.ks[i].is_one() { e.ks[i] = Fr::from(5u64); } }
                3 => e.ks.rotate_left(1),
                4 => { let (i, j) = (c.size(0, n - 1), c.size(0, n - 1)); e.ks.swap(i, j); }
                5 => { let i = c.size(0, n - 1); e.ks[i] = oracle::lambda() * e.ks[i]; }
                _ => {}
            }
            if e.ks.iter().all(|k| k.is_one()) { e.ks[0] = Fr::from(5u64); }
            e.b.keys = enc::fr_keys(&e.ks);
            if !dummy { c.label("set like the one before"); }
        }
        e.bits = signers(c, &p, dummy);
        if !dummy { fix_limit(c, &mut e); p = e.clone(); }
        epochs.push(e);
    }
    let mut h = History { first, epochs, sig: G1Projective::zero() };
    h.sig = h.signature();
    h
}
/// allow the padding keys not to sign
fn fix_limit(c: &mut Case, e: &mut Epoch) { let z = e.ks.iter().filter(|k| k.is_one()).count() as u32; if e.b.mns < z && !c.chance(1, 8) { e.b.mns = z; } }
/// one change; the result is usually not acceptable any more
pub fn spoil(c: &mut Case, h: &mut History) -> &'static str {
    let n = h.n();
    let m = h.epochs.len();
    let k = c.size(0, m - 1);
    let resign = |h: &mut History| h.sig = h.signature();
    match c.below(12) {
        0 => { h.epochs[k].b.index = match c.below(4) { 0 => h.epochs[k].b.index.wrapping_add(1), 1 => h.epochs[k].b.index.wrapping_sub(1), 2 => h.first.b.index, _ => c.u16() }; resign(h); "index changed" }
        1 => { let mut e = h.epochs[k].b.pe.clone().unwrap_or(vec![0; 16]); e[c.size(0, 15)] ^= 1 << c.below(8); h.epochs[k].b.pe = if c.chance(1, 4) { None } else { Some(e) }; resign(h); "parent entropy changed" }
        2 => { let i = c.size(0, n - 1); h.epochs[k].bits[i] ^= true; resign(h); "another signer set, signed" }
        3 => { let i = c.size(0, n - 1); h.epochs[k].bits[i] ^= true; "another signer set, not signed" }
        4 => { let z = h.epochs[k].bits.iter().filter(|b| !**b).count() as u32; let q = if k == 0 { &mut h.first } else { &mut h.epochs[k - 1] }; q.b.mns = if c.bool() { z } else { z.saturating_sub(1) }; resign(h); "limit at the number of non-signers" }
        5 => { let s = nonzero_scalar(c); h.sig += smul(&oracle::g1(), &s); "signature off by a point" }
        6 => { let p = h.parts()[k]; h.sig -= p; "signature of one epoch missing" }
        7 => { let e = h.epochs[k].clone(); let mut a = Fr::zero(); for (s, b) in e.ks.iter().zip(&e.bits) { if *b { a += s; } } let p = h.parts()[k]; h.sig = h.sig - p + smul(&e.b.hash(), &a); "signed by the new validators" }
        8 => { for e in h.epochs.iter_mut() { if e.bits.len() == n { for b in e.bits.iter_mut() { *b = true; } } } resign(h); "everybody signs" }
        9 => { h.epochs[m - 1].b.index = 0; resign(h); "last epoch is a dummy" }
        10 => { let j = c.size(0, m - 1); h.epochs.swap(j, k); resign(h); "epochs exchanged" }
        _ => { let e = &mut h.epochs[k]; e.b.round ^= 1; "signed with another round" }
    }
}
pub fn some(c: &mut Case) -> History {
    let n = match c.weighted(&[3, 1]) { 0 => c.size(1, 3), _ => 4 };
    let m = match c.weighted(&[3, 2, 2, 1]) { 0 => 1, 1 => 2, 2 => 3, _ => 4 };
    history(c, n, m, true, false)
}
fn label(c: &mut Case, h: &History) -> Option<&'static str> {
    let f = h.fault();
    c.label(match f { None => "acceptable", Some("index") => "index out of sequence", Some("entropy") => "entropy not chained", Some("non-signers") => "too many non-signers", Some("padding key signs") => "padding key signs", Some("last is a dummy") => "last is a dummy", _ => "wrong signature" });
    if h.epochs.iter().any(|e| e.dummy()) { c.label("with a dummy"); }
    if f.is_none() && h.before().iter().any(|p| p.ks.iter().any(|k| k.is_one())) { c.label("acceptable with padding keys"); }
    f
}
pub fn verdict(c: &mut Case) -> Outcome {
    let h = some(c);
    judge(c, h)
}
/// more validators and more epochs
pub fn large(c: &mut Case) -> Outcome {
    let (n, m) = match c.weighted(&[3, 2, 1]) { 0 => (c.size(5, 20), c.size(1, 2)), 1 => (c.size(1, 2), c.size(5, 12)), _ => (c.size(21, 110), 1) };
    let h = history(c, n, m, true, false);
    c.label(if n > 20 { "more than 20 validators" } else if n > 4 { "5 to 20 validators" } else { "5 to 12 epochs" });
    judge(c, h)
}
fn judge(c: &mut Case, mut h: History) -> Outcome {
    let mut what = vec![];
    for _ in 0..c.weighted(&[2, 3, 1]) { what.push(spoil(c, &mut h)); }
    if h.identities() { return Ok(()); }
    let f = label(c, &h);
    c.log(format!("{} [{}]", h.show(), what.join(", ")));
    c.nontrivial_here();
    let r = run::<Fq, _>(None, |cs| h.circuit(cs));
    if f.is_none() { if let Err(e) = &r.out { return fail("error", e.clone()); } }
    match f {
        None => { ensure!(r.sat, "refused", "an acceptable history does not satisfy the constraints"); ensure!(r.inputs == h.inputs(), "public-inputs", "the public inputs are not the packed hash of the first and the last block"); }
        Some(w) => ensure!(!r.sat, "accepted", "a history is accepted in spite of: {}", w),
    }
    if r.out.is_ok() && c.chance(1, 4) { match setup::<Fq, _>(|cs| h.circuit(cs)) { Ok(s) => ensure!(s == r.shape, "shape", "the constraints at key generation differ from those at proving"), Err(e) => return fail("setup", e) } }
    Ok(())
}
/// an acceptable history does not prove another statement
pub fn statement(c: &mut Case) -> Outcome {
    let h = some(c);
    if h.identities() || h.fault().is_some() { return Ok(()); }
    c.log(h.show());
    c.nontrivial_here();
    let good = h.inputs();
    let limbs = |v: &Fq| v.into_repr().as_ref().to_vec();
    // honest with the right inputs put in by hand
    let t = run_inputs::<Fq, _>(None, good.iter().map(limbs).map(How::Set).enumerate().collect(), |cs| h.circuit(cs));
    ensure!(t.sat, "refused", "an acceptable history does not satisfy the constraints");
    let (mut f, mut l) = (h.first.b.clone(), h.epochs.last().unwrap().b.clone());
    let k = c.size(0, h.n() - 1);
    let what = match c.below(9) {
        0 => { f.index = f.index.wrapping_add(1 + c.below(3) as u16); "first index" }
        1 => { f.mns ^= 1 << c.below(32); "first limit" }
        2 => { f.keys[k] = -f.keys[k]; "a first key negated" }
        3 => { f.keys[k] = enc::fr_keys(&[random_scalar(c)])[0]; "a first key" }
        4 => { l.index = l.index.wrapping_add(1 + c.below(3) as u16); "last index" }
        5 => { l.mns ^= 1 << c.below(32); "last limit" }
        6 => { l.keys[k] = enc::fr_keys(&[random_scalar(c)])[0]; "a last key" }
        7 => { let mut e = l.ee.clone().unwrap_or(vec![0; 16]); e[c.size(0, 15)] ^= 1 << c.below(8); l.ee = Some(e); "last entropy" }
        _ => { let mut e = f.pe.clone().unwrap_or(vec![0; 16]); e[c.size(0, 15)] ^= 1 << c.below(8); f.pe = Some(e); "first parent entropy" }
    };
    if l.apk().is_zero() { return Ok(()); }
    c.log(what);
    c.label(what);
    let other: Vec<Fq> = pack::<Fq, FqParameters>(&enc::first_last(&f, &l)).unwrap();
    let t = run_inputs::<Fq, _>(None, other.iter().map(limbs).map(How::Set).enumerate().collect(), |cs| h.circuit(cs));
    ensure!(!t.sat, "other-statement", "the history is accepted as a proof about other blocks: {} changed", what);
    Ok(())
}
/// A prover with an unacceptable history lies, with the public inputs of that history.
pub fn attack(c: &mut Case) -> Outcome {
    let n = c.size(1, 5);
    let m = c.size(1, 2);
    let mut h = history(c, n, m, true, true);
    // every kind of fault must be out of reach of a change of three private bits
    let k = c.size(0, m - 1);
    let what = match c.below(6) {
        0 => { let s = random_scalar(c); h.sig = smul(&oracle::g1(), &s); "random signature" }
        1 if !h.epochs[k].dummy() => { h.epochs[k].b.index = h.epochs[k].b.index.wrapping_add(2 + c.below(5) as u16).max(1); h.sig = h.signature(); "index skipped" }
        2 => { let p = h.parts()[m - 1]; h.sig -= p; "last signature missing" }
        3 if n >= 5 => {
            for b in h.epochs[0].bits.iter_mut() { *b = false; }
            h.epochs[0].bits[0] = true;
            h.first.b.mns = 0;
            h.sig = h.signature();
            "too many non-signers"
        }
        4 => { h.epochs[m - 1].b.index = 0; h.sig = h.signature(); "last epoch is a dummy" }
        _ if !h.epochs[m - 1].dummy() => { if h.first.b.ee.is_none() { h.first.b.ee = Some(c.random_bytes(16)); } let mut e = vec![0xa5; 16]; e[3] = c.u8(); h.epochs[m - 1].b.pe = Some(e); h.sig = h.signature(); "entropy not chained" }
        _ => { let s = random_scalar(c); h.sig = smul(&oracle::g1(), &s); "random signature" }
    };
    if h.identities() || h.fault().is_none() { return Ok(()); }
    c.log(format!("{} [{}]", h.show(), what));
    let r = run_traced::<Fq, _>(|cs| h.circuit(cs));
    if r.out.is_err() { return Ok(()); }
    c.label(what);
    c.nontrivial_here();
    let limbs = |v: &Fq| v.into_repr().as_ref().to_vec();
    let inputs: Vec<(usize, How)> = h.inputs().iter().map(limbs).map(How::Set).enumerate().collect();
    // The entropy of the first block is no part of the public statement (an old block may lack it), so a
    // prover is free to choose it.
    let number = |v: u64| limbs(&Fq::from(v));
    let entropy = |e: &Option<Vec<u8>>| limbs(&oracle::fq(&[&e.clone().unwrap_or(vec![0; 16])[..], &[0; 32]].concat()).unwrap());
    let of = |b: &Blk| { let k = &b.keys[0].into_affine(); vec![vec![number(b.index as u64)], vec![number(b.mns as u64)], vec![entropy(&b.ee)], vec![entropy(&b.pe)], vec![limbs(&k.x.c0)], vec![limbs(&k.y.c0), limbs(&k.y.c1), number(1)]] };
    let free = find(&r.trace, &[entropy(&h.first.b.ee)]).first().copied();
    let mut at: Vec<usize> = std::iter::once(&h.first).chain(&h.epochs).flat_map(|e| of(&e.b)).flat_map(|v| find(&r.trace, &v)).filter(|k| !r.bools[*k]).collect();
    at.sort();
    at.dedup();
    for _ in 0..2 {
        let mut p = lies_in(c, &r);
        if c.chance(2, 3) && !at.is_empty() { let n = c.size(1, 2); p = Plan { at: (0..n).map(|_| (*c.pick(&at), how(c))).collect() }; }
        p.at.retain(|(k, _)| Some(*k) != free);
        if p.at.is_empty() { continue; }
        let t = run_inputs::<Fq, _>(Some(p.clone()), inputs.clone(), |cs| h.circuit(cs));
        if t.applied > 0 { c.label("lie told"); }
        ensure!(!t.sat, "unsound", "a lying prover gets an unacceptable history accepted ({}): {}", what, shown(&p));
    }
    Ok(())
}
/// A prover with an acceptable history who lies about something it computes, and goes on honestly from there, public inputs
/// included: whatever is accepted is the statement of that history.
pub fn loose(c: &mut Case) -> Outcome {
    let (n, m) = match c.weighted(&[3, 3, 1, 1]) { 0 => (1, 1), 1 => (2, 1), 2 => (3, 1), _ => (c.size(1, 2), 2) };
    let h = history(c, n, m, true, true);
    if h.identities() || h.fault().is_some() { return Ok(()); }
    c.log(h.show());
    let r = run_traced::<Fq, _>(|cs| h.circuit(cs));
    if r.out.is_err() || !r.sat { return Ok(()); }
    c.nontrivial_here();
    let limbs = |v: &Fq| v.into_repr().as_ref().to_vec();
    // the first block is nothing that the history proves: with other data it is another acceptable history
    let f = &h.first.b;
    let bytes = |e: &Option<Vec<u8>>| limbs(&oracle::fq(&[&e.clone().unwrap_or(vec![0; 16])[..], &[0; 32]].concat()).unwrap());
    let own = vec![limbs(&Fq::from(f.index as u64)), limbs(&Fq::from(f.mns as u64)), bytes(&f.ee), bytes(&f.pe)];
    let fields: Vec<usize> = (r.first..r.count).filter(|k| !r.bools[*k] && !own.contains(&r.trace[*k])).collect();
    if fields.is_empty() { return Ok(()); }
    // witnesses with the value of some number of the last block
    let l = &h.epochs.last().unwrap().b;
    let (lk, zero) = (l.apk().into_affine(), limbs(&Fq::zero()));
    let numbers = vec![limbs(&Fq::from(l.index as u64)), limbs(&Fq::from(l.mns as u64)), bytes(&l.ee), limbs(&lk.x.c0), limbs(&lk.x.c1), limbs(&lk.y.c0), limbs(&lk.y.c1)];
    let said: Vec<usize> = fields.iter().copied().filter(|k| r.trace[*k] != zero && numbers.contains(&r.trace[*k])).collect();
    for _ in 0..LOOSE {
        let k = match c.below(4) { 0 => fields[fields.len() - 1 - c.size(0, (fields.len() - 1).min(40))], _ => fields[c.below(fields.len() as u64) as usize] };
        let k = if !said.is_empty() && c.chance(1, 4) { *c.pick(&said) } else { k };
        let mut p = Plan { at: vec![(k, if c.bool() { How::Random(c.range(1, 1 << 30)) } else { how(c) })] };
        if c.chance(1, 3) { if let Some(k) = some_bit(c, &r) { p = Plan { at: vec![(k, How::Flip)] }; } }
        let t = run::<Fq, _>(Some(p.clone()), |cs| h.circuit(cs));
        if t.applied > 0 { c.label("lie told"); }
        if t.sat { c.label("accepted"); ensure!(t.inputs == r.inputs, "loose", "a prover gets other public inputs accepted by lying about witness {} of {}: {}", k, r.count, shown(&p)); }
    }
    Ok(())
}
const LOOSE: usize = 8;
/// A prover replaces the generators, which the circuit fixes, by points that would make up for what is wrong with the history.
pub fn points(c: &mut Case) -> Outcome {
    let (n, m) = (c.size(1, 3), c.size(1, 3));
    let mut h = history(c, n, m, true, true);
    if h.identities() || h.fault().is_some() { return Ok(()); }
    let dummies = h.epochs.iter().filter(|e| e.dummy()).count() as u64;
    let t = if c.bool() { Fr::from(1 + c.below(9)) } else { random_scalar(c) };
    if t.is_zero() || t.is_one() { return Ok(()); }
    let one = Fr::one();
    let (what, factors) = match c.below(3) {
        0 => { h.sig += smul(&oracle::g1(), &t); ("signature plus a multiple of the generator", vec![one + t, one + t / Fr::from(dummies.max(1)), one - t]) }
        1 => { h.sig = smul(&h.sig, &t); ("multiple of the signature", vec![t.inverse().unwrap(), t]) }
        _ => {
            // a validator of an epoch before becomes the padding key, and signs
            let all: Vec<usize> = (0..m).filter(|k| !h.epochs[*k].dummy() && h.epochs[*k].bits.iter().any(|b| *b)).collect();
            if all.is_empty() { return Ok(()); }
            let k = *c.pick(&all);
            let j = h.epochs[k].bits.iter().position(|b| *b).unwrap();
            let at = (0..k).rev().find(|i| !h.epochs[*i].dummy());
            let e = match at { Some(i) => &mut h.epochs[i], None => &mut h.first };
            e.ks[j] = one;
            e.b.keys[j] = oracle::g2();
            h.sig = h.signature();
            ("padding key signs", vec![t, -one])
        }
    };
    if h.identities() || h.fault().is_none() { return Ok(()); }
    c.log(format!("{} [{}]", h.show(), what));
    let r = run_traced::<Fq, _>(|cs| h.circuit(cs));
    if r.out.is_err() { return Ok(()); }
    c.label(what);
    c.nontrivial_here();
    let limbs = |v: &Fq| v.into_repr().as_ref().to_vec();
    let at1 = |k: &Fr| { let a = smul(&oracle::g1(), k).into_affine(); vec![limbs(&a.x), limbs(&a.y)] };
    let at2 = |k: &Fr| { let a = smul(&oracle::g2(), k).into_affine(); vec![limbs(&a.x.c0), limbs(&a.x.c1), limbs(&a.y.c0), limbs(&a.y.c1)] };
    let inputs: Vec<(usize, How)> = h.inputs().iter().map(limbs).map(How::Set).enumerate().collect();
    for _ in 0..3 {
        let f = *c.pick(&factors);
        let mut list = vec![];
        let which = c.below(3);
        if which != 1 { for s in &[one, -one] { list.push((at2(s), at2(&(*s * f)))); } }
        if which != 2 { for s in &[one, -one] { list.push((at1(s), at1(&(*s * f)))); } }
        let p = replaced(c, &r.trace, r.first, &list);
        if p.at.is_empty() { continue; }
        c.label("generators replaced");
        let t = run_inputs::<Fq, _>(Some(p.clone()), inputs.clone(), |cs| h.circuit(cs));
        ensure!(!t.sat, "unsound-points", "a prover gets an unacceptable history accepted by replacing generators ({}): {}", what, shown(&p));
    }
    Ok(())
}
/// A prover who breaks one rule, in a history in which everything else is as if that rule did not exist, and who lies where
/// the circuit would have to notice.
pub fn targeted(c: &mut Case) -> Outcome {
    let kind = c.below(8);
    let n = if kind == 3 { c.size(6, 7) } else { c.size(1, 3) };
    let m = match kind { 2 | 5 => c.size(2, 3), _ => c.size(1, 3) };
    let mut h = history(c, n, m, true, true);
    if h.identities() || h.fault().is_some() { return Ok(()); }
    let limbs = |v: &Fq| v.into_repr().as_ref().to_vec();
    let number = |v: u64| vec![limbs(&Fq::from(v))];
    let entropy = |e: &Option<Vec<u8>>| vec![limbs(&oracle::fq(&[&e.clone().unwrap_or(vec![0; 16])[..], &[0; 32]].concat()).unwrap())];
    let at1 = |p: &G1Projective| { let a = p.into_affine(); vec![limbs(&a.x), limbs(&a.y)] };
    let at2 = |k: &Fr| { let a = smul(&oracle::g2(), k).into_affine(); vec![limbs(&a.x.c0), limbs(&a.x.c1), limbs(&a.y.c0), limbs(&a.y.c1)] };
    let real: Vec<usize> = (0..m).filter(|k| !h.epochs[*k].dummy()).collect();
    let k = *c.pick(&real);
    let prev = real.iter().copied().filter(|i| *i < k).last();
    let mut list: Vec<(Vec<Vec<u64>>, Vec<Vec<u64>>)> = vec![];
    let what = match kind {
        0 => {
            let e = match prev { Some(i) => h.epochs[i].clone(), None => h.first.clone() };
            let on: Vec<usize> = (0..n).filter(|j| h.epochs[k].bits[*j]).collect();
            if on.is_empty() { return Ok(()); }
            let (j, s) = (*c.pick(&on), random_scalar(c));
            h.sig += smul(&h.epochs[k].b.hash(), &(s - e.ks[j]));
            list.push((at2(&e.ks[j]), at2(&s)));
            "signed by somebody else"
        }
        1 => {
            let p = match prev { Some(i) => h.epochs[i].b.index, None => h.first.b.index };
            let d = 2 + c.below(9) as u16;
            for i in real.iter().copied().filter(|i| *i >= k) { h.epochs[i].b.index += d; }
            h.sig = h.signature();
            list.push((number(p as u64), number((p + d) as u64)));
            "index skipped"
        }
        2 => {
            let i = match prev { Some(i) => i, None => return Ok(()) };
            let mut e = c.random_bytes(16);
            e[0] |= 1;
            let old = h.epochs[i].b.ee.clone();
            if h.first.b.ee.is_none() || old == h.first.b.ee { return Ok(()); }
            h.epochs[k].b.pe = Some(e.clone());
            h.sig = h.signature();
            list.push((entropy(&old), entropy(&Some(e))));
            "entropy not chained"
        }
        3 => {
            let mut p = match prev { Some(i) => h.epochs[i].clone(), None => h.first.clone() };
            p.b.mns = 3;
            for (b, s) in h.epochs[k].bits.iter_mut().zip(&p.ks) { *b = false; if s.is_one() { return Ok(()); } }
            h.epochs[k].bits[n - 1] = true;
            match prev { Some(i) => h.epochs[i] = p, None => h.first = p }
            h.sig = h.signature();
            list.push((number(3), number(n as u64)));
            "too many non-signers"
        }
        4 => {
            // the last block has index 0 and is signed all the same
            let p = h.before()[m - 1].clone();
            h.epochs[m - 1].b.index = 0;
            let a = History::aggregate(&p, &h.epochs[m - 1]);
            let s = h.parts()[m - 1];
            h.sig = h.signature() - s + smul(&h.epochs[m - 1].b.hash(), &a);
            "last epoch is a signed dummy"
        }
        5 => {
            // a dummy becomes a block that nobody signed, and that the next one does not follow
            let d: Vec<usize> = (0..m).filter(|i| h.epochs[*i].dummy()).collect();
            if d.is_empty() { return Ok(()); }
            let d = *c.pick(&d);
            let p = h.before()[d].clone();
            h.epochs[d].b.index = p.b.index + 1;
            h.epochs[d].b.pe = p.b.ee.clone();
            if c.bool() { let a = History::aggregate(&p, &h.epochs[d]); h.sig = h.sig - oracle::g1() + smul(&h.epochs[d].b.hash(), &a); }
            "block left out"
        }
        6 => {
            let s = h.parts()[k];
            let t = Fr::from(2 + c.below(9));
            h.sig += smul(&s, &(t - Fr::one()));
            let e = match prev { Some(i) => h.epochs[i].clone(), None => h.first.clone() };
            let a = History::aggregate(&e, &h.epochs[k]);
            if c.bool() { list.push((at2(&a), at2(&(a * t)))); } else { let q = h.epochs[k].b.hash(); list.push((at1(&q), at1(&smul(&q, &t)))); }
            "multiple of a signature"
        }
        _ => {
            // somebody who signs has the padding key
            let on: Vec<usize> = (0..n).filter(|j| h.epochs[k].bits[*j]).collect();
            if on.is_empty() { return Ok(()); }
            let j = *c.pick(&on);
            let e = match prev { Some(i) => &mut h.epochs[i], None => &mut h.first };
            e.ks[j] = Fr::one();
            e.b.keys[j] = oracle::g2();
            h.sig = h.signature();
            "padding key signs"
        }
    };
    if h.identities() || h.fault().is_none() { return Ok(()); }
    c.log(format!("{} [{}]", h.show(), what));
    let r = run_traced::<Fq, _>(|cs| h.circuit(cs));
    if r.out.is_err() { return Ok(()); }
    c.label(what);
    c.nontrivial_here();
    let inputs: Vec<(usize, How)> = h.inputs().iter().map(limbs).map(How::Set).enumerate().collect();
    // the entropy of the first block is not part of the statement
    let free = entropy(&h.first.b.ee);
    for _ in 0..4 {
        let mut p = if list.is_empty() { Plan { at: vec![] } } else { replaced(c, &r.trace, r.first, &list) };
        if p.at.is_empty() || c.chance(1, 4) { for _ in 0..1 + c.weighted(&[4, 1]) { if let Some(k) = some_bit(c, &r) { p.at.push((k, How::Flip)); } } }
        p.at.retain(|(k, _)| r.trace[*k] != free[0] || r.bools[*k]);
        if p.at.is_empty() { continue; }
        let t = run_inputs::<Fq, _>(Some(p.clone()), inputs.clone(), |cs| h.circuit(cs));
        if t.applied > 0 { c.label("lie told"); }
        ensure!(!t.sat, "unsound-targeted", "a lying prover gets an unacceptable history accepted ({}): {}", what, shown(&p));
    }
    Ok(())
}
