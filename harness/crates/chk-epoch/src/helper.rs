//! C26: the helper circuit that expands the compressed hashes with BLAKE2Xs.
use ark_bls12_377::{Fr, FrParameters};
use ark_ff::PrimeField;
use ark_relations::r1cs::{ConstraintSynthesizer, ConstraintSystemRef};
use circ::*;
use epoch_snark::HashToBits;
use pbt::{blake2s_ref as b2, ensure, fail, hexs, Case, Outcome};

const CAP: usize = 252;
fn bits_of(b: &[u8]) -> Vec<bool> { b.iter().flat_map(|x| (0..8).map(move |i| x >> i & 1 == 1)).collect() }
fn value(v: &[bool]) -> Fr { let mut x = Fr::from(0u64); for b in v { x = x + x; if *b { x += &Fr::from(1u64); } } x }
fn messages(c: &mut Case) -> Vec<Vec<u8>> {
    let n = c.size(1, 4);
    let mixed = c.chance(1, 4);
    (0..n).map(|_| { let l = if mixed { c.len_near(&[1, 32, 48, 64, 65], 150).max(1) } else { 48 }; if c.chance(1, 6) { vec![*c.pick(&[0u8, 255]); l] } else { c.bytes(l) } }).collect()
}
/// the compressed bits of all messages followed by the expanded ones, each packed on its own
fn statement(m: &[Vec<u8>]) -> Vec<Fr> {
    let all: Vec<bool> = m.iter().flat_map(|m| bits_of(m)).collect();
    let xof: Vec<bool> = m.iter().flat_map(|m| bits_of(&b2::xof(b"ULforxof", m, 64))).collect();
    all.chunks(CAP).chain(xof.chunks(CAP)).map(value).collect()
}
fn circuit(m: &[Vec<u8>], cs: ConstraintSystemRef<Fr>) -> Result<(), ark_relations::r1cs::SynthesisError> {
    HashToBits { message_bits: m.iter().map(|m| bits_of(m).into_iter().map(Some).collect()).collect() }.generate_constraints(cs)
}
fn show(m: &[Vec<u8>]) -> String { m.iter().map(|m| hexs(m)).collect::<Vec<_>>().join(" ") }
fn log(c: &mut Case, m: &[Vec<u8>]) { c.log(format!("messages {}", show(m))); c.nontrivial_here(); c.label(if m.iter().all(|m| m.len() == 48) { "messages of 384 bits" } else { "other lengths" }); }
const _: () = assert!(CAP == <FrParameters as ark_ff::FpParameters>::CAPACITY as usize);

pub fn honest(c: &mut Case) -> Outcome {
    let m = messages(c);
    log(c, &m);
    let r = run::<Fr, _>(None, |cs| circuit(&m, cs));
    if let Err(e) = &r.out { return fail("helper-error", e.clone()); }
    ensure!(r.sat, "helper-unsatisfied", "an honest witness does not satisfy the constraints");
    let e = statement(&m);
    ensure!(r.inputs.len() == e.len(), "helper-inputs", "{} public inputs instead of {}", r.inputs.len(), e.len());
    for k in 0..e.len() { ensure!(r.inputs[k] == e[k], "helper-inputs", "public input {} is not the packed bits", k); }
    let empty = if m.iter().all(|m| m.len() == 48) { HashToBits::empty::<ark_bw6_761::FrParameters>(m.len()) } else { HashToBits { message_bits: m.iter().map(|m| vec![None; 8 * m.len()]).collect() } };
    match setup::<Fr, _>(|cs| empty.generate_constraints(cs)) { Ok(s) => ensure!(s == r.shape, "helper-shape", "the constraints at key generation differ from those at proving"), Err(e) => return fail("helper-setup", e) }
    let other: Vec<Vec<u8>> = m.iter().map(|m| c.bytes(m.len())).collect();
    let o = run::<Fr, _>(None, |cs| circuit(&other, cs));
    ensure!(o.shape == r.shape, "helper-shape", "the constraints depend on the messages: {} has others", show(&other));
    Ok(())
}
/// the messages of the given lengths that the public inputs spell out
fn read(inputs: &[Fr], like: &[Vec<u8>]) -> Option<Vec<Vec<u8>>> {
    let n: usize = like.iter().map(|m| 8 * m.len()).sum();
    let mut bits = vec![];
    for x in inputs {
        let k = CAP.min(n - bits.len());
        if k == 0 { break; }
        let r = x.into_repr();
        let bit = |i: usize| r.as_ref()[i / 64] >> (i % 64) & 1 == 1;
        if (k..256).any(bit) { return None; }
        bits.extend((0..k).rev().map(bit));
    }
    if bits.len() < n { return None; }
    let mut at = 0;
    Some(like.iter().map(|m| { let mut o = vec![0u8; m.len()]; for i in 0..8 * m.len() { if bits[at] { o[i / 8] |= 1 << (i % 8); } at += 1; } o }).collect())
}
/// other public inputs, changed witnesses: what is accepted is the statement of some messages, and for these bits the honest one
pub fn attack(c: &mut Case) -> Outcome {
    let m = messages(c);
    log(c, &m);
    let r = run::<Fr, _>(None, |cs| circuit(&m, cs));
    if r.out.is_err() { return Ok(()); }
    let e = statement(&m);
    for _ in 0..4 {
        let k = c.size(0, e.len() - 1);
        let h = if c.bool() { How::Pow2(c.below(253) as u32, 1) } else { how(c) };
        let t = run_inputs::<Fr, _>(None, vec![(k, h.clone())], |cs| circuit(&m, cs));
        if t.inputs != e { c.label("other public input"); }
        ensure!(!t.sat || t.inputs == e, "helper-unsound", "other public inputs are accepted for the same messages: {} by {:?}", k, h);
        let p = lies_in(c, &r);
        let k = c.size(0, e.len() - 1);
        let inputs = if c.chance(1, 4) { vec![(k, how(c))] } else { vec![] };
        let t = run_inputs::<Fr, _>(Some(p.clone()), inputs, |cs| circuit(&m, cs));
        if t.applied > 0 { c.label("lie told"); }
        if t.sat {
            c.label("accepted");
            match read(&t.inputs, &m) { Some(seen) => ensure!(t.inputs == statement(&seen), "helper-unsound", "a lying prover gets an expansion accepted that is not that of the messages: {}", shown(&p)), None => return fail("helper-unsound", format!("public inputs that pack no bits are accepted: {}", shown(&p))) }
        }
    }
    Ok(())
}
