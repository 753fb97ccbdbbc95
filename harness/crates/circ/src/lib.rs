//! Running circuits of the code under test: honestly, with lies about chosen witnesses, in setup mode.
use ark_ff::PrimeField;
pub use ark_relations::r1cs::tamper::{self, How, Plan};
use ark_relations::r1cs::{ConstraintSystem, ConstraintSystemRef, StructHash, SynthesisError, SynthesisMode};
use ark_r1cs_std::alloc::{AllocVar, AllocationMode};
use ark_r1cs_std::boolean::Boolean;
use pbt::Case;
use std::cell::Cell;

pub type Shape = (StructHash, usize, usize, usize);
pub struct Run<F: PrimeField, T> {
    /// Err: synthesis failed or panicked
    pub out: Result<T, String>,
    /// every constraint holds (false if synthesis failed)
    pub sat: bool,
    /// witnesses that may be lied about: those from `first` up to `count` are not the statement's inputs
    pub first: usize,
    pub count: usize,
    pub applied: usize,
    pub shape: Option<Shape>,
    /// public inputs, without the leading one
    pub inputs: Vec<F>,
    /// which witnesses are Booleans
    pub bools: Vec<bool>,
    /// values of the witnesses (of honest runs)
    pub trace: Vec<Vec<u64>>,
}
thread_local! { static FIRST: Cell<usize> = Cell::new(0); }
/// called by a circuit once its inputs are allocated
pub fn inputs_done() { FIRST.with(|f| f.set(tamper::count())); }
fn go<F: PrimeField, T>(plan: Option<Plan>, inputs: Vec<(usize, How)>, trace: bool, f: impl FnOnce(ConstraintSystemRef<F>) -> Result<T, SynthesisError>) -> Run<F, T> {
    FIRST.with(|f| f.set(0));
    let honest = plan.is_none();
    tamper::reset(plan);
    tamper::set_inputs(inputs);
    tamper::trace(trace || honest);
    let cs = ConstraintSystem::<F>::new_ref();
    let c2 = cs.clone();
    let out = match pbt::no_panic(move || f(c2)) { Ok(Ok(t)) => Ok(t), Ok(Err(e)) => Err(format!("{:?}", e)), Err(p) => Err(format!("panic: {}", p)) };
    let (count, applied, trace, bools) = (tamper::count(), tamper::applied(), tamper::traced(), tamper::bools());
    tamper::reset(None);
    let sat = out.is_ok() && cs.is_satisfied().unwrap_or(false);
    let inputs = cs.borrow().map(|c| c.instance_assignment[1..].to_vec()).unwrap_or_default();
    Run { out, sat, first: FIRST.with(|f| f.get()), count, applied, shape: cs.shape(), inputs, bools, trace }
}
pub fn run<F: PrimeField, T>(plan: Option<Plan>, f: impl FnOnce(ConstraintSystemRef<F>) -> Result<T, SynthesisError>) -> Run<F, T> { go(plan, vec![], false, f) }
/// an honest run that also records the witnesses
pub fn run_traced<F: PrimeField, T>(f: impl FnOnce(ConstraintSystemRef<F>) -> Result<T, SynthesisError>) -> Run<F, T> { go(None, vec![], true, f) }
/// with other values for some public inputs
pub fn run_inputs<F: PrimeField, T>(plan: Option<Plan>, inputs: Vec<(usize, How)>, f: impl FnOnce(ConstraintSystemRef<F>) -> Result<T, SynthesisError>) -> Run<F, T> { go(plan, inputs, false, f) }
/// synthesis without values, as key generation does it
pub fn setup<F: PrimeField, T>(f: impl FnOnce(ConstraintSystemRef<F>) -> Result<T, SynthesisError>) -> Result<Option<Shape>, String> {
    tamper::reset(None);
    let cs = ConstraintSystem::<F>::new_ref();
    cs.set_mode(SynthesisMode::Setup);
    let c2 = cs.clone();
    match pbt::no_panic(move || f(c2).map(|_| ())) { Ok(Ok(())) => Ok(cs.shape()), Ok(Err(e)) => Err(format!("{:?}", e)), Err(p) => Err(format!("panic: {}", p)) }
}
/// how a bit comes about: allocated, as the negation of one, or from a conjunction, disjunction or difference
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Form { Plain, Not, And, NotOr, Xor }
pub fn bit<F: PrimeField>(cs: &ConstraintSystemRef<F>, b: bool, m: AllocationMode, f: Form) -> Result<Boolean<F>, SynthesisError> {
    let setup = cs.is_in_setup_mode();
    let new = |b: bool, m: AllocationMode| Boolean::<F>::new_variable(cs.clone(), || if setup && m != AllocationMode::Constant { Err(SynthesisError::AssignmentMissing) } else { Ok(b) }, m);
    Ok(match f {
        Form::Plain => new(b, m)?,
        Form::Not => new(!b, m)?.not(),
        Form::And => new(b, m)?.and(&new(true, AllocationMode::Witness)?)?,
        Form::NotOr => new(!b, m)?.or(&new(false, AllocationMode::Witness)?)?.not(),
        Form::Xor => new(!b, m)?.xor(&new(true, AllocationMode::Witness)?)?,
    })
}
pub fn forms(c: &mut Case, n: usize) -> Vec<Form> {
    match c.weighted(&[5, 1, 2]) { 0 => vec![Form::Plain; n], 1 => vec![Form::Not; n], _ => (0..n).map(|_| *c.pick(&[Form::Plain, Form::Plain, Form::Not, Form::And, Form::NotOr, Form::Xor])).collect() }
}
pub fn forms_shown(f: &[Form]) -> String { if f.iter().all(|f| *f == Form::Plain) { String::new() } else { format!(" as {:?}", f) } }
pub fn how(c: &mut Case) -> How {
    match c.below(12) {
        0 => How::Flip, 1 => How::Add(c.range(1, 4)), 2 => How::Sub(c.range(1, 4)), 3 => How::Zero, 4 => How::One, 5 => How::Neg,
        6 => How::HalfModulus, 7 => How::SubHalf, 8 => How::AddHalf, 9 => How::Sub(c.range(1, 300)), 10 => pow2(c), _ => How::Random(c.range(1, 1 << 30)),
    }
}
/// adds a multiple of a power of two: what a missing range check lets through
pub fn pow2(c: &mut Case) -> How { let k = *c.pick(&[8u32, 16, 32, 64, 128, 253, 376]); let k = if c.chance(1, 4) { c.range(1, 376) as u32 } else { k }; How::Pow2(k, c.range(1, 3)) }
/// lies about one to three of the witnesses first..count, favouring the first ones
pub fn lies(c: &mut Case, first: usize, count: usize) -> Plan {
    assert!(count > first);
    let n = c.weighted(&[5, 3, 1]) + 1;
    let mut at = vec![];
    let mut last: Option<usize> = None;
    for _ in 0..n {
        let k = match (last, c.weighted(&[3, 2, 3])) {
            // next to the previous lie
            (Some(l), 0) => (l + 1 + c.size(0, 3)).min(count - 1),
            (_, 1) => first + c.size(0, 7.min(count - first - 1)),
            _ => c.size(first, count - 1),
        };
        last = Some(k);
        let h = how(c);
        at.push((k, h));
    }
    Plan { at }
}
/// A number smaller than 2^n - p has two representations in the n bits of the modulus p: the other one, for bits that occur
/// among the witnesses. A decomposition that is not checked to be below the modulus lets it through.
pub fn wrapped<F: PrimeField, T>(c: &mut Case, r: &Run<F, T>) -> Option<Plan> {
    use ark_ff::FpParameters;
    let n = F::Params::MODULUS_BITS as usize;
    let m = F::Params::MODULUS;
    let m: Vec<bool> = (0..n).map(|i| m.as_ref()[i / 64] >> (i % 64) & 1 == 1).collect();
    // 2^n - p
    let mut d = vec![false; n];
    let mut carry = true;
    for i in 0..n { d[i] = !m[i] ^ carry; carry &= !m[i]; }
    let bit = |k: usize| r.trace[k].first().map_or(false, |v| v & 1 == 1);
    let below = |s: usize| { for i in (0..n).rev() { if bit(s + i) != d[i] { return d[i]; } } false };
    let mut run = 0;
    let mut all = vec![];
    for k in r.first..r.count.min(r.trace.len()) { if r.bools[k] { run += 1; if run >= n && below(k + 1 - n) { all.push((k + 1 - n, run == n)); } } else { run = 0; } }
    if all.is_empty() { return None; }
    let numbers: std::collections::HashSet<&[u64]> = (r.first..r.count.min(r.trace.len())).filter(|k| !r.bools[*k]).map(|k| &r.trace[k][..]).collect();
    let value = |s: usize| { let mut v = vec![0u64; (n + 63) / 64]; for i in 0..n { if bit(s + i) { v[i / 64] |= 1 << (i % 64); } } v };
    // where a sequence of bits starts, where the bits of a known number are, anywhere
    let s = match c.below(4) {
        // the bits of a large number, of which there are few
        3 => { let v: Vec<usize> = all.iter().filter(|a| { let v = value(a.0); v.iter().skip(2).any(|w| *w != 0) && numbers.contains(&v[..]) }).map(|a| a.0).collect(); if v.is_empty() { c.pick(&all).0 } else { *c.pick(&v) } }
        0 => { let v: Vec<usize> = all.iter().filter(|a| a.1).map(|a| a.0).collect(); if v.is_empty() { c.pick(&all).0 } else { *c.pick(&v) } }
        1 => { let v: Vec<usize> = all.iter().filter(|a| numbers.contains(&value(a.0)[..])).map(|a| a.0).collect(); if v.is_empty() { c.pick(&all).0 } else { *c.pick(&v) } }
        _ => c.pick(&all).0,
    };
    Some(wrap::<F, T>(r, s))
}
/// replaces the number whose bits start at s by itself plus the modulus
pub fn wrap<F: PrimeField, T>(r: &Run<F, T>, s: usize) -> Plan {
    use ark_ff::FpParameters;
    let n = F::Params::MODULUS_BITS as usize;
    let m = F::Params::MODULUS;
    let mut carry = false;
    let mut at = vec![];
    for i in 0..n {
        let (a, b) = (r.trace[s + i].first().map_or(false, |v| v & 1 == 1), m.as_ref()[i / 64] >> (i % 64) & 1 == 1);
        if a ^ b ^ carry != a { at.push((s + i, How::Flip)); }
        carry = (a & b) | (carry & (a ^ b));
    }
    Plan { at }
}
/// Some Boolean witness, seldom one from the middle of a decomposition: a run of consecutive Booleans is chosen, short ones
/// included, and then mostly one of its ends.
pub fn some_bit<F: PrimeField, T>(c: &mut Case, r: &Run<F, T>) -> Option<usize> {
    let starts: Vec<usize> = (r.first..r.count).filter(|k| r.bools[*k] && (*k == r.first || !r.bools[*k - 1])).collect();
    if starts.is_empty() { return None; }
    let mut short: Vec<usize> = vec![];
    let end = |s: usize| (s..r.count).find(|k| !r.bools[*k]).unwrap_or(r.count);
    if c.bool() { short = starts.iter().copied().filter(|s| end(*s) - s < 3).collect(); }
    let s = if short.is_empty() { *c.pick(&starts) } else { *c.pick(&short) };
    let e = end(s);
    Some(match c.weighted(&[2, 3, 1]) { 0 => s + c.size(0, 2.min(e - 1 - s)), 1 => e - 1 - c.size(0, 6.min(e - 1 - s)), _ => s + c.below((e - s) as u64) as usize })
}
/// lies about an honest run
pub fn lies_of<F: PrimeField, T>(c: &mut Case, r: &Run<F, T>) -> Plan {
    if c.chance(1, 5) { let n = 1 + c.weighted(&[3, 3, 2]); return Plan { at: (0..n).filter_map(|_| some_bit(c, r)).map(|k| (k, How::Flip)).collect() }; }
    if c.chance(1, 6) { if let Some(p) = wrapped(c, r) { c.label("number plus modulus"); return p; } }
    lies(c, r.first, r.count)
}
/// lies that favour the witnesses that are field elements
pub fn lies_in<F: PrimeField, T>(c: &mut Case, r: &Run<F, T>) -> Plan {
    if c.chance(1, 4) { let n = 1 + c.weighted(&[5, 1]); return Plan { at: (0..n).filter_map(|_| some_bit(c, r)).map(|k| (k, How::Flip)).collect() }; }
    if c.chance(1, 6) { if let Some(p) = wrapped(c, r) { c.label("number plus modulus"); return p; } }
    let fields: Vec<usize> = (r.first..r.count).filter(|k| !r.bools[*k]).collect();
    if fields.is_empty() || c.chance(1, 4) { return lies(c, r.first, r.count); }
    let n = c.weighted(&[5, 2, 1]) + 1;
    let at = (0..n).map(|_| { let k = if c.chance(1, 3) { fields[c.size(0, 15.min(fields.len() - 1))] } else { *c.pick(&fields) }; (k, how(c)) }).collect();
    Plan { at }
}
/// where consecutive witnesses have the given values
pub fn find(trace: &[Vec<u64>], values: &[Vec<u64>]) -> Vec<usize> { (0..(trace.len() + 1).saturating_sub(values.len())).filter(|i| trace[*i..i + values.len()] == *values).collect() }
/// Replaces a point wherever it occurs among the witnesses from `first` on, in one place, or from one place on. Points are
/// given by their coordinates: pairs of what is looked for and what takes its place.
pub fn replaced(c: &mut Case, trace: &[Vec<u64>], first: usize, points: &[(Vec<Vec<u64>>, Vec<Vec<u64>>)]) -> Plan {
    let mut at: Vec<(usize, &Vec<Vec<u64>>)> = points.iter().flat_map(|(p, q)| find(trace, p).into_iter().map(move |k| (k, q))).filter(|(k, _)| *k >= first).collect();
    at.sort_by_key(|a| a.0);
    if !at.is_empty() { match c.below(3) { 0 => { at = vec![*c.pick(&at)]; } 1 => { let k = c.size(0, at.len() - 1); at.drain(..k); } _ => {} } }
    Plan { at: at.into_iter().flat_map(|(k, q)| q.iter().cloned().map(How::Set).enumerate().map(move |(i, h)| (k + i, h))).collect() }
}
pub fn mode(c: &mut Case) -> AllocationMode { match c.weighted(&[4, 1]) { 0 => AllocationMode::Witness, _ => AllocationMode::Input } }
pub fn mode_c(c: &mut Case) -> AllocationMode { match c.weighted(&[4, 1, 1]) { 0 => AllocationMode::Witness, 1 => AllocationMode::Input, _ => AllocationMode::Constant } }
pub fn shown(p: &Plan) -> String { if p.at.len() > 6 { format!("{:?} and {} more", &p.at[..4], p.at.len() - 4) } else { format!("{:?}", p.at) } }
