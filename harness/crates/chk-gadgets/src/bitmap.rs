//! C11: at most a given number of zeros (or ones) in a bitmap.
use ark_bls12_377::{Fq, Fr};
use ark_ff::PrimeField;
use ark_r1cs_std::alloc::{AllocVar, AllocationMode};
use ark_r1cs_std::fields::fp::FpVar;
use ark_relations::r1cs::{ConstraintSystemRef, SynthesisError};
use bls_gadgets::Bitmap;
use circ::*;
use pbt::{ensure, fail, Case, Outcome};

struct In { bits: Vec<(bool, AllocationMode)>, forms: Vec<Form>, value: bool, max: u64, max_mode: AllocationMode }
fn circuit<F: PrimeField>(i: &In, cs: ConstraintSystemRef<F>) -> Result<(), SynthesisError> {
    let setup = cs.is_in_setup_mode();
    let bits = i.bits.iter().zip(&i.forms).map(|((b, m), f)| bit(&cs, *b, *m, *f)).collect::<Result<Vec<_>, SynthesisError>>()?;
    let max = FpVar::<F>::new_variable(cs.clone(), || if setup && i.max_mode != AllocationMode::Constant { Err(SynthesisError::AssignmentMissing) } else { Ok(F::from(i.max)) }, i.max_mode)?;
    inputs_done();
    bits[..].enforce_maximum_occurrences_in_bitmap(&max, i.value)
}
fn bits(c: &mut Case, n: usize) -> Vec<bool> {
    match c.weighted(&[1, 1, 2, 3]) {
        0 => vec![false; n],
        1 => vec![true; n],
        2 => { let d = c.bool(); let k = c.size(0, 3.min(n)); let mut v = vec![d; n]; for _ in 0..k { let i = c.size(0, n - 1); v[i] = !d; } v }
        _ => (0..n).map(|_| c.bool()).collect(),
    }
}
fn input(c: &mut Case, consts: bool, cap: usize) -> In {
    let n = if c.chance(1, 20) { c.count(1, cap, 300) } else { c.len_near(&[1, 8, 64], cap).max(1) };
    let b = bits(c, n);
    let value = c.bool();
    let count = b.iter().filter(|x| **x == value).count() as u64;
    let max = match c.weighted(&[4, 3, 1, 1, 1]) { 0 => count.saturating_sub(1 + c.below(2)), 1 => count + c.below(2), 2 => c.range(0, n as u64), 3 => c.range(0, 300), _ => c.u64() };
    let max_mode = if consts { mode_c(c) } else { mode(c) };
    let keep = c.size(0, n - 1);
    let some_consts = consts && c.chance(1, 3);
    let forms = forms(c, n);
    let bits = b.into_iter().enumerate().map(|(k, x)| (x, if some_consts && k != keep { mode_c(c) } else { mode(c) })).collect();
    In { bits, forms, value, max, max_mode }
}
fn show(i: &In) -> String { format!("bitmap={}{} counting {} at most {} ({:?})", i.bits.iter().map(|b| if b.0 { '1' } else { '0' }).collect::<String>(), forms_shown(&i.forms), i.value as u8, i.max, i.max_mode) }
fn holds(i: &In) -> bool { i.bits.iter().filter(|b| b.0 == i.value).count() as u64 <= i.max }
fn decide<F: PrimeField>(c: &mut Case, i: In) -> Outcome {
    c.log(show(&i));
    c.label(if holds(&i) { "within" } else { "exceeded" });
    c.nontrivial_here();
    let r = run::<F, _>(None, |cs| circuit(&i, cs));
    if let Err(e) = &r.out { if holds(&i) { return fail("bitmap-error", format!("synthesis fails on a bitmap within the limit: {}", e)); } }
    ensure!(r.sat == holds(&i), if r.sat { "bitmap-accepts" } else { "bitmap-rejects" }, "satisfied: {}, expected: {}", r.sat, holds(&i));
    Ok(())
}
pub fn verdict(c: &mut Case) -> Outcome { let i = input(c, true, 80); if c.chance(1, 4) { decide::<Fr>(c, i) } else { decide::<Fq>(c, i) } }
pub fn verdict_long(c: &mut Case) -> Outcome {
    let n = if c.chance(1, 12) { c.count(250, 650, 2100) } else { 250 + c.size(0, 400) };
    let b = bits(c, n);
    let value = c.bool();
    let count = b.iter().filter(|x| **x == value).count() as u64;
    let max = match c.weighted(&[3, 3, 1, 1]) { 0 => count.saturating_sub(1), 1 => count, 2 => count & 0xff, _ => c.range(0, 700) };
    let i = In { bits: b.into_iter().map(|x| (x, AllocationMode::Witness)).collect(), forms: forms(c, n), value, max, max_mode: AllocationMode::Witness };
    if count > 255 { c.label("more than 255 matches"); }
    decide::<Fq>(c, i)
}
pub fn attack(c: &mut Case) -> Outcome {
    let mut i = input(c, true, 24);
    let count = i.bits.iter().filter(|x| x.0 == i.value).count() as u64;
    if count <= i.max { if count == 0 { let v = i.value; i.bits[0].0 = v; } let count = i.bits.iter().filter(|x| x.0 == i.value).count() as u64; i.max = count - 1; }
    c.log(show(&i));
    let r = run::<Fq, _>(None, |cs| circuit(&i, cs));
    if r.count <= r.first { return Ok(()); }
    c.nontrivial_here();
    for _ in 0..4 {
        let p = lies_of(c, &r);
        let t = run::<Fq, _>(Some(p.clone()), |cs| circuit(&i, cs));
        if t.applied > 0 { c.label("lie told"); }
        ensure!(!t.sat, "bitmap-unsound", "a lying prover has the limit accepted: {}", shown(&p));
    }
    Ok(())
}
pub fn shape(c: &mut Case) -> Outcome {
    let mut i = input(c, false, 40);
    let n = i.bits.len();
    let other = bits(c, n);
    let max2 = c.range(0, n as u64);
    c.log(show(&i));
    c.nontrivial_here();
    let a = run::<Fq, _>(None, |cs| circuit(&i, cs));
    for (b, o) in i.bits.iter_mut().zip(&other) { b.0 = *o; }
    i.max = max2;
    let b = run::<Fq, _>(None, |cs| circuit(&i, cs));
    let s = match setup::<Fq, _>(|cs| circuit(&i, cs)) { Ok(s) => s, Err(e) => return fail("bitmap-setup", e) };
    if a.out.is_err() || b.out.is_err() { return Ok(()); }
    ensure!(a.shape == b.shape, "bitmap-shape", "the constraints depend on the values");
    ensure!(a.shape == s, "bitmap-shape", "the constraints at key generation differ from those at proving");
    Ok(())
}
