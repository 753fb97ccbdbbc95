//! C16: packing bits into field elements.
use ark_ff::{FpParameters, PrimeField};
use ark_r1cs_std::alloc::AllocationMode;
use ark_r1cs_std::R1CSVar;
use ark_relations::r1cs::{ConstraintSystemRef, SynthesisError};
use circ::*;
use epoch_snark::{pack, MultipackGadget};
use pbt::{ensure, fail, Case, Outcome};

fn show(v: &[bool]) -> String { if v.len() <= 64 { v.iter().map(|b| if *b { '1' } else { '0' }).collect() } else { format!("{} bits starting {}", v.len(), show(&v[..32])) } }
fn some_bits(c: &mut Case, n: usize) -> Vec<bool> {
    match c.weighted(&[1, 1, 1, 4]) {
        0 => vec![false; n], 1 => vec![true; n],
        2 => { let mut v = vec![false; n]; if n > 0 { let k = c.size(0, n - 1); v[k] = true; } v }
        _ => { let b = c.random_bytes((n + 7) / 8); (0..n).map(|i| b[i / 8] >> (i % 8) & 1 == 1).collect() }
    }
}
/// the bits as a number, the first one being the most significant
fn value<F: PrimeField>(v: &[bool]) -> F { let mut x = F::zero(); for b in v { x.double_in_place(); if *b { x += &F::one(); } } x }
fn packed<F: PrimeField>(v: &[bool], size: usize) -> Vec<F> { let mut o = vec![]; let mut k = 0; while k < v.len() { let e = (k + size).min(v.len()); o.push(value(&v[k..e])); k = e; } o }
fn len(c: &mut Case, cap: usize) -> usize { c.len_near(&[1, cap, cap + 1, 2 * cap, 512, 3 * cap], 4 * cap) }

fn native_in<F: PrimeField, P: FpParameters>(c: &mut Case, name: &'static str) -> Outcome {
    let cap = P::CAPACITY as usize;
    let v = if c.chance(1, 12) {
        // many elements, some of them all zeros or all ones
        c.label("more than four elements");
        let n = c.size(4, 40);
        let mut v = vec![];
        for _ in 0..n { v.extend(some_bits(c, cap)); }
        let last = c.size(0, cap);
        v.extend(some_bits(c, last));
        v
    } else { let n = len(c, cap); some_bits(c, n) };
    let n = v.len();
    c.log(format!("{} {}", name, show(&v)));
    c.label(name);
    if n > 0 { c.nontrivial_here(); }
    match pack::<F, P>(&v) {
        Err(e) => fail("pack-error", format!("{:?}", e)),
        Ok(o) => {
            let e: Vec<F> = packed(&v, cap);
            ensure!(o.len() == e.len(), "pack-length", "{} elements instead of {}", o.len(), e.len());
            for k in 0..o.len() { ensure!(o[k] == e[k], "pack", "element {} is not the big-endian value of its {} bits", k, (n - k * cap).min(cap)); }
            Ok(())
        }
    }
}
pub fn native(c: &mut Case) -> Outcome {
    if c.bool() { native_in::<ark_bw6_761::Fr, ark_bw6_761::FrParameters>(c, "BW6 scalars") } else { native_in::<ark_bls12_377::Fr, ark_bls12_377::FrParameters>(c, "BLS scalars") }
}
struct In { v: Vec<bool>, modes: Vec<AllocationMode>, forms: Vec<Form>, size: usize, input: bool }
fn circuit<F: PrimeField, P: FpParameters>(i: &In, cs: ConstraintSystemRef<F>) -> Result<Option<Vec<F>>, SynthesisError> {
    let s = cs.is_in_setup_mode();
    let b = i.v.iter().zip(&i.modes).zip(&i.forms).map(|((b, m), f)| bit(&cs, *b, *m, *f)).collect::<Result<Vec<_>, _>>()?;
    inputs_done();
    let o = MultipackGadget::pack::<F, P>(&b, i.size, i.input)?;
    if s { return Ok(None); }
    Ok(Some(o.iter().map(|o| o.value()).collect::<Result<Vec<_>, _>>()?))
}
fn input(c: &mut Case, cap: usize) -> In {
    let size = match c.weighted(&[4, 1, 3]) { 0 => cap, 1 => cap - c.size(0, 3), _ => c.size(1, cap) };
    let n = if size < 20 { let k = if c.chance(1, 4) { 20 } else { 3 }; c.size(1, k * size + 2) } else { len(c, size).max(1).min(3 * cap) };
    let v = some_bits(c, n);
    let constants = c.chance(1, 4);
    let mut modes: Vec<_> = (0..n).map(|_| if constants && c.bool() { AllocationMode::Constant } else { AllocationMode::Witness }).collect();
    modes[c.size(0, n - 1)] = AllocationMode::Witness;
    let forms = forms(c, n);
    In { v, modes, forms, size, input: c.bool() }
}
fn log(c: &mut Case, i: &In, name: &'static str) {
    c.log(format!("{} {} bits per element: {}, public: {}{}", name, i.size, show(&i.v), i.input, forms_shown(&i.forms)));
    c.label(name);
    c.label(if i.input { "public" } else { "private" });
    c.nontrivial_here();
}
fn gadget_in<F: PrimeField, P: FpParameters>(c: &mut Case, name: &'static str) -> Outcome {
    let i = input(c, P::CAPACITY as usize);
    log(c, &i, name);
    let e: Vec<F> = packed(&i.v, i.size);
    let r = run::<F, _>(None, |cs| circuit::<F, P>(&i, cs));
    match &r.out { Err(e) => return fail("multipack-error", e.clone()), Ok(o) => ensure!(o.as_ref().unwrap() == &e, "multipack", "the packed elements differ from the big-endian values of the bits") }
    ensure!(r.sat, "multipack-unsatisfied", "an honest witness does not satisfy the constraints");
    ensure!(r.inputs == if i.input { e.clone() } else { vec![] }, "multipack-inputs", "the public inputs differ");
    match setup::<F, _>(|cs| circuit::<F, P>(&i, cs)) { Ok(s) => ensure!(s == r.shape, "multipack-shape", "the constraints at key generation differ from those at proving"), Err(e) => return fail("multipack-setup", e) }
    Ok(())
}
pub fn gadget(c: &mut Case) -> Outcome {
    if c.bool() { gadget_in::<ark_bw6_761::Fr, ark_bw6_761::FrParameters>(c, "BW6 scalars") } else { gadget_in::<ark_bls12_377::Fr, ark_bls12_377::FrParameters>(c, "BLS scalars") }
}
fn attack_in<F: PrimeField, P: FpParameters>(c: &mut Case, name: &'static str) -> Outcome {
    let i = input(c, P::CAPACITY as usize);
    log(c, &i, name);
    let e: Vec<F> = packed(&i.v, i.size);
    let r = run::<F, _>(None, |cs| circuit::<F, P>(&i, cs));
    if r.out.is_err() || r.count <= r.first { return Ok(()); }
    for _ in 0..4 {
        let k = c.size(0, e.len() - 1);
        let other = |c: &mut Case| match c.below(4) { 0 => How::Pow2(c.below(P::MODULUS_BITS as u64) as u32, 1), 1 => How::Pow2((i.v.len() - k * i.size).min(i.size) as u32, c.range(1, 5)), _ => how(c) };
        if i.input {
            // other public inputs for these bits
            let h = other(c);
            let t = run_inputs::<F, _>(None, vec![(k, h.clone())], |cs| circuit::<F, P>(&i, cs));
            ensure!(!t.sat || t.inputs == e, "multipack-unsound", "other public inputs are accepted for the same bits: {} by {:?}", k, h);
        }
        let mut p = lies_of(c, &r);
        if !i.input {
            // lie about the elements themselves too
            let at: Vec<usize> = find(&run_traced::<F, _>(|cs| circuit::<F, P>(&i, cs)).trace, &[e[k].into_repr().as_ref().to_vec()]).into_iter().filter(|a| *a >= r.first).collect();
            if !at.is_empty() && c.bool() { let h = other(c); p = Plan { at: vec![(*c.pick(&at), h)] }; }
        }
        let t = run::<F, _>(Some(p.clone()), |cs| circuit::<F, P>(&i, cs));
        if t.applied > 0 { c.label("lie told"); }
        if t.sat { ensure!(t.out.ok().unwrap().unwrap() == e, "multipack-unsound", "a lying prover gets other elements accepted: {}", shown(&p)); }
    }
    Ok(())
}
pub fn attack(c: &mut Case) -> Outcome {
    if c.bool() { attack_in::<ark_bw6_761::Fr, ark_bw6_761::FrParameters>(c, "BW6 scalars") } else { attack_in::<ark_bls12_377::Fr, ark_bls12_377::FrParameters>(c, "BLS scalars") }
}
