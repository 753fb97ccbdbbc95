//! C12: the sign bit of a y coordinate, and its building blocks.
use ark_bls12_377::{constraints::{G1Var, G2Var}, Fq, Fq2, Fr, G1Projective, G2Projective};
use ark_ff::{Field, One, PrimeField, Zero};
use ark_ec::ProjectiveCurve;
use ark_r1cs_std::alloc::{AllocVar, AllocationMode};
use ark_r1cs_std::fields::fp::FpVar;
use ark_r1cs_std::groups::CurveVar;
use ark_r1cs_std::R1CSVar;
use ark_relations::r1cs::{ConstraintSystemRef, SynthesisError};
use bls_gadgets::{FpUtils, YToBitGadget};
use circ::*;
use oracle::{scalar, smul};
use pbt::{ensure, fail, Case, Outcome};

fn half<F: PrimeField>() -> F { -F::from(2u64).inverse().unwrap() } // (p-1)/2
fn high<F: PrimeField>(x: &F) -> bool {
    // x > (p-1)/2 exactly if 2x wraps, i.e. 2x mod p is odd
    let d = x.double().into_repr();
    d.as_ref()[0] & 1 == 1
}
fn element<F: PrimeField>(c: &mut Case) -> F {
    match c.weighted(&[2, 3, 1, 5]) {
        0 => F::from(c.below(3)),
        1 => { let k = F::from(c.below(3)); if c.bool() { half::<F>() + k } else { half::<F>() - k } }
        2 => -F::from(1 + c.below(3)),
        _ => { let b = c.random_bytes(64); F::from_le_bytes_mod_order(&b) }
    }
}
fn edge<F: PrimeField>(x: &F) -> bool { let d = *x - half::<F>(); x.is_zero() || d.is_zero() || d.is_one() || (-d).is_one() || x.is_one() || (-*x).is_one() }
fn bit_of<F: PrimeField>(b: &ark_r1cs_std::boolean::Boolean<F>) -> Result<bool, SynthesisError> {
    // the value the constraints see, not the one carried along
    let v = FpVar::from(b.clone());
    if let FpVar::Var(a) = &v { if a.cs.is_in_setup_mode() { return Ok(false); } }
    match &v { FpVar::Var(a) => { let x = a.cs.assigned_value(a.variable).ok_or(SynthesisError::AssignmentMissing)?; if x.is_zero() { Ok(false) } else if x.is_one() { Ok(true) } else { Err(SynthesisError::Unsatisfiable) } } _ => b.value() }
}
fn c_norm<F: PrimeField>(x: F, m: AllocationMode, cs: ConstraintSystemRef<F>) -> Result<bool, SynthesisError> {
    let v = FpVar::<F>::new_variable(cs, || Ok(x), m)?;
    inputs_done();
    let b = v.normalize()?;
    let k = bit_of(&b)?;
    if let Ok(v) = b.value() { if k != v { return Err(SynthesisError::Unsatisfiable); } }
    Ok(k)
}
fn c_zero<F: PrimeField>(x: F, m: AllocationMode, cs: ConstraintSystemRef<F>) -> Result<bool, SynthesisError> {
    let v = FpVar::<F>::new_variable(cs, || Ok(x), m)?;
    inputs_done();
    bit_of(&v.is_eq_zero()?)
}
fn c_g1(p: (Fq, Fq, Fq), m: AllocationMode, cs: ConstraintSystemRef<Fq>) -> Result<bool, SynthesisError> {
    let v = G1Var::new(FpVar::new_variable(cs.clone(), || Ok(p.0), m)?, FpVar::new_variable(cs.clone(), || Ok(p.1), m)?, FpVar::new_variable(cs, || Ok(p.2), m)?);
    inputs_done();
    bit_of(&v.y_to_bit()?)
}
fn c_g2(p: (Fq2, Fq2, Fq2), m: AllocationMode, cs: ConstraintSystemRef<Fq>) -> Result<bool, SynthesisError> {
    let v = G2Var::new(AllocVar::new_variable(cs.clone(), || Ok(p.0), m)?, AllocVar::new_variable(cs.clone(), || Ok(p.1), m)?, AllocVar::new_variable(cs, || Ok(p.2), m)?);
    inputs_done();
    bit_of(&v.y_to_bit()?)
}
fn honest<F: PrimeField>(r: &Run<F, bool>, expect: bool, what: &str) -> Outcome {
    match &r.out { Err(e) => fail(&format!("{}-error", what), e.clone()), Ok(b) => {
        ensure!(*b == expect, format!("{}-bit", what), "got {}, expected {}", b, expect);
        ensure!(r.sat, format!("{}-unsatisfied", what), "an honest witness does not satisfy the constraints");
        Ok(())
    } }
}
/// `gap`: the one lie that is a known finding
fn attacks<F: PrimeField>(c: &mut Case, r: &Run<F, bool>, expect: bool, gap: bool, what: &str, n: usize, f: impl Fn(ConstraintSystemRef<F>) -> Result<bool, SynthesisError>) -> Outcome {
    if r.count <= r.first { return Ok(()); }
    for _ in 0..n {
        let p = lies_of(c, r);
        let t = run::<F, _>(Some(p.clone()), &f);
        if t.applied > 0 { c.label("lie told"); }
        if t.sat { if let Ok(b) = t.out { if b != expect {
            if gap && b { return fail("half-accepted", format!("the element (p-1)/2 is accepted as larger than (p-1)/2: {}", shown(&p))); }
            return fail(&format!("{}-unsound", what), format!("a lying prover has the bit accepted as {}: {}", b, shown(&p)));
        } } }
    }
    Ok(())
}
fn norm_of<F: PrimeField>(c: &mut Case, n: usize) -> Outcome {
    let x = element::<F>(c);
    let m = mode_c(c);
    c.log(format!("x={:?} {:?}", x, m));
    if edge(&x) { c.label("edge value"); }
    c.label(if high(&x) { "high" } else { "low" });
    c.nontrivial_here();
    let f = |cs| c_norm::<F>(x, m, cs);
    let r = run::<F, _>(None, f);
    honest(&r, high(&x), "normalize")?;
    attacks::<F>(c, &r, high(&x), x == half::<F>(), "normalize", n, f)
}
pub fn normalize(c: &mut Case) -> Outcome { if c.chance(1, 3) { norm_of::<Fr>(c, 3) } else { norm_of::<Fq>(c, 3) } }
fn zero_of<F: PrimeField>(c: &mut Case, n: usize) -> Outcome {
    let x = element::<F>(c);
    let m = mode_c(c);
    c.log(format!("x={:?} {:?}", x, m));
    if x.is_zero() { c.label("zero"); }
    c.nontrivial_here();
    let f = |cs| c_zero::<F>(x, m, cs);
    let r = run::<F, _>(None, f);
    honest(&r, x.is_zero(), "is-zero")?;
    attacks::<F>(c, &r, x.is_zero(), false, "is-zero", n, f)
}
pub fn is_zero(c: &mut Case) -> Outcome { if c.chance(1, 3) { zero_of::<Fr>(c, 6) } else { zero_of::<Fq>(c, 6) } }
fn coords1(p: &G1Projective) -> (Fq, Fq, Fq) { let a = p.into_affine(); if p.is_zero() { (Fq::zero(), Fq::one(), Fq::zero()) } else { (a.x, a.y, Fq::one()) } }
fn coords2(p: &G2Projective) -> (Fq2, Fq2, Fq2) { let a = p.into_affine(); if p.is_zero() { (Fq2::zero(), Fq2::one(), Fq2::zero()) } else { (a.x, a.y, Fq2::one()) } }
pub fn g1(c: &mut Case) -> Outcome {
    let p = if c.bool() { let a = scalar(c); coords1(&smul(&oracle::g1(), &a)) } else { (element(c), element(c), Fq::one()) };
    let m = mode(c);
    c.log(format!("y={:?} {:?}", p.1, m));
    if edge(&p.1) { c.label("edge value"); }
    c.nontrivial_here();
    let f = |cs| c_g1(p, m, cs);
    let r = run::<Fq, _>(None, f);
    honest(&r, high(&p.1), "y-bit-g1")?;
    attacks::<Fq>(c, &r, high(&p.1), p.1 == half::<Fq>(), "y-bit", 2, f)
}
pub fn g2(c: &mut Case) -> Outcome {
    let p = match c.weighted(&[2, 3, 2]) {
        0 => { let a = scalar(c); coords2(&smul(&oracle::g2(), &a)) }
        1 => (Fq2::one(), Fq2::new(element(c), Fq::zero()), Fq2::one()),
        _ => (Fq2::one(), Fq2::new(element(c), element(c)), Fq2::one()),
    };
    let m = mode(c);
    let y = p.1;
    let expect = if y.c1.is_zero() { high(&y.c0) } else { high(&y.c1) };
    c.log(format!("y={:?} + {:?} u, {:?}", y.c0, y.c1, m));
    if y.c1.is_zero() { c.label("c1 = 0"); }
    if edge(&y.c1) || edge(&y.c0) { c.label("edge value"); }
    c.nontrivial_here();
    let f = |cs| c_g2(p, m, cs);
    let r = run::<Fq, _>(None, f);
    honest(&r, expect, "y-bit-g2")?;
    let gap = y.c1 == half::<Fq>() || (y.c1.is_zero() && y.c0 == half::<Fq>());
    attacks::<Fq>(c, &r, expect, gap, "y-bit", 2, f)
}
/// the known finding, directly: (p-1)/2 with the bit set and the remainder 0
pub fn half_edge(c: &mut Case) -> Outcome {
    let x = half::<Fq>();
    c.log("x = (p-1)/2, lying about the bit and the remainder");
    c.nontrivial_here();
    let f = |cs| c_norm::<Fq>(x, AllocationMode::Witness, cs);
    let r = run::<Fq, _>(None, f);
    honest(&r, false, "normalize")?;
    let n = (r.count - r.first).min(4);
    for i in 0..n { for j in 0..n { if i != j {
        let p = Plan { at: vec![(r.first + i, How::Flip), (r.first + j, How::SubHalf)] };
        let t = run::<Fq, _>(Some(p.clone()), f);
        if t.sat && matches!(t.out, Ok(true)) { return fail("half-accepted", format!("the element (p-1)/2 is accepted as larger than (p-1)/2: {}", shown(&p))); }
    } } }
    Ok(())
}
pub fn shape(c: &mut Case) -> Outcome {
    let (a, b): (Fq, Fq) = (element(c), element(c));
    let m = mode(c);
    let (p, q) = ((Fq2::one(), Fq2::new(a, if c.bool() { b } else { Fq::zero() }), Fq2::one()), (Fq2::one(), Fq2::new(b, a), Fq2::one()));
    c.log(format!("{:?} {:?} {:?}", a, b, m));
    c.nontrivial_here();
    for k in 0..4 {
        let f = |x: Fq, y: Fq, p, cs: ConstraintSystemRef<Fq>| match k { 0 => c_norm::<Fq>(x, m, cs).map(|_| ()), 1 => c_zero::<Fq>(x, m, cs).map(|_| ()), 2 => c_g1((y, x, Fq::one()), m, cs).map(|_| ()), _ => c_g2(p, m, cs).map(|_| ()) };
        let (r, s) = (run::<Fq, _>(None, |cs| f(a, b, p, cs)), run::<Fq, _>(None, |cs| f(b, a, q, cs)));
        ensure!(r.shape == s.shape, "y-bit-shape", "the constraints depend on the values (gadget {})", k);
        match setup::<Fq, _>(|cs| f(a, b, p, cs)) { Ok(s) => ensure!(s == r.shape, "y-bit-shape", "the constraints at key generation differ from those at proving (gadget {})", k), Err(e) => return fail("y-bit-setup", e) }
    }
    Ok(())
}
/// curve points through the gadgets' own allocation
pub fn allocated(c: &mut Case) -> Outcome {
    let a = scalar(c);
    c.log(format!("k={}", pbt::hex(&oracle::fr_bytes(&a))));
    c.nontrivial_here();
    let (p, q) = (smul(&oracle::g1(), &a), smul(&oracle::g2(), &a));
    let r = run::<Fq, _>(None, |cs| bit_of(&G1Var::new_variable_omit_prime_order_check(cs, || Ok(p), AllocationMode::Witness)?.y_to_bit()?));
    honest(&r, high(&coords1(&p).1), "y-bit-g1")?;
    let r = run::<Fq, _>(None, |cs| bit_of(&G2Var::new_variable_omit_prime_order_check(cs, || Ok(q), AllocationMode::Witness)?.y_to_bit()?));
    let y = coords2(&q).1;
    honest(&r, if y.c1.is_zero() { high(&y.c0) } else { high(&y.c1) }, "y-bit-g2")
}
