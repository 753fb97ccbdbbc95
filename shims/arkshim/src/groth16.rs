//! ark_groth16, with a trapdoor prover: the proving key holds the setup's secrets and the shape of
//! the circuit; a satisfied circuit of that shape gets a proof that verifies (the real pairing
//! equation), any other circuit gets one that does not. Verification and serialization are real.
use crate::crypto_primitives::snark::*;
use crate::ec::{AffineCurve, PairingEngine, ProjectiveCurve};
use crate::ff::*;
use crate::relations::r1cs::{ConstraintSynthesizer, ConstraintSystem, OptimizationGoal, StructHash, SynthesisError, SynthesisMode};
use crate::serialize::*;
use rand::Rng;
use std::io::{Read, Write};

pub type R1CSResult<T> = Result<T, SynthesisError>;

#[derive(Clone, Debug)]
pub struct Proof<E: PairingEngine> { pub a: E::G1Affine, pub b: E::G2Affine, pub c: E::G1Affine }
impl<E: PairingEngine> PartialEq for Proof<E> { fn eq(&self, o: &Self) -> bool { self.a == o.a && self.b == o.b && self.c == o.c } }
impl<E: PairingEngine> Eq for Proof<E> {}
impl<E: PairingEngine> Default for Proof<E> { fn default() -> Self { Proof { a: Default::default(), b: Default::default(), c: Default::default() } } }
#[derive(Clone, Debug)]
pub struct VerifyingKey<E: PairingEngine> {
    pub alpha_g1: E::G1Affine, pub beta_g2: E::G2Affine, pub gamma_g2: E::G2Affine, pub delta_g2: E::G2Affine, pub gamma_abc_g1: Vec<E::G1Affine>,
}
impl<E: PairingEngine> PartialEq for VerifyingKey<E> {
    fn eq(&self, o: &Self) -> bool { self.alpha_g1 == o.alpha_g1 && self.beta_g2 == o.beta_g2 && self.gamma_g2 == o.gamma_g2 && self.delta_g2 == o.delta_g2 && self.gamma_abc_g1 == o.gamma_abc_g1 }
}
impl<E: PairingEngine> Eq for VerifyingKey<E> {}
impl<E: PairingEngine> Default for VerifyingKey<E> {
    fn default() -> Self { VerifyingKey { alpha_g1: Default::default(), beta_g2: Default::default(), gamma_g2: Default::default(), delta_g2: Default::default(), gamma_abc_g1: vec![] } }
}
macro_rules! ser {
    ($T:ident, $($f:ident),*) => {
        impl<E: PairingEngine> CanonicalSerialize for $T<E> {
            fn serialize<W: Write>(&self, mut w: W) -> Result<(), SerializationError> { $(self.$f.serialize(&mut w)?;)* Ok(()) }
            fn serialized_size(&self) -> usize { 0 $(+ self.$f.serialized_size())* }
            fn serialize_uncompressed<W: Write>(&self, mut w: W) -> Result<(), SerializationError> { $(self.$f.serialize_uncompressed(&mut w)?;)* Ok(()) }
            fn uncompressed_size(&self) -> usize { 0 $(+ self.$f.uncompressed_size())* }
        }
        impl<E: PairingEngine> CanonicalDeserialize for $T<E> {
            fn deserialize<R: Read>(mut r: R) -> Result<Self, SerializationError> { $(let $f = CanonicalDeserialize::deserialize(&mut r)?;)* Ok($T { $($f),* }) }
            fn deserialize_uncompressed<R: Read>(mut r: R) -> Result<Self, SerializationError> { $(let $f = CanonicalDeserialize::deserialize_uncompressed(&mut r)?;)* Ok($T { $($f),* }) }
        }
    };
}
ser!(Proof, a, b, c);
ser!(VerifyingKey, alpha_g1, beta_g2, gamma_g2, delta_g2, gamma_abc_g1);

#[derive(Clone, Debug)]
pub struct PreparedVerifyingKey<E: PairingEngine> { pub vk: VerifyingKey<E> }
#[derive(Clone, Debug)]
pub struct ProvingKey<E: PairingEngine> {
    pub vk: VerifyingKey<E>,
    pub trapdoor: Trapdoor<E::Fr>,
    pub shape: (StructHash, usize, usize, usize),
}
impl<E: PairingEngine> PartialEq for ProvingKey<E> { fn eq(&self, o: &Self) -> bool { self.vk == o.vk } }
#[derive(Clone, Debug)]
pub struct Trapdoor<F> { alpha: F, beta: F, gamma: F, delta: F, ic: Vec<F> }

fn synth<F: PrimeField, C: ConstraintSynthesizer<F>>(c: C, mode: SynthesisMode) -> R1CSResult<crate::relations::r1cs::ConstraintSystemRef<F>> {
    let cs = ConstraintSystem::<F>::new_ref();
    cs.set_optimization_goal(OptimizationGoal::Constraints);
    cs.set_mode(mode);
    c.generate_constraints(cs.clone())?;
    cs.inline_all_lcs();
    Ok(cs)
}
pub fn generate_random_parameters<E: PairingEngine, C: ConstraintSynthesizer<E::Fr>, R: Rng>(circuit: C, rng: &mut R) -> R1CSResult<ProvingKey<E>> {
    let cs = synth(circuit, SynthesisMode::Setup)?;
    let shape = cs.shape().unwrap();
    let mut nz = || loop { let x = E::Fr::rand(rng); if !x.is_zero() { return x; } };
    let (alpha, beta, gamma, delta) = (nz(), nz(), nz(), nz());
    let ic: Vec<E::Fr> = (0..shape.1).map(|_| nz()).collect();
    let g1 = |s: &E::Fr| -> E::G1Affine { E::G1Affine::prime_subgroup_generator().mul(s.into_repr()).into_affine() };
    let g2 = |s: &E::Fr| -> E::G2Affine { E::G2Affine::prime_subgroup_generator().mul(s.into_repr()).into_affine() };
    let gi = gamma.inverse().unwrap();
    let vk = VerifyingKey { alpha_g1: g1(&alpha), beta_g2: g2(&beta), gamma_g2: g2(&gamma), delta_g2: g2(&delta), gamma_abc_g1: ic.iter().map(|x| g1(&(*x * &gi))).collect() };
    Ok(ProvingKey { vk, trapdoor: Trapdoor { alpha, beta, gamma, delta, ic }, shape })
}
pub fn create_random_proof<E: PairingEngine, C: ConstraintSynthesizer<E::Fr>, R: Rng>(circuit: C, pk: &ProvingKey<E>, rng: &mut R) -> R1CSResult<Proof<E>> {
    let (r, s) = (E::Fr::rand(rng), E::Fr::rand(rng));
    create_proof(circuit, pk, r, s)
}
pub fn create_proof_no_zk<E: PairingEngine, C: ConstraintSynthesizer<E::Fr>>(circuit: C, pk: &ProvingKey<E>) -> R1CSResult<Proof<E>> { create_proof(circuit, pk, E::Fr::zero(), E::Fr::zero()) }
pub fn create_proof<E: PairingEngine, C: ConstraintSynthesizer<E::Fr>>(circuit: C, pk: &ProvingKey<E>, r: E::Fr, s: E::Fr) -> R1CSResult<Proof<E>> {
    let cs = synth(circuit, SynthesisMode::Prove { construct_matrices: true })?;
    let ok = cs.shape().unwrap() == pk.shape && cs.is_satisfied()?;
    let cs = cs.borrow().unwrap();
    let t = &pk.trapdoor;
    // deterministic a, b from the assignment
    let mut acc = E::Fr::from(3u64);
    let k = E::Fr::from(0x9e3779b97f4a7c15u64);
    for w in cs.instance_assignment.iter().chain(&cs.witness_assignment) { acc = acc * &k + w; }
    let a = acc + &r;
    let b = acc * &k + &(s + &E::Fr::one());
    let mut x = E::Fr::zero();
    for (v, ic) in cs.instance_assignment.iter().zip(&t.ic) { x += &(*v * ic); }
    let mut c = (a * &b - &(t.alpha * &t.beta) - &x) * &t.delta.inverse().unwrap();
    if !ok { c += &(acc.square() + &E::Fr::one()); if c.is_zero() { c = k; } }
    Ok(Proof {
        a: E::G1Affine::prime_subgroup_generator().mul(a.into_repr()).into_affine(),
        b: E::G2Affine::prime_subgroup_generator().mul(b.into_repr()).into_affine(),
        c: E::G1Affine::prime_subgroup_generator().mul(c.into_repr()).into_affine(),
    })
}
pub fn prepare_verifying_key<E: PairingEngine>(vk: &VerifyingKey<E>) -> PreparedVerifyingKey<E> { PreparedVerifyingKey { vk: vk.clone() } }
pub fn verify_proof<E: PairingEngine>(pvk: &PreparedVerifyingKey<E>, proof: &Proof<E>, public_inputs: &[E::Fr]) -> R1CSResult<bool> {
    let vk = &pvk.vk;
    if public_inputs.len() + 1 != vk.gamma_abc_g1.len() { return Err(SynthesisError::MalformedVerifyingKey); }
    let mut x = vk.gamma_abc_g1[0].into_projective();
    for (i, b) in public_inputs.iter().zip(&vk.gamma_abc_g1[1..]) { x += &b.mul(i.into_repr()); }
    // e(A, B) = e(alpha, beta) e(X, gamma) e(C, delta)
    let q = E::miller_loop([
        (proof.a.into(), proof.b.into()),
        ((-x.into_affine()).into(), vk.gamma_g2.into()),
        ((-proof.c).into(), vk.delta_g2.into()),
        ((-vk.alpha_g1).into(), vk.beta_g2.into()),
    ].iter());
    let t = E::final_exponentiation(&q).ok_or(SynthesisError::UnexpectedIdentity)?;
    Ok(t == E::Fqk::one())
}

#[derive(Clone, Debug)]
pub struct Groth16<E>(std::marker::PhantomData<E>);
impl<E: PairingEngine> SNARK<E::Fr> for Groth16<E> {
    type ProvingKey = ProvingKey<E>;
    type VerifyingKey = VerifyingKey<E>;
    type Proof = Proof<E>;
    type ProcessedVerifyingKey = PreparedVerifyingKey<E>;
    type Error = SynthesisError;
}

pub mod constraints {
    use super::*;
    use crate::r1cs_std::boolean::Boolean;
    use crate::r1cs_std::groups::CurveVar;
    use crate::r1cs_std::pairing::PairingVar;
    use crate::r1cs_std::*;
    use crate::relations::r1cs::*;
    use std::borrow::Borrow;
    use std::marker::PhantomData;

    pub struct ProofVar<E: PairingEngine, P: PairingVar<E, E::Fq>> { pub a: P::G1Var, pub b: P::G2Var, pub c: P::G1Var }
    impl<E: PairingEngine, P: PairingVar<E, E::Fq>> Clone for ProofVar<E, P> { fn clone(&self) -> Self { ProofVar { a: self.a.clone(), b: self.b.clone(), c: self.c.clone() } } }
    pub struct VerifyingKeyVar<E: PairingEngine, P: PairingVar<E, E::Fq>> { pub alpha_g1: P::G1Var, pub beta_g2: P::G2Var, pub gamma_g2: P::G2Var, pub delta_g2: P::G2Var, pub gamma_abc_g1: Vec<P::G1Var> }
    impl<E: PairingEngine, P: PairingVar<E, E::Fq>> Clone for VerifyingKeyVar<E, P> {
        fn clone(&self) -> Self { VerifyingKeyVar { alpha_g1: self.alpha_g1.clone(), beta_g2: self.beta_g2.clone(), gamma_g2: self.gamma_g2.clone(), delta_g2: self.delta_g2.clone(), gamma_abc_g1: self.gamma_abc_g1.clone() } }
    }
    impl<E: PairingEngine, P: PairingVar<E, E::Fq>> AllocVar<Proof<E>, E::Fq> for ProofVar<E, P> {
        fn new_variable<T: Borrow<Proof<E>>>(cs: impl Into<Namespace<E::Fq>>, f: impl FnOnce() -> Result<T>, mode: AllocationMode) -> Result<Self> {
            let ns = cs.into();
            let cs = ns.cs();
            let p = f().map(|p| p.borrow().clone());
            let a = CurveVar::<E::G1Projective, E::Fq>::new_variable_omit_prime_order_check(cs.clone(), || p.as_ref().map(|p| p.a.into_projective()).map_err(|e| *e), mode)?;
            let b = CurveVar::<E::G2Projective, E::Fq>::new_variable_omit_prime_order_check(cs.clone(), || p.as_ref().map(|p| p.b.into_projective()).map_err(|e| *e), mode)?;
            let c = CurveVar::<E::G1Projective, E::Fq>::new_variable_omit_prime_order_check(cs, || p.as_ref().map(|p| p.c.into_projective()).map_err(|e| *e), mode)?;
            Ok(ProofVar { a, b, c })
        }
    }
    impl<E: PairingEngine, P: PairingVar<E, E::Fq>> AllocVar<VerifyingKey<E>, E::Fq> for VerifyingKeyVar<E, P> {
        fn new_variable<T: Borrow<VerifyingKey<E>>>(cs: impl Into<Namespace<E::Fq>>, f: impl FnOnce() -> Result<T>, mode: AllocationMode) -> Result<Self> {
            let ns = cs.into();
            let cs = ns.cs();
            let v = f()?.borrow().clone();
            Ok(VerifyingKeyVar {
                alpha_g1: AllocVar::<E::G1Affine, E::Fq>::new_variable(cs.clone(), || Ok(v.alpha_g1), mode)?,
                beta_g2: AllocVar::<E::G2Affine, E::Fq>::new_variable(cs.clone(), || Ok(v.beta_g2), mode)?,
                gamma_g2: AllocVar::<E::G2Affine, E::Fq>::new_variable(cs.clone(), || Ok(v.gamma_g2), mode)?,
                delta_g2: AllocVar::<E::G2Affine, E::Fq>::new_variable(cs.clone(), || Ok(v.delta_g2), mode)?,
                gamma_abc_g1: v.gamma_abc_g1.iter().map(|g| AllocVar::<E::G1Affine, E::Fq>::new_variable(cs.clone(), || Ok(*g), mode)).collect::<Result<Vec<_>>>()?,
            })
        }
    }
    pub struct Groth16VerifierGadget<E: PairingEngine, P: PairingVar<E, E::Fq>> { _p: PhantomData<fn() -> (E, P)> }
    impl<E: PairingEngine, P: PairingVar<E, E::Fq>> SNARKGadget<E::Fr, E::Fq, Groth16<E>> for Groth16VerifierGadget<E, P> {
        type VerifyingKeyVar = VerifyingKeyVar<E, P>;
        type InputVar = BooleanInputVar<E::Fr, E::Fq>;
        type ProofVar = ProofVar<E, P>;
        fn verify(vk: &Self::VerifyingKeyVar, x: &Self::InputVar, proof: &Self::ProofVar) -> Result<Boolean<E::Fq>> {
            // the verifier gadget itself is ideal: native verification of the variables' values
            assert!(x.val.len() + 1 == vk.gamma_abc_g1.len(), "wrong number of public inputs");
            let cs = x.val.iter().fold(proof.a.cs(), |c, b| c.or(b[..].cs()));
            for b in &x.val { cs.ideal_gate("groth16-input", &crate::crypto_primitives::crh::bit_vars(b), &[]); }
            let val = (|| -> Option<bool> {
                let p = Proof::<E> { a: proof.a.value().ok()?.into_affine(), b: proof.b.value().ok()?.into_affine(), c: proof.c.value().ok()?.into_affine() };
                let k = VerifyingKey::<E> {
                    alpha_g1: vk.alpha_g1.value().ok()?.into_affine(), beta_g2: vk.beta_g2.value().ok()?.into_affine(), gamma_g2: vk.gamma_g2.value().ok()?.into_affine(), delta_g2: vk.delta_g2.value().ok()?.into_affine(),
                    gamma_abc_g1: vk.gamma_abc_g1.iter().map(|g| g.value().ok().map(|g| g.into_affine())).collect::<Option<Vec<_>>>()?,
                };
                let inputs = x.val.iter().map(|bits| {
                    let mut f = E::Fr::zero();
                    for b in bits.iter().rev() { f.double_in_place(); if b.value().ok()? { f += &E::Fr::one(); } }
                    Some(f)
                }).collect::<Option<Vec<_>>>()?;
                verify_proof(&prepare_verifying_key(&k), &p, &inputs).ok()
            })();
            tamper::exempt(|| Boolean::new_witness(cs, || val.get()))
        }
    }
}
