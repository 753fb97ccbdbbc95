//! ark_r1cs_std
use crate::ff::*;
use crate::relations::r1cs::*;
use std::borrow::Borrow;
use std::fmt::Debug;
use std::ops::*;

pub mod boolean;
pub mod fields;
pub mod groups;
pub mod pairing;
pub mod uints;

pub mod bits {
    pub use super::{boolean, ToBitsGadget, ToBytesGadget};
    pub mod uint8 { pub use crate::r1cs_std::uints::UInt8; }
    pub mod uint16 { pub use crate::r1cs_std::uints::UInt16; }
    pub mod uint32 { pub use crate::r1cs_std::uints::UInt32; }
    pub mod uint64 { pub use crate::r1cs_std::uints::UInt64; }
}
pub mod uint8 { pub use super::uints::UInt8; }
pub mod uint16 { pub use super::uints::UInt16; }
pub mod uint32 { pub use super::uints::UInt32; }
pub mod uint64 { pub use super::uints::UInt64; }
pub mod alloc { pub use super::{AllocVar, AllocationMode}; }
pub mod eq { pub use super::EqGadget; }
pub mod select { pub use super::{CondSelectGadget, ThreeBitCondNegLookupGadget, TwoBitLookupGadget}; }
pub mod prelude {
    pub use super::boolean::Boolean;
    pub use super::eq::*;
    pub use super::fields::{FieldOpsBounds, FieldVar};
    pub use super::groups::{CurveVar, GroupOpsBounds};
    pub use super::pairing::PairingVar;
    pub use super::select::*;
    pub use super::uints::{UInt16, UInt32, UInt64, UInt8};
    pub use super::{AllocVar, AllocationMode, R1CSVar, ToBitsGadget, ToBytesGadget};
}
pub use boolean::Boolean;

pub trait Assignment<T> {
    fn get(self) -> Result<T>;
}
impl<T> Assignment<T> for Option<T> {
    fn get(self) -> Result<T> { self.ok_or(SynthesisError::AssignmentMissing) }
}

#[derive(Eq, PartialEq, Ord, PartialOrd, Hash, Debug, Copy, Clone)]
pub enum AllocationMode { Constant = 0, Input = 1, Witness = 2 }
impl AllocationMode {
    pub fn max(&self, o: Self) -> Self { if *self >= o { *self } else { o } }
}

pub trait AllocVar<V: ?Sized, F: Field>: Sized {
    fn new_variable<T: Borrow<V>>(cs: impl Into<Namespace<F>>, f: impl FnOnce() -> Result<T>, mode: AllocationMode) -> Result<Self>;
    fn new_constant(cs: impl Into<Namespace<F>>, t: impl Borrow<V>) -> Result<Self> { Self::new_variable(cs, || Ok(t), AllocationMode::Constant) }
    fn new_input<T: Borrow<V>>(cs: impl Into<Namespace<F>>, f: impl FnOnce() -> Result<T>) -> Result<Self> { Self::new_variable(cs, f, AllocationMode::Input) }
    fn new_witness<T: Borrow<V>>(cs: impl Into<Namespace<F>>, f: impl FnOnce() -> Result<T>) -> Result<Self> { Self::new_variable(cs, f, AllocationMode::Witness) }
}
impl<I, F: Field, A: AllocVar<I, F>> AllocVar<[I], F> for Vec<A> {
    fn new_variable<T: Borrow<[I]>>(cs: impl Into<Namespace<F>>, f: impl FnOnce() -> Result<T>, mode: AllocationMode) -> Result<Self> {
        let ns = cs.into();
        let cs = ns.cs();
        let mut v = vec![];
        for e in f()?.borrow().iter() { v.push(A::new_variable(cs.clone(), || Ok(e), mode)?); }
        Ok(v)
    }
}

pub trait R1CSVar<F: Field> {
    type Value: Debug + Eq + Clone;
    fn cs(&self) -> ConstraintSystemRef<F>;
    fn is_constant(&self) -> bool { self.cs().is_none() }
    fn value(&self) -> Result<Self::Value>;
}
impl<F: Field, T: R1CSVar<F>> R1CSVar<F> for [T] {
    type Value = Vec<T::Value>;
    fn cs(&self) -> ConstraintSystemRef<F> {
        let mut r = ConstraintSystemRef::None;
        for v in self { r = v.cs().or(r); }
        r
    }
    fn value(&self) -> Result<Self::Value> { self.iter().map(|v| v.value()).collect() }
}
impl<'a, F: Field, T: 'a + R1CSVar<F>> R1CSVar<F> for &'a T {
    type Value = T::Value;
    fn cs(&self) -> ConstraintSystemRef<F> { (*self).cs() }
    fn value(&self) -> Result<Self::Value> { (*self).value() }
}

pub trait EqGadget<F: Field> {
    fn is_eq(&self, other: &Self) -> Result<Boolean<F>>;
    fn is_neq(&self, other: &Self) -> Result<Boolean<F>> { Ok(self.is_eq(other)?.not()) }
    fn conditional_enforce_equal(&self, other: &Self, should_enforce: &Boolean<F>) -> Result<()> {
        self.is_eq(&other)?.conditional_enforce_equal(&Boolean::Constant(true), should_enforce)
    }
    fn enforce_equal(&self, other: &Self) -> Result<()> { self.conditional_enforce_equal(other, &Boolean::Constant(true)) }
    fn conditional_enforce_not_equal(&self, other: &Self, should_enforce: &Boolean<F>) -> Result<()> {
        self.is_neq(&other)?.conditional_enforce_equal(&Boolean::Constant(true), should_enforce)
    }
    fn enforce_not_equal(&self, other: &Self) -> Result<()> { self.conditional_enforce_not_equal(other, &Boolean::Constant(true)) }
}
impl<T: EqGadget<F> + R1CSVar<F>, F: Field> EqGadget<F> for [T] {
    fn is_eq(&self, other: &Self) -> Result<Boolean<F>> {
        assert_eq!(self.len(), other.len());
        let mut r = vec![];
        for (a, b) in self.iter().zip(other) { r.push(a.is_eq(b)?); }
        Boolean::kary_and(&r)
    }
    fn conditional_enforce_equal(&self, other: &Self, c: &Boolean<F>) -> Result<()> {
        assert_eq!(self.len(), other.len());
        for (a, b) in self.iter().zip(other) { a.conditional_enforce_equal(b, c)?; }
        Ok(())
    }
}

pub trait CondSelectGadget<F: Field>: Sized + Clone {
    fn conditionally_select(cond: &Boolean<F>, true_value: &Self, false_value: &Self) -> Result<Self>;
}
pub trait TwoBitLookupGadget<F: Field>: Sized {}
pub trait ThreeBitCondNegLookupGadget<F: Field>: Sized {}

pub trait ToBitsGadget<F: Field> {
    fn to_bits_le(&self) -> Result<Vec<Boolean<F>>>;
    fn to_non_unique_bits_le(&self) -> Result<Vec<Boolean<F>>> { self.to_bits_le() }
    fn to_bits_be(&self) -> Result<Vec<Boolean<F>>> { let mut b = self.to_bits_le()?; b.reverse(); Ok(b) }
    fn to_non_unique_bits_be(&self) -> Result<Vec<Boolean<F>>> { let mut b = self.to_non_unique_bits_le()?; b.reverse(); Ok(b) }
}
impl<F: Field> ToBitsGadget<F> for [Boolean<F>] { fn to_bits_le(&self) -> Result<Vec<Boolean<F>>> { Ok(self.to_vec()) } }
impl<F: Field, T: ToBitsGadget<F>> ToBitsGadget<F> for Vec<T> { fn to_bits_le(&self) -> Result<Vec<Boolean<F>>> { let mut v = vec![]; for t in self { v.extend(t.to_bits_le()?); } Ok(v) } }
pub trait ToBytesGadget<F: Field> {
    fn to_bytes(&self) -> Result<Vec<uints::UInt8<F>>>;
    fn to_non_unique_bytes(&self) -> Result<Vec<uints::UInt8<F>>> { self.to_bytes() }
}
pub trait ToConstraintFieldGadget<F: PrimeField> {
    fn to_constraint_field(&self) -> Result<Vec<fields::FpVar<F>>>;
}
impl<F: PrimeField> ToConstraintFieldGadget<F> for fields::FpVar<F> { fn to_constraint_field(&self) -> Result<Vec<fields::FpVar<F>>> { Ok(vec![self.clone()]) } }
impl<F: PrimeField> ToConstraintFieldGadget<F> for [fields::FpVar<F>] { fn to_constraint_field(&self) -> Result<Vec<fields::FpVar<F>>> { Ok(self.to_vec()) } }
impl<F: PrimeField> ToConstraintFieldGadget<F> for Vec<fields::FpVar<F>> { fn to_constraint_field(&self) -> Result<Vec<fields::FpVar<F>>> { Ok(self.clone()) } }
impl<F: PrimeField> ToConstraintFieldGadget<F> for [uints::UInt8<F>] {
    fn to_constraint_field(&self) -> Result<Vec<fields::FpVar<F>>> {
        let n = <F::Params as FpParameters>::CAPACITY as usize / 8;
        self.chunks(n).map(|c| { let bits: Vec<Boolean<F>> = c.iter().flat_map(|b| b.bits.to_vec()).collect(); Boolean::le_bits_to_fp_var(&bits) }).collect()
    }
}
impl<F: PrimeField> ToConstraintFieldGadget<F> for Vec<uints::UInt8<F>> { fn to_constraint_field(&self) -> Result<Vec<fields::FpVar<F>>> { self[..].to_constraint_field() } }
pub(crate) fn bits_to_bytes<F: Field>(bits: Vec<Boolean<F>>) -> Vec<uints::UInt8<F>> {
    bits.chunks(8).map(|c| { let mut c = c.to_vec(); c.resize(8, Boolean::Constant(false)); uints::UInt8::from_bits_le(&c) }).collect()
}
#[allow(unused)]
type _U = (Box<dyn Fn() -> u8>,);
#[allow(unused)]
fn _unused<T: Add>(_: T) {}
