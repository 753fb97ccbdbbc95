//! ark_ec
use crate::ff::*;
use rand::distributions::{Distribution, Standard};
use rand::Rng;
use std::fmt::{self, Debug, Display};
use std::hash::{Hash, Hasher};
use std::io::Result as IoResult;
use std::iter::Sum;
use std::ops::*;

pub mod group {
    use super::*;
    pub trait Group:
        'static + ToBytes + FromBytes + UniformRand + CanonicalSerialize + CanonicalDeserialize + Copy + Clone + Debug + Display + Default + Send + Sync + Hash + Eq
        + Neg<Output = Self> + Zero
        + Add<Self, Output = Self> + Sub<Self, Output = Self> + AddAssign<Self> + SubAssign<Self>
        + for<'a> Add<&'a Self, Output = Self> + for<'a> Sub<&'a Self, Output = Self> + for<'a> AddAssign<&'a Self> + for<'a> SubAssign<&'a Self>
        + Sum<Self> + for<'a> Sum<&'a Self>
    {
        type ScalarField: PrimeField;
        fn double(&self) -> Self;
        fn double_in_place(&mut self) -> &mut Self;
        fn mul<'a>(&self, other: &'a Self::ScalarField) -> Self { let mut c = *self; c.mul_assign(other); c }
        fn mul_assign<'a>(&mut self, other: &'a Self::ScalarField);
    }
    impl<G: ProjectiveCurve> Group for G {
        type ScalarField = G::ScalarField;
        fn double(&self) -> Self { ProjectiveCurve::double(self) }
        fn double_in_place(&mut self) -> &mut Self { ProjectiveCurve::double_in_place(self) }
        fn mul_assign<'a>(&mut self, other: &'a Self::ScalarField) { *self = ProjectiveCurve::mul(*self, other.into_repr()); }
    }
}

/// Records the scalar multiplications of this thread while it is switched on.
pub mod spy {
    use super::*;
    use std::cell::RefCell;
    thread_local!(static SEEN: RefCell<Option<Vec<(Vec<u8>, Vec<u64>)>>> = RefCell::new(None));
    pub(super) fn seen<G: ProjectiveCurve>(p: &G, k: &[u64]) {
        if SEEN.with(|s| s.borrow().is_none()) { return; }
        let mut b = vec![];
        if p.serialize(&mut b).is_ok() { SEEN.with(|s| if let Some(v) = s.borrow_mut().as_mut() { v.push((b, k.to_vec())) }); }
    }
    pub fn start() { SEEN.with(|s| *s.borrow_mut() = Some(vec![])); }
    /// (encoding of the point, scalar) in the order of the multiplications
    pub fn stop() -> Vec<(Vec<u8>, Vec<u64>)> { SEEN.with(|s| s.borrow_mut().take()).unwrap_or_default() }
}

pub trait ProjectiveCurve:
    Eq + 'static + Sized + ToBytes + FromBytes + CanonicalSerialize + CanonicalDeserialize + Copy + Clone + Default + Send + Sync + Hash + Debug + Display + UniformRand + Zero
    + Neg<Output = Self>
    + Add<Self, Output = Self> + Sub<Self, Output = Self> + AddAssign<Self> + SubAssign<Self>
    + for<'a> Add<&'a Self, Output = Self> + for<'a> Sub<&'a Self, Output = Self> + for<'a> AddAssign<&'a Self> + for<'a> SubAssign<&'a Self>
    + Sum<Self> + for<'a> Sum<&'a Self>
    + From<<Self as ProjectiveCurve>::Affine>
{
    const COFACTOR: &'static [u64];
    type ScalarField: PrimeField + SquareRootField;
    type BaseField: Field;
    type Affine: AffineCurve<Projective = Self, ScalarField = Self::ScalarField, BaseField = Self::BaseField> + From<Self> + Into<Self>;
    fn prime_subgroup_generator() -> Self;
    fn batch_normalization(v: &mut [Self]);
    fn batch_normalization_into_affine(v: &[Self]) -> Vec<Self::Affine> {
        let mut v = v.to_vec();
        Self::batch_normalization(&mut v);
        v.into_iter().map(|v| v.into_affine()).collect()
    }
    fn is_normalized(&self) -> bool;
    fn double(&self) -> Self { let mut c = *self; c.double_in_place(); c }
    fn double_in_place(&mut self) -> &mut Self;
    fn into_affine(&self) -> Self::Affine { (*self).into() }
    fn add_mixed(mut self, other: &Self::Affine) -> Self { self.add_assign_mixed(other); self }
    fn add_assign_mixed(&mut self, other: &Self::Affine);
    fn mul<S: AsRef<[u64]>>(mut self, other: S) -> Self { spy::seen(&self, other.as_ref()); self.mul_assign_bits(BitIteratorBE::new(other)); self }
    #[doc(hidden)]
    fn mul_assign_bits<I: Iterator<Item = bool>>(&mut self, bits: I) {
        let mut r = Self::zero();
        let mut found = false;
        for b in bits {
            if found { r.double_in_place(); }
            if b { found = true; r += &*self; }
        }
        *self = r;
    }
}
pub trait AffineCurve:
    Eq + 'static + Sized + ToBytes + FromBytes + CanonicalSerialize + CanonicalDeserialize + Copy + Clone + Default + Send + Sync + Hash + Debug + Display + Zero
    + Neg<Output = Self> + From<<Self as AffineCurve>::Projective>
{
    const COFACTOR: &'static [u64];
    type ScalarField: PrimeField + SquareRootField + Into<<Self::ScalarField as PrimeField>::BigInt>;
    type BaseField: Field;
    type Projective: ProjectiveCurve<Affine = Self, ScalarField = Self::ScalarField, BaseField = Self::BaseField> + From<Self> + Into<Self>;
    fn prime_subgroup_generator() -> Self;
    fn into_projective(&self) -> Self::Projective { (*self).into() }
    fn from_random_bytes(bytes: &[u8]) -> Option<Self>;
    fn mul<S: Into<<Self::ScalarField as PrimeField>::BigInt>>(&self, other: S) -> Self::Projective { self.into_projective().mul(other.into()) }
    fn mul_by_cofactor_to_projective(&self) -> Self::Projective;
    fn mul_by_cofactor(&self) -> Self { self.mul_by_cofactor_to_projective().into() }
    fn mul_by_cofactor_inv(&self) -> Self;
}

pub mod models {
    use super::*;
    pub use super::models_bls12 as bls12;
    pub use super::short_weierstrass_jacobian;
    pub use super::twisted_edwards_extended;
    pub trait ModelParameters: Send + Sync + 'static {
        type BaseField: Field + SquareRootField;
        type ScalarField: PrimeField + SquareRootField + Into<<Self::ScalarField as PrimeField>::BigInt>;
    }
    pub trait SWModelParameters: ModelParameters {
        const COEFF_A: Self::BaseField;
        const COEFF_B: Self::BaseField;
        const COFACTOR: &'static [u64];
        const AFFINE_GENERATOR_COEFFS: (Self::BaseField, Self::BaseField);
        fn cofactor_inv() -> Self::ScalarField;
        fn mul_by_a(e: &Self::BaseField) -> Self::BaseField { *e * &Self::COEFF_A }
        fn add_b(e: &Self::BaseField) -> Self::BaseField { *e + &Self::COEFF_B }
    }
    pub trait TEModelParameters: ModelParameters {
        const COEFF_A: Self::BaseField;
        const COEFF_D: Self::BaseField;
        const COFACTOR: &'static [u64];
        const AFFINE_GENERATOR_COEFFS: (Self::BaseField, Self::BaseField);
        type MontgomeryModelParameters: MontgomeryModelParameters<BaseField = Self::BaseField>;
        fn mul_by_a(e: &Self::BaseField) -> Self::BaseField { *e * &Self::COEFF_A }
    }
    pub trait MontgomeryModelParameters: ModelParameters {
        type TEModelParameters: TEModelParameters<BaseField = Self::BaseField>;
    }
}
pub use models::*;

fn cofactor_inverse<F: PrimeField>(c: &[u64]) -> F {
    let b64 = F::from(1u128 << 64);
    let mut r = F::zero();
    for l in c.iter().rev() { r = r * &b64 + &F::from(*l); }
    r.inverse().unwrap_or_else(F::zero)
}
pub fn scalar_cofactor_inv<F: PrimeField>(c: &[u64]) -> F { cofactor_inverse(c) }

macro_rules! group_ops {
    ($t:ident, $B:ident) => {
        impl<P: $B> Add<$t<P>> for $t<P> { type Output = Self; fn add(mut self, o: Self) -> Self { self += &o; self } }
        impl<'a, P: $B> Add<&'a $t<P>> for $t<P> { type Output = Self; fn add(mut self, o: &'a Self) -> Self { self += o; self } }
        impl<'a, P: $B> Add<&'a $t<P>> for &'a $t<P> { type Output = $t<P>; fn add(self, o: &'a $t<P>) -> $t<P> { let mut s = *self; s += o; s } }
        impl<'a, P: $B> Add<$t<P>> for &'a $t<P> { type Output = $t<P>; fn add(self, o: $t<P>) -> $t<P> { let mut s = *self; s += &o; s } }
        impl<P: $B> AddAssign<$t<P>> for $t<P> { fn add_assign(&mut self, o: Self) { *self += &o; } }
        impl<P: $B> Sub<$t<P>> for $t<P> { type Output = Self; fn sub(mut self, o: Self) -> Self { self += &(-o); self } }
        impl<'a, P: $B> Sub<&'a $t<P>> for $t<P> { type Output = Self; fn sub(mut self, o: &'a Self) -> Self { self += &(-*o); self } }
        impl<'a, P: $B> Sub<&'a $t<P>> for &'a $t<P> { type Output = $t<P>; fn sub(self, o: &'a $t<P>) -> $t<P> { let mut s = *self; s += &(-*o); s } }
        impl<P: $B> SubAssign<$t<P>> for $t<P> { fn sub_assign(&mut self, o: Self) { *self += &(-o); } }
        impl<'a, P: $B> SubAssign<&'a $t<P>> for $t<P> { fn sub_assign(&mut self, o: &'a Self) { *self += &(-*o); } }
        impl<P: $B> MulAssign<P::ScalarField> for $t<P> { fn mul_assign(&mut self, o: P::ScalarField) { *self = ProjectiveCurve::mul(*self, o.into_repr()); } }
        impl<P: $B> Sum<$t<P>> for $t<P> { fn sum<I: Iterator<Item = Self>>(i: I) -> Self { i.fold(Self::zero(), |a, b| a + b) } }
        impl<'a, P: $B> Sum<&'a $t<P>> for $t<P> { fn sum<I: Iterator<Item = &'a Self>>(i: I) -> Self { i.fold(Self::zero(), |a, b| a + b) } }
    };
}

// ================================================================ short Weierstrass
pub mod short_weierstrass_jacobian {
    use super::*;
    use super::models::SWModelParameters;
    pub struct GroupAffine<P: SWModelParameters> { pub x: P::BaseField, pub y: P::BaseField, pub infinity: bool }
    pub struct GroupProjective<P: SWModelParameters> { pub x: P::BaseField, pub y: P::BaseField, pub z: P::BaseField }

    impl<P: SWModelParameters> Copy for GroupAffine<P> {}
    impl<P: SWModelParameters> Clone for GroupAffine<P> { fn clone(&self) -> Self { *self } }
    impl<P: SWModelParameters> Copy for GroupProjective<P> {}
    impl<P: SWModelParameters> Clone for GroupProjective<P> { fn clone(&self) -> Self { *self } }
    impl<P: SWModelParameters> PartialEq for GroupAffine<P> { fn eq(&self, o: &Self) -> bool { self.x == o.x && self.y == o.y && self.infinity == o.infinity } }
    impl<P: SWModelParameters> Eq for GroupAffine<P> {}
    impl<P: SWModelParameters> Hash for GroupAffine<P> { fn hash<H: Hasher>(&self, h: &mut H) { self.x.hash(h); self.y.hash(h); self.infinity.hash(h); } }
    impl<P: SWModelParameters> Hash for GroupProjective<P> { fn hash<H: Hasher>(&self, h: &mut H) { self.x.hash(h); self.y.hash(h); self.z.hash(h); } }
    impl<P: SWModelParameters> Debug for GroupAffine<P> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { if self.infinity { write!(f, "GroupAffine(Infinity)") } else { write!(f, "GroupAffine(x={}, y={})", self.x, self.y) } } }
    impl<P: SWModelParameters> Display for GroupAffine<P> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{:?}", self) } }
    impl<P: SWModelParameters> Debug for GroupProjective<P> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{:?}", GroupAffine::from(*self)) } }
    impl<P: SWModelParameters> Display for GroupProjective<P> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{:?}", self) } }

    impl<P: SWModelParameters> GroupAffine<P> {
        pub fn new(x: P::BaseField, y: P::BaseField, infinity: bool) -> Self { GroupAffine { x, y, infinity } }
        pub fn scale_by_cofactor(&self) -> GroupProjective<P> { self.mul_bits(BitIteratorBE::new(P::COFACTOR)) }
        pub fn mul_bits(&self, bits: impl Iterator<Item = bool>) -> GroupProjective<P> { let mut p = self.into_projective(); p.mul_assign_bits(bits); p }
        pub fn get_point_from_x(x: P::BaseField, greatest: bool) -> Option<Self> {
            let x3b = P::add_b(&((x.square() * &x) + &P::mul_by_a(&x)));
            x3b.sqrt().map(|y| {
                let negy = -y;
                let y = if (y < negy) ^ greatest { y } else { negy };
                Self::new(x, y, false)
            })
        }
        pub fn is_on_curve(&self) -> bool {
            self.infinity || self.y.square() == P::add_b(&((self.x.square() * &self.x) + &P::mul_by_a(&self.x)))
        }
        pub fn is_in_correct_subgroup_assuming_on_curve(&self) -> bool {
            self.mul_bits(BitIteratorBE::new(<P::ScalarField as PrimeField>::Params::MODULUS)).is_zero()
        }
    }
    impl<P: SWModelParameters> GroupProjective<P> {
        pub fn new(x: P::BaseField, y: P::BaseField, z: P::BaseField) -> Self { GroupProjective { x, y, z } }
    }
    impl<P: SWModelParameters> Zero for GroupAffine<P> {
        fn zero() -> Self { GroupAffine { x: P::BaseField::zero(), y: P::BaseField::one(), infinity: true } }
        fn is_zero(&self) -> bool { self.infinity }
    }
    impl<P: SWModelParameters> Default for GroupAffine<P> { fn default() -> Self { Self::zero() } }
    impl<P: SWModelParameters> Zero for GroupProjective<P> {
        fn zero() -> Self { GroupProjective { x: P::BaseField::one(), y: P::BaseField::one(), z: P::BaseField::zero() } }
        fn is_zero(&self) -> bool { self.z.is_zero() }
    }
    impl<P: SWModelParameters> Default for GroupProjective<P> { fn default() -> Self { Self::zero() } }
    impl<P: SWModelParameters> Add<Self> for GroupAffine<P> { type Output = Self; fn add(self, o: Self) -> Self { let mut p = self.into_projective(); p += &o.into_projective(); p.into() } }
    impl<'a, P: SWModelParameters> AddAssign<&'a Self> for GroupAffine<P> { fn add_assign(&mut self, o: &'a Self) { *self = *self + *o; } }
    impl<P: SWModelParameters> Neg for GroupAffine<P> { type Output = Self; fn neg(self) -> Self { if self.is_zero() { self } else { Self::new(self.x, -self.y, false) } } }
    impl<P: SWModelParameters> Neg for GroupProjective<P> { type Output = Self; fn neg(self) -> Self { if self.is_zero() { self } else { Self::new(self.x, -self.y, self.z) } } }
    impl<P: SWModelParameters> ToBytes for GroupAffine<P> { fn write<W: Write>(&self, mut w: W) -> IoResult<()> { self.x.write(&mut w)?; self.y.write(&mut w)?; self.infinity.write(&mut w) } }
    impl<P: SWModelParameters> FromBytes for GroupAffine<P> { fn read<R: Read>(mut r: R) -> IoResult<Self> { let x = FromBytes::read(&mut r)?; let y = FromBytes::read(&mut r)?; let i = bool::read(r)?; Ok(Self::new(x, y, i)) } }
    impl<P: SWModelParameters> ToBytes for GroupProjective<P> { fn write<W: Write>(&self, mut w: W) -> IoResult<()> { self.x.write(&mut w)?; self.y.write(&mut w)?; self.z.write(w) } }
    impl<P: SWModelParameters> FromBytes for GroupProjective<P> { fn read<R: Read>(mut r: R) -> IoResult<Self> { let x = FromBytes::read(&mut r)?; let y = FromBytes::read(&mut r)?; let z = FromBytes::read(r)?; Ok(Self::new(x, y, z)) } }
    impl<P: SWModelParameters> From<GroupAffine<P>> for GroupProjective<P> { fn from(p: GroupAffine<P>) -> Self { if p.is_zero() { Self::zero() } else { Self::new(p.x, p.y, P::BaseField::one()) } } }
    impl<P: SWModelParameters> From<GroupProjective<P>> for GroupAffine<P> {
        fn from(p: GroupProjective<P>) -> Self {
            if p.is_zero() { Self::zero() }
            else if p.z.is_one() { Self::new(p.x, p.y, false) }
            else { let zi = p.z.inverse().unwrap(); let zi2 = zi.square(); Self::new(p.x * &zi2, p.y * &(zi2 * &zi), false) }
        }
    }
    impl<P: SWModelParameters> PartialEq for GroupProjective<P> {
        fn eq(&self, o: &Self) -> bool {
            if self.is_zero() { return o.is_zero(); }
            if o.is_zero() { return false; }
            let z1 = self.z.square();
            let z2 = o.z.square();
            self.x * &z2 == o.x * &z1 && self.y * &(z2 * &o.z) == o.y * &(z1 * &self.z)
        }
    }
    impl<P: SWModelParameters> Eq for GroupProjective<P> {}
    impl<P: SWModelParameters> PartialEq<GroupAffine<P>> for GroupProjective<P> { fn eq(&self, o: &GroupAffine<P>) -> bool { *self == o.into_projective() } }
    impl<P: SWModelParameters> Distribution<GroupProjective<P>> for Standard {
        fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> GroupProjective<P> {
            loop {
                let x = P::BaseField::rand(rng);
                let greatest = rng.gen();
                if let Some(p) = GroupAffine::<P>::get_point_from_x(x, greatest) { return p.scale_by_cofactor(); }
            }
        }
    }
    impl<P: SWModelParameters> Distribution<GroupAffine<P>> for Standard {
        fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> GroupAffine<P> { let p: GroupProjective<P> = rng.sample(Standard); p.into() }
    }
    impl<'a, P: SWModelParameters> AddAssign<&'a GroupProjective<P>> for GroupProjective<P> {
        fn add_assign(&mut self, o: &'a Self) {
            if self.is_zero() { *self = *o; return; }
            if o.is_zero() { return; }
            // add-2007-bl
            let z1z1 = self.z.square();
            let z2z2 = o.z.square();
            let u1 = self.x * &z2z2;
            let u2 = o.x * &z1z1;
            let s1 = self.y * &o.z * &z2z2;
            let s2 = o.y * &self.z * &z1z1;
            if u1 == u2 && s1 == s2 { self.double_in_place(); return; }
            let h = u2 - &u1;
            let i = h.double().square();
            let j = h * &i;
            let r = (s2 - &s1).double();
            let v = u1 * &i;
            let x = r.square() - &j - &v.double();
            let y = r * &(v - &x) - &(s1 * &j).double();
            let z = ((self.z + &o.z).square() - &z1z1 - &z2z2) * &h;
            self.x = x; self.y = y; self.z = z;
        }
    }
    impl<'a, P: SWModelParameters> AddAssign<&'a GroupAffine<P>> for GroupProjective<P> { fn add_assign(&mut self, o: &'a GroupAffine<P>) { self.add_assign_mixed(o) } }
    group_ops!(GroupProjective, SWModelParameters);
    impl<P: SWModelParameters> ProjectiveCurve for GroupProjective<P> {
        const COFACTOR: &'static [u64] = P::COFACTOR;
        type ScalarField = P::ScalarField;
        type BaseField = P::BaseField;
        type Affine = GroupAffine<P>;
        fn prime_subgroup_generator() -> Self { GroupAffine::prime_subgroup_generator().into() }
        fn is_normalized(&self) -> bool { self.is_zero() || self.z.is_one() }
        fn batch_normalization(v: &mut [Self]) {
            for p in v.iter_mut() {
                if !p.is_normalized() { let a: GroupAffine<P> = (*p).into(); *p = a.into(); }
            }
        }
        fn double_in_place(&mut self) -> &mut Self {
            if self.is_zero() { return self; }
            // dbl-2007-bl (general a)
            let xx = self.x.square();
            let yy = self.y.square();
            let yyyy = yy.square();
            let zz = self.z.square();
            let s = ((self.x + &yy).square() - &xx - &yyyy).double();
            let a = if P::COEFF_A.is_zero() { P::BaseField::zero() } else { P::mul_by_a(&zz.square()) };
            let m = xx + &xx + &xx + &a;
            let t = m.square() - &s.double();
            let z = (self.z + &self.y).square() - &yy - &zz;
            self.x = t;
            self.y = m * &(s - &t) - &yyyy.double().double().double();
            self.z = z;
            self
        }
        fn add_assign_mixed(&mut self, o: &GroupAffine<P>) {
            if o.is_zero() { return; }
            if self.is_zero() { *self = o.into_projective(); return; }
            let z1z1 = self.z.square();
            let u2 = o.x * &z1z1;
            let s2 = o.y * &self.z * &z1z1;
            if self.x == u2 && self.y == s2 { self.double_in_place(); return; }
            let h = u2 - &self.x;
            let hh = h.square();
            let i = hh.double().double();
            let j = h * &i;
            let r = (s2 - &self.y).double();
            let v = self.x * &i;
            let x = r.square() - &j - &v.double();
            let y = r * &(v - &x) - &(self.y * &j).double();
            let z = (self.z + &h).square() - &z1z1 - &hh;
            self.x = x; self.y = y; self.z = z;
        }
    }
    impl<P: SWModelParameters> AffineCurve for GroupAffine<P> {
        const COFACTOR: &'static [u64] = P::COFACTOR;
        type ScalarField = P::ScalarField;
        type BaseField = P::BaseField;
        type Projective = GroupProjective<P>;
        fn prime_subgroup_generator() -> Self { Self::new(P::AFFINE_GENERATOR_COEFFS.0, P::AFFINE_GENERATOR_COEFFS.1, false) }
        fn from_random_bytes(bytes: &[u8]) -> Option<Self> {
            P::BaseField::from_random_bytes_with_flags::<SWFlags>(bytes).and_then(|(x, flags)| {
                if x.is_zero() && flags.is_infinity() { Some(Self::zero()) }
                else if let Some(p) = flags.is_positive() { Self::get_point_from_x(x, p) }
                else { None }
            })
        }
        fn mul_by_cofactor_to_projective(&self) -> GroupProjective<P> { self.scale_by_cofactor() }
        fn mul_by_cofactor_inv(&self) -> Self { self.into_projective().mul(P::cofactor_inv().into_repr()).into() }
    }
    impl<P: SWModelParameters> CanonicalSerialize for GroupAffine<P> {
        fn serialize<W: Write>(&self, w: W) -> Result<(), SerializationError> {
            if self.is_zero() { P::BaseField::zero().serialize_with_flags(w, SWFlags::infinity()) }
            else { self.x.serialize_with_flags(w, SWFlags::from_y_sign(self.y > -self.y)) }
        }
        fn serialized_size(&self) -> usize { self.x.serialized_size_with_flags::<SWFlags>() }
        fn serialize_uncompressed<W: Write>(&self, mut w: W) -> Result<(), SerializationError> {
            let flags = if self.is_zero() { SWFlags::infinity() } else { SWFlags::default() };
            self.x.serialize(&mut w)?;
            self.y.serialize_with_flags(&mut w, flags)
        }
        fn uncompressed_size(&self) -> usize { self.x.serialized_size() + self.y.serialized_size_with_flags::<SWFlags>() }
    }
    impl<P: SWModelParameters> CanonicalDeserialize for GroupAffine<P> {
        fn deserialize<R: Read>(r: R) -> Result<Self, SerializationError> {
            let (x, flags): (P::BaseField, SWFlags) = CanonicalDeserializeWithFlags::deserialize_with_flags(r)?;
            if flags.is_infinity() { Ok(Self::zero()) }
            else {
                let p = Self::get_point_from_x(x, flags.is_positive().unwrap()).ok_or(SerializationError::InvalidData)?;
                if !p.is_in_correct_subgroup_assuming_on_curve() { return Err(SerializationError::InvalidData); }
                Ok(p)
            }
        }
        fn deserialize_uncompressed<R: Read>(r: R) -> Result<Self, SerializationError> {
            let p = Self::deserialize_unchecked(r)?;
            if !p.is_in_correct_subgroup_assuming_on_curve() { return Err(SerializationError::InvalidData); }
            Ok(p)
        }
        fn deserialize_unchecked<R: Read>(mut r: R) -> Result<Self, SerializationError> {
            let x: P::BaseField = CanonicalDeserialize::deserialize(&mut r)?;
            let (y, flags): (P::BaseField, SWFlags) = CanonicalDeserializeWithFlags::deserialize_with_flags(&mut r)?;
            Ok(Self::new(x, y, flags.is_infinity()))
        }
    }
    impl<P: SWModelParameters> CanonicalSerialize for GroupProjective<P> {
        fn serialize<W: Write>(&self, w: W) -> Result<(), SerializationError> { GroupAffine::from(*self).serialize(w) }
        fn serialized_size(&self) -> usize { GroupAffine::from(*self).serialized_size() }
        fn serialize_uncompressed<W: Write>(&self, w: W) -> Result<(), SerializationError> { GroupAffine::from(*self).serialize_uncompressed(w) }
        fn uncompressed_size(&self) -> usize { GroupAffine::from(*self).uncompressed_size() }
    }
    impl<P: SWModelParameters> CanonicalDeserialize for GroupProjective<P> {
        fn deserialize<R: Read>(r: R) -> Result<Self, SerializationError> { GroupAffine::deserialize(r).map(Into::into) }
        fn deserialize_uncompressed<R: Read>(r: R) -> Result<Self, SerializationError> { GroupAffine::deserialize_uncompressed(r).map(Into::into) }
        fn deserialize_unchecked<R: Read>(r: R) -> Result<Self, SerializationError> { GroupAffine::deserialize_unchecked(r).map(Into::into) }
    }
}

// ================================================================ twisted Edwards
pub mod twisted_edwards_extended {
    use super::*;
    use super::models::TEModelParameters;
    pub struct GroupAffine<P: TEModelParameters> { pub x: P::BaseField, pub y: P::BaseField }
    pub struct GroupProjective<P: TEModelParameters> { pub x: P::BaseField, pub y: P::BaseField, pub t: P::BaseField, pub z: P::BaseField }
    impl<P: TEModelParameters> Copy for GroupAffine<P> {}
    impl<P: TEModelParameters> Clone for GroupAffine<P> { fn clone(&self) -> Self { *self } }
    impl<P: TEModelParameters> Copy for GroupProjective<P> {}
    impl<P: TEModelParameters> Clone for GroupProjective<P> { fn clone(&self) -> Self { *self } }
    impl<P: TEModelParameters> PartialEq for GroupAffine<P> { fn eq(&self, o: &Self) -> bool { self.x == o.x && self.y == o.y } }
    impl<P: TEModelParameters> Eq for GroupAffine<P> {}
    impl<P: TEModelParameters> Hash for GroupAffine<P> { fn hash<H: Hasher>(&self, h: &mut H) { self.x.hash(h); self.y.hash(h); } }
    impl<P: TEModelParameters> Hash for GroupProjective<P> { fn hash<H: Hasher>(&self, h: &mut H) { self.x.hash(h); self.y.hash(h); self.t.hash(h); self.z.hash(h); } }
    impl<P: TEModelParameters> Debug for GroupAffine<P> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "GroupAffine(x={}, y={})", self.x, self.y) } }
    impl<P: TEModelParameters> Display for GroupAffine<P> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{:?}", self) } }
    impl<P: TEModelParameters> Debug for GroupProjective<P> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{:?}", GroupAffine::from(*self)) } }
    impl<P: TEModelParameters> Display for GroupProjective<P> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{:?}", self) } }
    impl<P: TEModelParameters> GroupAffine<P> {
        pub fn new(x: P::BaseField, y: P::BaseField) -> Self { GroupAffine { x, y } }
        pub fn scale_by_cofactor(&self) -> GroupProjective<P> { let mut p = self.into_projective(); p.mul_assign_bits(BitIteratorBE::new(P::COFACTOR)); p }
        pub fn get_point_from_x(x: P::BaseField, greatest: bool) -> Option<Self> {
            let x2 = x.square();
            let one = P::BaseField::one();
            let num = P::mul_by_a(&x2) - &one;
            let den = P::COEFF_D * &x2 - &one;
            den.inverse().map(|i| num * &i).and_then(|y2| y2.sqrt()).map(|y| {
                let negy = -y;
                let y = if (y < negy) ^ greatest { y } else { negy };
                Self::new(x, y)
            })
        }
        pub fn is_on_curve(&self) -> bool {
            let (x2, y2) = (self.x.square(), self.y.square());
            y2 + &P::mul_by_a(&x2) == P::BaseField::one() + &(P::COEFF_D * &(x2 * &y2))
        }
    }
    impl<P: TEModelParameters> GroupProjective<P> { pub fn new(x: P::BaseField, y: P::BaseField, t: P::BaseField, z: P::BaseField) -> Self { GroupProjective { x, y, t, z } } }
    impl<P: TEModelParameters> Zero for GroupAffine<P> { fn zero() -> Self { Self::new(P::BaseField::zero(), P::BaseField::one()) } fn is_zero(&self) -> bool { self.x.is_zero() && self.y.is_one() } }
    impl<P: TEModelParameters> Default for GroupAffine<P> { fn default() -> Self { Self::zero() } }
    impl<P: TEModelParameters> Zero for GroupProjective<P> {
        fn zero() -> Self { Self::new(P::BaseField::zero(), P::BaseField::one(), P::BaseField::zero(), P::BaseField::one()) }
        fn is_zero(&self) -> bool { self.x.is_zero() && self.y == self.z && !self.y.is_zero() && self.t.is_zero() }
    }
    impl<P: TEModelParameters> Default for GroupProjective<P> { fn default() -> Self { Self::zero() } }
    impl<P: TEModelParameters> Add<Self> for GroupAffine<P> { type Output = Self; fn add(self, o: Self) -> Self { let mut p = self.into_projective(); p += &o.into_projective(); p.into() } }
    impl<P: TEModelParameters> Neg for GroupAffine<P> { type Output = Self; fn neg(self) -> Self { Self::new(-self.x, self.y) } }
    impl<P: TEModelParameters> Neg for GroupProjective<P> { type Output = Self; fn neg(self) -> Self { Self::new(-self.x, self.y, -self.t, self.z) } }
    impl<P: TEModelParameters> ToBytes for GroupAffine<P> { fn write<W: Write>(&self, mut w: W) -> IoResult<()> { self.x.write(&mut w)?; self.y.write(w) } }
    impl<P: TEModelParameters> FromBytes for GroupAffine<P> { fn read<R: Read>(mut r: R) -> IoResult<Self> { let x = FromBytes::read(&mut r)?; let y = FromBytes::read(r)?; Ok(Self::new(x, y)) } }
    impl<P: TEModelParameters> ToBytes for GroupProjective<P> { fn write<W: Write>(&self, mut w: W) -> IoResult<()> { self.x.write(&mut w)?; self.y.write(&mut w)?; self.t.write(&mut w)?; self.z.write(w) } }
    impl<P: TEModelParameters> FromBytes for GroupProjective<P> { fn read<R: Read>(mut r: R) -> IoResult<Self> { let x = FromBytes::read(&mut r)?; let y = FromBytes::read(&mut r)?; let t = FromBytes::read(&mut r)?; let z = FromBytes::read(r)?; Ok(Self::new(x, y, t, z)) } }
    impl<P: TEModelParameters> From<GroupAffine<P>> for GroupProjective<P> { fn from(p: GroupAffine<P>) -> Self { Self::new(p.x, p.y, p.x * &p.y, P::BaseField::one()) } }
    impl<P: TEModelParameters> From<GroupProjective<P>> for GroupAffine<P> {
        fn from(p: GroupProjective<P>) -> Self {
            if p.is_zero() { Self::zero() } else if p.z.is_one() { Self::new(p.x, p.y) }
            else { let zi = p.z.inverse().unwrap(); Self::new(p.x * &zi, p.y * &zi) }
        }
    }
    impl<P: TEModelParameters> PartialEq for GroupProjective<P> {
        fn eq(&self, o: &Self) -> bool {
            if self.is_zero() { return o.is_zero(); }
            if o.is_zero() { return false; }
            self.x * &o.z == o.x * &self.z && self.y * &o.z == o.y * &self.z
        }
    }
    impl<P: TEModelParameters> Eq for GroupProjective<P> {}
    impl<P: TEModelParameters> Distribution<GroupProjective<P>> for Standard {
        fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> GroupProjective<P> {
            loop {
                let x = P::BaseField::rand(rng);
                let greatest = rng.gen();
                if let Some(p) = GroupAffine::<P>::get_point_from_x(x, greatest) { return p.scale_by_cofactor(); }
            }
        }
    }
    impl<'a, P: TEModelParameters> AddAssign<&'a GroupProjective<P>> for GroupProjective<P> {
        fn add_assign(&mut self, o: &'a Self) {
            let a = self.x * &o.x;
            let b = self.y * &o.y;
            let c = P::COEFF_D * &self.t * &o.t;
            let d = self.z * &o.z;
            let h = b - &P::mul_by_a(&a);
            let e = (self.x + &self.y) * &(o.x + &o.y) - &a - &b;
            let f = d - &c;
            let g = d + &c;
            self.x = e * &f; self.y = g * &h; self.t = e * &h; self.z = f * &g;
        }
    }
    group_ops!(GroupProjective, TEModelParameters);
    impl<P: TEModelParameters> ProjectiveCurve for GroupProjective<P> {
        const COFACTOR: &'static [u64] = P::COFACTOR;
        type ScalarField = P::ScalarField;
        type BaseField = P::BaseField;
        type Affine = GroupAffine<P>;
        fn prime_subgroup_generator() -> Self { GroupAffine::prime_subgroup_generator().into() }
        fn is_normalized(&self) -> bool { self.z.is_one() }
        fn batch_normalization(v: &mut [Self]) { for p in v.iter_mut() { let a: GroupAffine<P> = (*p).into(); *p = a.into(); } }
        fn double_in_place(&mut self) -> &mut Self { let t = *self; *self += &t; self }
        fn add_assign_mixed(&mut self, o: &GroupAffine<P>) { let p = o.into_projective(); *self += &p; }
    }
    impl<P: TEModelParameters> AffineCurve for GroupAffine<P> {
        const COFACTOR: &'static [u64] = P::COFACTOR;
        type ScalarField = P::ScalarField;
        type BaseField = P::BaseField;
        type Projective = GroupProjective<P>;
        fn prime_subgroup_generator() -> Self { Self::new(P::AFFINE_GENERATOR_COEFFS.0, P::AFFINE_GENERATOR_COEFFS.1) }
        fn from_random_bytes(bytes: &[u8]) -> Option<Self> {
            P::BaseField::from_random_bytes_with_flags::<SWFlags>(bytes).and_then(|(x, f)| f.is_positive().and_then(|p| Self::get_point_from_x(x, p)))
        }
        fn mul_by_cofactor_to_projective(&self) -> GroupProjective<P> { self.scale_by_cofactor() }
        fn mul_by_cofactor_inv(&self) -> Self { self.into_projective().mul(cofactor_inverse::<P::ScalarField>(P::COFACTOR).into_repr()).into() }
    }
    impl<P: TEModelParameters> CanonicalSerialize for GroupAffine<P> {
        fn serialize<W: Write>(&self, w: W) -> Result<(), SerializationError> {
            if self.is_zero() { P::BaseField::zero().serialize_with_flags(w, SWFlags::infinity()) }
            else { self.x.serialize_with_flags(w, SWFlags::from_y_sign(self.y > -self.y)) }
        }
        fn serialized_size(&self) -> usize { self.x.serialized_size_with_flags::<SWFlags>() }
        fn serialize_uncompressed<W: Write>(&self, mut w: W) -> Result<(), SerializationError> { self.x.serialize_uncompressed(&mut w)?; self.y.serialize_uncompressed(&mut w) }
        fn uncompressed_size(&self) -> usize { self.x.serialized_size() * 2 }
    }
    impl<P: TEModelParameters> CanonicalDeserialize for GroupAffine<P> {
        fn deserialize<R: Read>(r: R) -> Result<Self, SerializationError> {
            let (x, f): (P::BaseField, SWFlags) = CanonicalDeserializeWithFlags::deserialize_with_flags(r)?;
            if x.is_zero() { Ok(Self::zero()) } else { Self::get_point_from_x(x, f.is_positive().unwrap_or(false)).ok_or(SerializationError::InvalidData) }
        }
    }
    impl<P: TEModelParameters> CanonicalSerialize for GroupProjective<P> {
        fn serialize<W: Write>(&self, w: W) -> Result<(), SerializationError> { GroupAffine::from(*self).serialize(w) }
        fn serialized_size(&self) -> usize { GroupAffine::from(*self).serialized_size() }
    }
    impl<P: TEModelParameters> CanonicalDeserialize for GroupProjective<P> {
        fn deserialize<R: Read>(r: R) -> Result<Self, SerializationError> { GroupAffine::deserialize(r).map(Into::into) }
    }
}

// ================================================================ msm
pub mod msm {
    use super::*;
    pub struct VariableBaseMSM;
    impl VariableBaseMSM {
        /// sum of scalars[i] * bases[i] over the shorter of the two slices
        pub fn multi_scalar_mul<G: AffineCurve>(bases: &[G], scalars: &[<G::ScalarField as PrimeField>::BigInt]) -> G::Projective {
            let mut acc = G::Projective::zero();
            for (b, s) in bases.iter().zip(scalars) { acc += &b.into_projective().mul(*s); }
            acc
        }
    }
    pub struct FixedBaseMSM;
    impl FixedBaseMSM {
        pub fn get_mul_window_size(num_scalars: usize) -> usize { if num_scalars < 32 { 3 } else { (ark_ln(num_scalars)) as usize } }
        pub fn get_window_table<T: ProjectiveCurve>(scalar_size: usize, window: usize, g: T) -> Vec<Vec<T::Affine>> {
            let outer = (scalar_size + window - 1) / window;
            let mut base = g;
            let mut out = vec![];
            for _ in 0..outer {
                let mut row = vec![T::zero()];
                for i in 1..(1usize << window) { let t = row[i - 1] + &base; row.push(t); }
                out.push(T::batch_normalization_into_affine(&row));
                for _ in 0..window { base.double_in_place(); }
            }
            out
        }
        pub fn windowed_mul<T: ProjectiveCurve>(outerc: usize, window: usize, table: &[Vec<T::Affine>], scalar: &T::ScalarField) -> T {
            let bits = scalar.into_repr().to_bits_le();
            let mut res = T::zero();
            for o in 0..outerc {
                let mut k = 0usize;
                for i in 0..window { if *bits.get(o * window + i).unwrap_or(&false) { k |= 1 << i; } }
                res.add_assign_mixed(&table[o][k]);
            }
            res
        }
        pub fn multi_scalar_mul<T: ProjectiveCurve>(scalar_size: usize, window: usize, table: &[Vec<T::Affine>], v: &[T::ScalarField]) -> Vec<T> {
            let outerc = (scalar_size + window - 1) / window;
            v.iter().map(|e| Self::windowed_mul::<T>(outerc, window, table, e)).collect()
        }
    }
    fn ark_ln(a: usize) -> usize { (crate::std_::log2(a) * 69 / 100) as usize }
}

// ================================================================ pairings
pub trait PairingEngine: Sized + 'static + Copy + Debug + Sync + Send + Eq + PartialEq {
    type Fr: PrimeField + SquareRootField + Into<<Self::Fr as PrimeField>::BigInt>;
    type G1Projective: ProjectiveCurve<BaseField = Self::Fq, ScalarField = Self::Fr, Affine = Self::G1Affine> + From<Self::G1Affine> + Into<Self::G1Affine> + MulAssign<Self::Fr>;
    type G1Affine: AffineCurve<BaseField = Self::Fq, ScalarField = Self::Fr, Projective = Self::G1Projective> + From<Self::G1Projective> + Into<Self::G1Projective> + Into<Self::G1Prepared>;
    type G1Prepared: ToBytes + Default + Clone + Send + Sync + Debug + From<Self::G1Affine>;
    type G2Projective: ProjectiveCurve<BaseField = Self::Fqe, ScalarField = Self::Fr, Affine = Self::G2Affine> + From<Self::G2Affine> + Into<Self::G2Affine> + MulAssign<Self::Fr>;
    type G2Affine: AffineCurve<BaseField = Self::Fqe, ScalarField = Self::Fr, Projective = Self::G2Projective> + From<Self::G2Projective> + Into<Self::G2Projective> + Into<Self::G2Prepared>;
    type G2Prepared: ToBytes + Default + Clone + Send + Sync + Debug + From<Self::G2Affine>;
    type Fq: PrimeField + SquareRootField;
    type Fqe: SquareRootField;
    type Fqk: Field;
    #[must_use]
    fn miller_loop<'a, I>(i: I) -> Self::Fqk where I: IntoIterator<Item = &'a (Self::G1Prepared, Self::G2Prepared)>;
    #[must_use]
    fn final_exponentiation(_: &Self::Fqk) -> Option<Self::Fqk>;
    #[must_use]
    fn product_of_pairings<'a, I>(i: I) -> Self::Fqk where I: IntoIterator<Item = &'a (Self::G1Prepared, Self::G2Prepared)> {
        Self::final_exponentiation(&Self::miller_loop(i)).unwrap()
    }
    #[must_use]
    fn pairing<G1: Into<Self::G1Affine>, G2: Into<Self::G2Affine>>(p: G1, q: G2) -> Self::Fqk {
        let g1 = Self::G1Prepared::from(p.into());
        let g2 = Self::G2Prepared::from(q.into());
        Self::product_of_pairings(std::iter::once(&(g1, g2)))
    }
}

pub mod models_bls12 {
    use super::*;
    use super::models::*;
    use super::short_weierstrass_jacobian::{GroupAffine, GroupProjective};
    pub enum TwistType { M, D }
    pub trait Bls12Parameters: 'static + Sized + Send + Sync {
        const X: &'static [u64];
        const X_IS_NEGATIVE: bool;
        const TWIST_TYPE: TwistType;
        type Fp: PrimeField + SquareRootField + Into<<Self::Fp as PrimeField>::BigInt>;
        type Fp2Params: QuadExtParameters<BasePrimeField = Self::Fp, BaseField = Self::Fp>;
        type Fp6Params: CubicExtParameters<BasePrimeField = Self::Fp, BaseField = Fp2<Self::Fp2Params>>;
        type Fp12Params: QuadExtParameters<BasePrimeField = Self::Fp, BaseField = CubicExtField<Self::Fp6Params>>;
        type G1Parameters: SWModelParameters<BaseField = Self::Fp>;
        type G2Parameters: SWModelParameters<BaseField = Fp2<Self::Fp2Params>, ScalarField = <Self::G1Parameters as ModelParameters>::ScalarField>;
    }
    pub type G1Affine<P> = GroupAffine<<P as Bls12Parameters>::G1Parameters>;
    pub type G1Projective<P> = GroupProjective<<P as Bls12Parameters>::G1Parameters>;
    pub type G2Affine<P> = GroupAffine<<P as Bls12Parameters>::G2Parameters>;
    pub type G2Projective<P> = GroupProjective<<P as Bls12Parameters>::G2Parameters>;
    pub type F2<P> = Fp2<<P as Bls12Parameters>::Fp2Params>;
    pub type F12<P> = QuadExtField<<P as Bls12Parameters>::Fp12Params>;

    pub struct G1Prepared<P: Bls12Parameters>(pub G1Affine<P>);
    pub struct G2Prepared<P: Bls12Parameters> { pub point: G2Affine<P>, pub ell_coeffs: Vec<(F2<P>, F2<P>)>, pub infinity: bool }
    impl<P: Bls12Parameters> Clone for G1Prepared<P> { fn clone(&self) -> Self { G1Prepared(self.0) } }
    impl<P: Bls12Parameters> Clone for G2Prepared<P> { fn clone(&self) -> Self { G2Prepared { point: self.point, ell_coeffs: self.ell_coeffs.clone(), infinity: self.infinity } } }
    impl<P: Bls12Parameters> Debug for G1Prepared<P> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{:?}", self.0) } }
    impl<P: Bls12Parameters> Debug for G2Prepared<P> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{:?}", self.point) } }
    impl<P: Bls12Parameters> Default for G1Prepared<P> { fn default() -> Self { G1Prepared(G1Affine::<P>::prime_subgroup_generator()) } }
    impl<P: Bls12Parameters> Default for G2Prepared<P> { fn default() -> Self { G2Affine::<P>::prime_subgroup_generator().into() } }
    impl<P: Bls12Parameters> ToBytes for G1Prepared<P> { fn write<W: Write>(&self, w: W) -> IoResult<()> { self.0.write(w) } }
    impl<P: Bls12Parameters> ToBytes for G2Prepared<P> { fn write<W: Write>(&self, w: W) -> IoResult<()> { self.point.write(w) } }
    impl<P: Bls12Parameters> From<G1Affine<P>> for G1Prepared<P> { fn from(p: G1Affine<P>) -> Self { G1Prepared(p) } }
    impl<P: Bls12Parameters> G1Prepared<P> { pub fn is_zero(&self) -> bool { self.0.is_zero() } }
    impl<P: Bls12Parameters> G2Prepared<P> { pub fn is_zero(&self) -> bool { self.infinity } }
    impl<P: Bls12Parameters> From<G2Affine<P>> for G2Prepared<P> {
        fn from(q: G2Affine<P>) -> Self {
            if q.is_zero() { return G2Prepared { point: q, ell_coeffs: vec![], infinity: true }; }
            let mut coeffs = vec![];
            let (mut tx, mut ty) = (q.x, q.y);
            let mut degenerate = false;
            let bits: Vec<bool> = BitIteratorBE::new(P::X).skip_while(|b| !b).skip(1).collect();
            let mut step = |tx: &mut F2<P>, ty: &mut F2<P>, ox: F2<P>, oy: F2<P>, dbl: bool| {
                let (num, den) = if dbl { let xx = tx.square(); (xx.double() + &xx, ty.double()) } else { (oy - &*ty, ox - &*tx) };
                match den.inverse() {
                    None => degenerate = true,
                    Some(di) => {
                        let l = num * &di;
                        // line value at (xp, yp): yp - l*xp * w + (l*tx - ty) * w^3
                        coeffs.push((-l, l * &*tx - &*ty));
                        let nx = l.square() - &*tx - &ox;
                        let ny = l * &(*tx - &nx) - &*ty;
                        *tx = nx; *ty = ny;
                    }
                }
            };
            for b in bits {
                let (cx, cy) = (tx, ty);
                step(&mut tx, &mut ty, cx, cy, true);
                if b { step(&mut tx, &mut ty, q.x, q.y, false); }
            }
            // a low-order (hence wrong-subgroup) point: no meaningful pairing value
            if degenerate { return G2Prepared { point: q, ell_coeffs: vec![], infinity: false }; }
            G2Prepared { point: q, ell_coeffs: coeffs, infinity: false }
        }
    }

    #[derive(Copy, Clone, PartialEq, Eq, Debug)]
    pub struct Bls12<P>(std::marker::PhantomData<fn() -> P>);

    fn frob1<P: Bls12Parameters>(f: &F12<P>) -> F12<P> {
        // a_i -> conj(a_i) * xi^(i(p-1)/6)
        let xi = P::Fp6Params::mul_by_nonresidue(&F2::<P>::one());
        let mut e = <P::Fp as PrimeField>::Params::MODULUS;
        e.sub_noborrow(&From::from(1u64));
        // divide by 6
        let mut rem = 0u128;
        for l in e.as_mut().iter_mut().rev() { let t = rem << 64 | *l as u128; *l = (t / 6) as u64; rem = t % 6; }
        let g = xi.pow(e);
        let conj = |x: &F2<P>| { let mut y = *x; y.conjugate(); y };
        let g2 = g * &g; let g3 = g2 * &g; let g4 = g3 * &g; let g5 = g4 * &g;
        let mut r = *f;
        r.c0.c0 = conj(&f.c0.c0);
        r.c1.c0 = conj(&f.c1.c0) * &g;
        r.c0.c1 = conj(&f.c0.c1) * &g2;
        r.c1.c1 = conj(&f.c1.c1) * &g3;
        r.c0.c2 = conj(&f.c0.c2) * &g4;
        r.c1.c2 = conj(&f.c1.c2) * &g5;
        r
    }
    impl<P: Bls12Parameters + Copy + Clone + PartialEq + Eq + Debug> PairingEngine for Bls12<P>
    where
        GroupProjective<P::G1Parameters>: MulAssign<<P::G1Parameters as ModelParameters>::ScalarField>,
    {
        type Fr = <P::G1Parameters as ModelParameters>::ScalarField;
        type G1Projective = G1Projective<P>;
        type G1Affine = G1Affine<P>;
        type G1Prepared = G1Prepared<P>;
        type G2Projective = G2Projective<P>;
        type G2Affine = G2Affine<P>;
        type G2Prepared = G2Prepared<P>;
        type Fq = P::Fp;
        type Fqe = F2<P>;
        type Fqk = F12<P>;
        fn miller_loop<'a, I>(i: I) -> Self::Fqk where I: IntoIterator<Item = &'a (Self::G1Prepared, Self::G2Prepared)> {
            crate::ec::counters::MILLER.with(|c| c.set(c.get() + 1));
            let pairs: Vec<_> = i.into_iter().filter(|(p, q)| !p.is_zero() && !q.is_zero()).collect();
            let mut f = F12::<P>::one();
            let mut idx = 0usize;
            let mut ell = |f: &mut F12<P>, idx: usize| {
                for (p, q) in pairs.iter() {
                    if let Some((a, b)) = q.ell_coeffs.get(idx) {
                        // sparse multiplication by l = yp + (a*xp) w + b v w
                        let y = p.0.y;
                        let mut a = *a;
                        a.mul_assign_by_basefield(&p.0.x);
                        let (a0, a1) = (f.c0, f.c1);
                        let scale = |x: &CubicExtField<P::Fp6Params>| { let mut r = *x; r.c0.mul_assign_by_basefield(&y); r.c1.mul_assign_by_basefield(&y); r.c2.mul_assign_by_basefield(&y); r };
                        // multiply a cubic element by (a + b v)
                        let m01 = |x: &CubicExtField<P::Fp6Params>| {
                            let c0 = x.c0 * &a + &P::Fp6Params::mul_by_nonresidue(&(x.c2 * b));
                            let c1 = x.c1 * &a + &(x.c0 * b);
                            let c2 = x.c2 * &a + &(x.c1 * b);
                            CubicExtField::<P::Fp6Params>::new(c0, c1, c2)
                        };
                        f.c0 = scale(&a0) + &P::Fp12Params::mul_by_nonresidue(&m01(&a1));
                        f.c1 = scale(&a1) + &m01(&a0);
                    }
                }
            };
            for b in BitIteratorBE::new(P::X).skip_while(|b| !b).skip(1) {
                f.square_in_place();
                ell(&mut f, idx);
                idx += 1;
                if b { ell(&mut f, idx); idx += 1; }
            }
            if P::X_IS_NEGATIVE { f.conjugate(); }
            f
        }
        fn final_exponentiation(f: &Self::Fqk) -> Option<Self::Fqk> {
            let inv = f.inverse()?;
            let mut c = *f;
            c.conjugate();
            let r = c * &inv; // f^(p^6-1)
            let r = frob1::<P>(&frob1::<P>(&r)) * &r; // ^(p^2+1)
            let exp_x = |g: &F12<P>| { let mut y = g.pow(P::X); if P::X_IS_NEGATIVE { y.conjugate(); } y };
            let conj = |g: &F12<P>| { let mut y = *g; y.conjugate(); y };
            // (x-1)^2 (x+p)(x^2+p^2-1) + 3
            let a = exp_x(&r) * &conj(&r);
            let a = exp_x(&a) * &conj(&a);
            let b = exp_x(&a) * &frob1::<P>(&a);
            let c = exp_x(&exp_x(&b)) * &frob1::<P>(&frob1::<P>(&b)) * &conj(&b);
            Some(c * &(r.square() * &r))
        }
    }
}
pub mod bls12 { pub use super::models_bls12::*; }

pub mod counters {
    use std::cell::Cell;
    thread_local! { pub static MILLER: Cell<u64> = Cell::new(0); }
}
