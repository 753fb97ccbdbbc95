use super::fields::fp::FpVar;
use super::fields::*;
use super::*;
use crate::ec::models::*;
use crate::ec::models_bls12::Bls12Parameters;
use crate::ec::short_weierstrass_jacobian::{GroupAffine as SWAffine, GroupProjective as SWProjective};
use crate::ec::{AffineCurve, ProjectiveCurve};
use std::marker::PhantomData;

pub trait GroupOpsBounds<'a, F, T: 'a>: Sized + Add<&'a T, Output = T> + Sub<&'a T, Output = T> + Add<T, Output = T> + Sub<T, Output = T> {}

pub trait CurveVar<C: ProjectiveCurve, ConstraintF: Field>:
    'static + Sized + Clone + Debug + R1CSVar<ConstraintF, Value = C> + ToBitsGadget<ConstraintF> + ToBytesGadget<ConstraintF> + EqGadget<ConstraintF> + CondSelectGadget<ConstraintF>
    + AllocVar<C, ConstraintF> + AllocVar<C::Affine, ConstraintF>
    + for<'a> GroupOpsBounds<'a, C, Self> + AddAssign<Self> + SubAssign<Self> + for<'a> AddAssign<&'a Self> + for<'a> SubAssign<&'a Self>
{
    fn constant(other: C) -> Self;
    fn zero() -> Self;
    fn is_zero(&self) -> Result<Boolean<ConstraintF>> { self.is_eq(&Self::zero()) }
    fn new_variable_omit_prime_order_check(cs: impl Into<Namespace<ConstraintF>>, f: impl FnOnce() -> Result<C>, mode: AllocationMode) -> Result<Self>;
    fn enforce_prime_order(&self) -> Result<()>;
    fn double(&self) -> Result<Self> { let mut r = self.clone(); r.double_in_place()?; Ok(r) }
    fn double_in_place(&mut self) -> Result<()>;
    fn negate(&self) -> Result<Self>;
    fn scalar_mul_le<'a>(&self, bits: impl Iterator<Item = &'a Boolean<ConstraintF>>) -> Result<Self> {
        let mut res = Self::zero();
        let mut multiple = self.clone();
        for bit in bits {
            if let Boolean::Constant(false) = bit { multiple.double_in_place()?; continue; }
            let tmp = res.clone() + &multiple;
            res = bit.select(&tmp, &res)?;
            multiple.double_in_place()?;
        }
        Ok(res)
    }
}

pub mod curves {
    pub mod short_weierstrass {
        pub use crate::r1cs_std::groups::{AffineVar, ProjectiveVar};
        pub mod bls12 { pub use crate::r1cs_std::groups::bls12::*; }
    }
    pub mod twisted_edwards { pub use crate::r1cs_std::groups::te::AffineVar; }
}

/// Homogeneous projective short Weierstrass point: (x/z, y/z)
pub struct ProjectiveVar<P: SWModelParameters, F: FieldVar<P::BaseField, <P::BaseField as Field>::BasePrimeField>> { pub x: F, pub y: F, pub z: F, _p: PhantomData<fn() -> P> }
pub struct AffineVar<P: SWModelParameters, F: FieldVar<P::BaseField, <P::BaseField as Field>::BasePrimeField>> { pub x: F, pub y: F, pub infinity: Boolean<<P::BaseField as Field>::BasePrimeField>, _p: PhantomData<fn() -> P> }
type BF<P> = <<P as ModelParameters>::BaseField as Field>::BasePrimeField;

impl<P: SWModelParameters, F: FieldVar<P::BaseField, BF<P>>> Clone for ProjectiveVar<P, F> { fn clone(&self) -> Self { Self::new(self.x.clone(), self.y.clone(), self.z.clone()) } }
impl<P: SWModelParameters, F: FieldVar<P::BaseField, BF<P>>> Debug for ProjectiveVar<P, F> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "ProjectiveVar({:?}, {:?}, {:?})", self.x, self.y, self.z) } }
impl<P: SWModelParameters, F: FieldVar<P::BaseField, BF<P>>> ProjectiveVar<P, F> {
    pub fn new(x: F, y: F, z: F) -> Self { ProjectiveVar { x, y, z, _p: PhantomData } }
    pub fn to_affine(&self) -> Result<AffineVar<P, F>> {
        let inf = CurveVar::<SWProjective<P>, BF<P>>::is_zero(self)?;
        let zero_x = F::zero();
        let zero_y = F::one();
        let z_inv = F::new_witness(self.cs(), || Ok(self.z.value()?.inverse().unwrap_or_else(P::BaseField::zero)))?;
        let one_or_zero = F::conditionally_select(&inf, &F::zero(), &F::one())?;
        z_inv.mul_equals(&self.z, &one_or_zero)?;
        let x = F::conditionally_select(&inf, &zero_x, &(self.x.clone() * &z_inv))?;
        let y = F::conditionally_select(&inf, &zero_y, &(self.y.clone() * &z_inv))?;
        Ok(AffineVar { x, y, infinity: inf, _p: PhantomData })
    }
    pub fn new_variable_omit_on_curve_check(cs: impl Into<Namespace<BF<P>>>, f: impl FnOnce() -> Result<SWProjective<P>>, mode: AllocationMode) -> Result<Self> {
        let ns = cs.into();
        let cs = ns.cs();
        let r: Result<(P::BaseField, P::BaseField, P::BaseField)> = f().map(|ge| {
            let ge = ge.into_affine();
            if crate::ff::Zero::is_zero(&ge) { (P::BaseField::zero(), P::BaseField::one(), P::BaseField::zero()) } else { (ge.x, ge.y, P::BaseField::one()) }
        });
        let x = F::new_variable(cs.clone(), || r.map(|t| t.0), mode)?;
        let y = F::new_variable(cs.clone(), || r.map(|t| t.1), mode)?;
        let z = F::new_variable(cs, || r.map(|t| t.2), mode)?;
        Ok(Self::new(x, y, z))
    }
    fn b3() -> P::BaseField { P::COEFF_B.double() + &P::COEFF_B }
    // Renes-Costello-Batina complete formulas for a = 0 (all the curves used here have a = 0)
    fn vadd(&self, o: &Self) -> Self {
        assert!(P::COEFF_A.is_zero());
        let (x1, y1, z1) = (&self.x, &self.y, &self.z);
        let (x2, y2, z2) = (&o.x, &o.y, &o.z);
        let b3 = Self::b3();
        let t0 = x1.clone() * x2;
        let t1 = y1.clone() * y2;
        let t2 = z1.clone() * z2;
        let t3 = (x1.clone() + y1) * (x2.clone() + y2) - &t0 - &t1; // X1Y2+X2Y1
        let t4 = (y1.clone() + z1) * (y2.clone() + z2) - &t1 - &t2; // Y1Z2+Y2Z1
        let y3 = (x1.clone() + z1) * (x2.clone() + z2) - &t0 - &t2; // X1Z2+X2Z1
        let t0 = t0.clone() + &t0 + &t0;
        let t2 = t2 * b3;
        let z3 = t1.clone() + &t2;
        let t1 = t1 - &t2;
        let y3 = y3 * b3;
        let x3 = t3.clone() * &t1 - &(t4.clone() * &y3);
        let yy = t1 * &z3 + &(y3 * &t0);
        let zz = z3 * &t4 + &(t0 * &t3);
        Self::new(x3, yy, zz)
    }
    fn vdbl(&self) -> Self {
        assert!(P::COEFF_A.is_zero());
        let (x, y, z) = (&self.x, &self.y, &self.z);
        let b3 = Self::b3();
        let t0 = y.square().unwrap();
        let z3 = t0.double().unwrap().double().unwrap().double().unwrap(); // 8Y^2
        let t1 = y.clone() * z;
        let t2 = z.square().unwrap() * b3;
        let x3 = t2.clone() * &z3;
        let y3 = t0.clone() + &t2;
        let z3 = t1 * &z3;
        let t2x3 = t2.double().unwrap() + &t2;
        let t0 = t0 - &t2x3;
        let y3 = x3 + &(t0.clone() * &y3);
        let x3 = (t0 * &(x.clone() * y)).double().unwrap();
        Self::new(x3, y3, z3)
    }
}
impl<P: SWModelParameters, F: FieldVar<P::BaseField, BF<P>>> R1CSVar<BF<P>> for ProjectiveVar<P, F> {
    type Value = SWProjective<P>;
    fn cs(&self) -> ConstraintSystemRef<BF<P>> { self.x.cs().or(self.y.cs()).or(self.z.cs()) }
    fn value(&self) -> Result<SWProjective<P>> {
        let (x, y, z) = (self.x.value()?, self.y.value()?, self.z.value()?);
        Ok(match z.inverse() { Some(i) => SWAffine::new(x * &i, y * &i, false), None => SWAffine::<P>::zero() }.into_projective())
    }
}
impl<P: SWModelParameters, F: FieldVar<P::BaseField, BF<P>>> EqGadget<BF<P>> for ProjectiveVar<P, F> {
    fn is_eq(&self, o: &Self) -> Result<Boolean<BF<P>>> {
        let xe = (self.x.clone() * &o.z).is_eq(&(o.x.clone() * &self.z))?;
        let ye = (self.y.clone() * &o.z).is_eq(&(o.y.clone() * &self.z))?;
        let coords = xe.and(&ye)?;
        let bz = self.z.is_zero()?.and(&o.z.is_zero()?)?;
        let nz = self.z.is_zero()?.or(&o.z.is_zero()?)?.not();
        // both at infinity, or neither and equal coordinates
        bz.or(&coords.and(&nz)?)
    }
    fn conditional_enforce_equal(&self, o: &Self, c: &Boolean<BF<P>>) -> Result<()> {
        self.is_eq(o)?.not().and(c)?.enforce_equal(&Boolean::Constant(false))
    }
    fn conditional_enforce_not_equal(&self, o: &Self, c: &Boolean<BF<P>>) -> Result<()> {
        self.is_eq(o)?.and(c)?.enforce_equal(&Boolean::Constant(false))
    }
}
impl<P: SWModelParameters, F: FieldVar<P::BaseField, BF<P>>> CondSelectGadget<BF<P>> for ProjectiveVar<P, F> {
    fn conditionally_select(c: &Boolean<BF<P>>, a: &Self, b: &Self) -> Result<Self> {
        Ok(Self::new(c.select(&a.x, &b.x)?, c.select(&a.y, &b.y)?, c.select(&a.z, &b.z)?))
    }
}
impl<P: SWModelParameters, F: FieldVar<P::BaseField, BF<P>>> ToBitsGadget<BF<P>> for ProjectiveVar<P, F> {
    fn to_bits_le(&self) -> Result<Vec<Boolean<BF<P>>>> {
        let g = self.to_affine()?;
        let mut b = g.x.to_bits_le()?;
        b.extend(g.y.to_bits_le()?);
        b.push(g.infinity);
        Ok(b)
    }
}
impl<P: SWModelParameters, F: FieldVar<P::BaseField, BF<P>>> ToBytesGadget<BF<P>> for ProjectiveVar<P, F> {
    fn to_bytes(&self) -> Result<Vec<uints::UInt8<BF<P>>>> {
        let g = self.to_affine()?;
        let mut b = g.x.to_bytes()?;
        b.extend(g.y.to_bytes()?);
        b.extend(g.infinity.to_bytes()?);
        Ok(b)
    }
}
impl<P: SWModelParameters, F: FieldVar<P::BaseField, BF<P>>> AllocVar<SWProjective<P>, BF<P>> for ProjectiveVar<P, F> {
    fn new_variable<T: Borrow<SWProjective<P>>>(cs: impl Into<Namespace<BF<P>>>, f: impl FnOnce() -> Result<T>, mode: AllocationMode) -> Result<Self> {
        let r = <Self as CurveVar<SWProjective<P>, BF<P>>>::new_variable_omit_prime_order_check(cs, || f().map(|b| *b.borrow()), mode)?;
        if mode == AllocationMode::Witness { <Self as CurveVar<SWProjective<P>, BF<P>>>::enforce_prime_order(&r)?; }
        Ok(r)
    }
}
impl<P: SWModelParameters, F: FieldVar<P::BaseField, BF<P>>> AllocVar<SWAffine<P>, BF<P>> for ProjectiveVar<P, F> {
    fn new_variable<T: Borrow<SWAffine<P>>>(cs: impl Into<Namespace<BF<P>>>, f: impl FnOnce() -> Result<T>, mode: AllocationMode) -> Result<Self> {
        <Self as AllocVar<SWProjective<P>, BF<P>>>::new_variable(cs, || f().map(|b| b.borrow().into_projective()), mode)
    }
}
macro_rules! gops {
    ($T:ident, $m:ident, $TA:ident, $ma:ident, |$a:ident, $b:ident| $e:expr) => {
        impl<P: SWModelParameters, F: FieldVar<P::BaseField, BF<P>>> $T<ProjectiveVar<P, F>> for ProjectiveVar<P, F> { type Output = Self; fn $m(self, o: Self) -> Self { let ($a, $b) = (&self, &o); $e } }
        impl<'a, P: SWModelParameters, F: FieldVar<P::BaseField, BF<P>>> $T<&'a ProjectiveVar<P, F>> for ProjectiveVar<P, F> { type Output = Self; fn $m(self, o: &'a Self) -> Self { let ($a, $b) = (&self, o); $e } }
        impl<'a, P: SWModelParameters, F: FieldVar<P::BaseField, BF<P>>> $T<&'a ProjectiveVar<P, F>> for &'a ProjectiveVar<P, F> { type Output = ProjectiveVar<P, F>; fn $m(self, o: &'a ProjectiveVar<P, F>) -> ProjectiveVar<P, F> { let ($a, $b) = (self, o); $e } }
        impl<P: SWModelParameters, F: FieldVar<P::BaseField, BF<P>>> $TA<ProjectiveVar<P, F>> for ProjectiveVar<P, F> { fn $ma(&mut self, o: Self) { let r = { let ($a, $b) = (&*self, &o); $e }; *self = r; } }
        impl<'a, P: SWModelParameters, F: FieldVar<P::BaseField, BF<P>>> $TA<&'a ProjectiveVar<P, F>> for ProjectiveVar<P, F> { fn $ma(&mut self, o: &'a Self) { let r = { let ($a, $b) = (&*self, o); $e }; *self = r; } }
    };
}
gops!(Add, add, AddAssign, add_assign, |a, b| a.vadd(b));
gops!(Sub, sub, SubAssign, sub_assign, |a, b| a.vadd(&<ProjectiveVar<P, F> as CurveVar<SWProjective<P>, BF<P>>>::negate(b).unwrap()));
macro_rules! gops_const {
    ($T:ident, $m:ident, $TA:ident, $ma:ident) => {
        impl<P: SWModelParameters, F: FieldVar<P::BaseField, BF<P>>> $T<SWProjective<P>> for ProjectiveVar<P, F> { type Output = Self; fn $m(self, o: SWProjective<P>) -> Self { let o = <Self as CurveVar<SWProjective<P>, BF<P>>>::constant(o); $T::$m(self, &o) } }
        impl<'a, P: SWModelParameters, F: FieldVar<P::BaseField, BF<P>>> $T<SWProjective<P>> for &'a ProjectiveVar<P, F> { type Output = ProjectiveVar<P, F>; fn $m(self, o: SWProjective<P>) -> ProjectiveVar<P, F> { let o = <ProjectiveVar<P, F> as CurveVar<SWProjective<P>, BF<P>>>::constant(o); $T::$m(self, &o) } }
        impl<'a, P: SWModelParameters, F: FieldVar<P::BaseField, BF<P>>> $T<ProjectiveVar<P, F>> for &'a ProjectiveVar<P, F> { type Output = ProjectiveVar<P, F>; fn $m(self, o: ProjectiveVar<P, F>) -> ProjectiveVar<P, F> { $T::$m(self, &o) } }
        impl<P: SWModelParameters, F: FieldVar<P::BaseField, BF<P>>> $TA<SWProjective<P>> for ProjectiveVar<P, F> { fn $ma(&mut self, o: SWProjective<P>) { let o = <Self as CurveVar<SWProjective<P>, BF<P>>>::constant(o); $TA::$ma(self, &o) } }
    };
}
gops_const!(Add, add, AddAssign, add_assign);
gops_const!(Sub, sub, SubAssign, sub_assign);
impl<'a, P: SWModelParameters, F: FieldVar<P::BaseField, BF<P>>> GroupOpsBounds<'a, SWProjective<P>, ProjectiveVar<P, F>> for ProjectiveVar<P, F> {}
impl<P: SWModelParameters, F: FieldVar<P::BaseField, BF<P>>> CurveVar<SWProjective<P>, BF<P>> for ProjectiveVar<P, F> {
    fn constant(g: SWProjective<P>) -> Self {
        let g = g.into_affine();
        if crate::ff::Zero::is_zero(&g) { CurveVar::<SWProjective<P>, BF<P>>::zero() } else { Self::new(F::constant(g.x), F::constant(g.y), F::one()) }
    }
    fn zero() -> Self { Self::new(F::zero(), F::one(), F::zero()) }
    fn is_zero(&self) -> Result<Boolean<BF<P>>> { self.z.is_zero() }
    fn new_variable_omit_prime_order_check(cs: impl Into<Namespace<BF<P>>>, f: impl FnOnce() -> Result<SWProjective<P>>, mode: AllocationMode) -> Result<Self> {
        let ns = cs.into();
        let cs = ns.cs();
        let g = Self::new_variable_omit_on_curve_check(cs, f, mode)?;
        if mode != AllocationMode::Constant {
            // Z * (Y^2 - bZ^2) = X * (X^2 + aZ^2)
            let x2 = g.x.square()?;
            let y2 = g.y.square()?;
            let z2 = g.z.square()?;
            let t = g.x.clone() * (x2 + z2.clone() * P::COEFF_A);
            g.z.mul_equals(&(y2 - z2 * P::COEFF_B), &t)?;
        }
        Ok(g)
    }
    fn enforce_prime_order(&self) -> Result<()> {
        // r*P == 0 via (r-1)*P == -P
        let mut m = <P::ScalarField as PrimeField>::Params::MODULUS;
        m.sub_noborrow(&From::from(1u64));
        let mut acc = self.clone();
        for b in BitIteratorBE::without_leading_zeros(m).skip(1).collect::<Vec<_>>() {
            acc = acc.vdbl();
            if b { acc = acc.vadd(self); }
        }
        let n = <Self as CurveVar<SWProjective<P>, BF<P>>>::negate(self)?;
        n.enforce_equal(&acc)
    }
    fn double_in_place(&mut self) -> Result<()> { *self = self.vdbl(); Ok(()) }
    fn negate(&self) -> Result<Self> { Ok(Self::new(self.x.clone(), self.y.negate()?, self.z.clone())) }
}

pub mod bls12 {
    use super::*;
    pub type G1Var<P> = ProjectiveVar<<P as Bls12Parameters>::G1Parameters, FpVar<<P as Bls12Parameters>::Fp>>;
    pub type G2Var<P> = ProjectiveVar<<P as Bls12Parameters>::G2Parameters, Fp2Var<<P as Bls12Parameters>::Fp2Params>>;
    pub struct G1PreparedVar<P: Bls12Parameters>(pub G1Var<P>);
    pub struct G2PreparedVar<P: Bls12Parameters>(pub G2Var<P>);
    impl<P: Bls12Parameters> Clone for G1PreparedVar<P> { fn clone(&self) -> Self { G1PreparedVar(self.0.clone()) } }
    impl<P: Bls12Parameters> Clone for G2PreparedVar<P> { fn clone(&self) -> Self { G2PreparedVar(self.0.clone()) } }
    impl<P: Bls12Parameters> Debug for G1PreparedVar<P> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{:?}", self.0) } }
    impl<P: Bls12Parameters> Debug for G2PreparedVar<P> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{:?}", self.0) } }
    impl<P: Bls12Parameters> G1PreparedVar<P> { pub fn from_group_var(g: &G1Var<P>) -> Result<Self> { Ok(G1PreparedVar(g.clone())) } }
    impl<P: Bls12Parameters> G2PreparedVar<P> { pub fn from_group_var(g: &G2Var<P>) -> Result<Self> { Ok(G2PreparedVar(g.clone())) } }
}

pub mod te {
    use super::*;
    use crate::ec::twisted_edwards_extended::{GroupAffine, GroupProjective};
    pub struct AffineVar<P: TEModelParameters, F: FieldVar<P::BaseField, <P::BaseField as Field>::BasePrimeField>> { pub x: F, pub y: F, _p: PhantomData<fn() -> P> }
    impl<P: TEModelParameters, F: FieldVar<P::BaseField, BF<P>>> Clone for AffineVar<P, F> { fn clone(&self) -> Self { Self::new(self.x.clone(), self.y.clone()) } }
    impl<P: TEModelParameters, F: FieldVar<P::BaseField, BF<P>>> Debug for AffineVar<P, F> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "te::AffineVar({:?}, {:?})", self.x, self.y) } }
    impl<P: TEModelParameters, F: FieldVar<P::BaseField, BF<P>>> AffineVar<P, F> { pub fn new(x: F, y: F) -> Self { AffineVar { x, y, _p: PhantomData } } }
    impl<P: TEModelParameters, F: FieldVar<P::BaseField, BF<P>>> R1CSVar<BF<P>> for AffineVar<P, F> {
        type Value = GroupProjective<P>;
        fn cs(&self) -> ConstraintSystemRef<BF<P>> { self.x.cs().or(self.y.cs()) }
        fn value(&self) -> Result<GroupProjective<P>> { Ok(GroupAffine::<P>::new(self.x.value()?, self.y.value()?).into_projective()) }
    }
    impl<P: TEModelParameters, F: FieldVar<P::BaseField, BF<P>>> EqGadget<BF<P>> for AffineVar<P, F> {
        fn is_eq(&self, o: &Self) -> Result<Boolean<BF<P>>> { self.x.is_eq(&o.x)?.and(&self.y.is_eq(&o.y)?) }
    }
}
