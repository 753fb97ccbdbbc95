use super::*;
pub mod fp;
pub use fp::FpVar;
pub use quad::{Fp2Var, QuadExtVar};
pub mod fp2 { pub use super::quad::Fp2Var; }
pub mod quadratic_extension { pub use super::quad::QuadExtVar; }

pub trait FieldOpsBounds<'a, F, T: 'a>:
    Sized + Add<&'a T, Output = T> + Sub<&'a T, Output = T> + Mul<&'a T, Output = T> + Add<T, Output = T> + Sub<T, Output = T> + Mul<T, Output = T>
    + Add<F, Output = T> + Sub<F, Output = T> + Mul<F, Output = T>
{
}
pub trait FieldVar<F: Field, ConstraintF: Field>:
    'static + Clone + Debug + From<Boolean<ConstraintF>> + R1CSVar<ConstraintF, Value = F> + EqGadget<ConstraintF> + ToBitsGadget<ConstraintF>
    + AllocVar<F, ConstraintF> + ToBytesGadget<ConstraintF> + CondSelectGadget<ConstraintF>
    + for<'a> FieldOpsBounds<'a, F, Self>
    + for<'a> AddAssign<&'a Self> + for<'a> SubAssign<&'a Self> + for<'a> MulAssign<&'a Self>
    + AddAssign<Self> + SubAssign<Self> + MulAssign<Self> + AddAssign<F> + SubAssign<F> + MulAssign<F>
{
    fn zero() -> Self;
    fn is_zero(&self) -> Result<Boolean<ConstraintF>> { self.is_eq(&Self::zero()) }
    fn one() -> Self;
    fn is_one(&self) -> Result<Boolean<ConstraintF>> { self.is_eq(&Self::one()) }
    fn constant(v: F) -> Self;
    fn double(&self) -> Result<Self> { let mut r = self.clone(); r += self; Ok(r) }
    fn double_in_place(&mut self) -> Result<&mut Self> { *self = self.double()?; Ok(self) }
    fn negate(&self) -> Result<Self> { Ok(Self::zero() - self) }
    fn negate_in_place(&mut self) -> Result<&mut Self> { *self = self.negate()?; Ok(self) }
    fn square(&self) -> Result<Self> { let mut r = self.clone(); r *= self; Ok(r) }
    fn square_in_place(&mut self) -> Result<&mut Self> { *self = self.square()?; Ok(self) }
    fn mul_equals(&self, other: &Self, result: &Self) -> Result<()> { let mut r = self.clone(); r *= other; result.enforce_equal(&r) }
    fn square_equals(&self, result: &Self) -> Result<()> { self.mul_equals(self, result) }
    fn inverse(&self) -> Result<Self>;
    fn frobenius_map(&self, power: usize) -> Result<Self>;
    fn frobenius_map_in_place(&mut self, power: usize) -> Result<&mut Self> { *self = self.frobenius_map(power)?; Ok(self) }
    /// self^exp for a little-endian exponent of Booleans
    fn pow_le(&self, exp: &[Boolean<ConstraintF>]) -> Result<Self> {
        let mut res = Self::one();
        let mut power = self.clone();
        for bit in exp {
            let tmp = res.clone() * &power;
            res = bit.select(&tmp, &res)?;
            power.square_in_place()?;
        }
        Ok(res)
    }
    fn pow_by_constant<S: AsRef<[u64]>>(&self, exp: S) -> Result<Self> {
        let mut res = Self::one();
        for b in BitIteratorBE::without_leading_zeros(exp.as_ref().to_vec()) {
            res.square_in_place()?;
            if b { res *= self; }
        }
        Ok(res)
    }
    fn mul_by_inverse(&self, d: &Self) -> Result<Self> {
        let i = d.inverse()?;
        let mut r = self.clone();
        r *= &i;
        Ok(r)
    }
}

macro_rules! var_ops {
    ([$($g:tt)*], $t:ty, $f:ty) => {
        var_ops!(@ [$($g)*], $t, $f, Add, add, AddAssign, add_assign, vadd, vaddc);
        var_ops!(@ [$($g)*], $t, $f, Sub, sub, SubAssign, sub_assign, vsub, vsubc);
        var_ops!(@ [$($g)*], $t, $f, Mul, mul, MulAssign, mul_assign, vmul, vmulc);
    };
    (@ [$($g:tt)*], $t:ty, $f:ty, $T:ident, $m:ident, $TA:ident, $ma:ident, $i:ident, $ic:ident) => {
        impl<$($g)*> $T<$t> for $t { type Output = $t; fn $m(self, o: $t) -> $t { self.$i(&o) } }
        impl<'a, $($g)*> $T<&'a $t> for $t { type Output = $t; fn $m(self, o: &'a $t) -> $t { self.$i(o) } }
        impl<'a, $($g)*> $T<$t> for &'a $t { type Output = $t; fn $m(self, o: $t) -> $t { self.$i(&o) } }
        impl<'a, 'b, $($g)*> $T<&'b $t> for &'a $t { type Output = $t; fn $m(self, o: &'b $t) -> $t { self.$i(o) } }
        impl<$($g)*> $T<$f> for $t { type Output = $t; fn $m(self, o: $f) -> $t { self.$ic(o) } }
        impl<'a, $($g)*> $T<$f> for &'a $t { type Output = $t; fn $m(self, o: $f) -> $t { self.$ic(o) } }
        impl<$($g)*> $TA<$t> for $t { fn $ma(&mut self, o: $t) { *self = self.$i(&o) } }
        impl<'a, $($g)*> $TA<&'a $t> for $t { fn $ma(&mut self, o: &'a $t) { *self = self.$i(o) } }
        impl<$($g)*> $TA<$f> for $t { fn $ma(&mut self, o: $f) { *self = self.$ic(o) } }
    };
}
pub(crate) use var_ops;

pub mod quad {
    use super::*;
    /// Quadratic extension of a prime field that is also the constraint field
    pub struct QuadExtVar<P: QuadExtParameters<BaseField = F, BasePrimeField = F>, F: PrimeField> { pub c0: FpVar<F>, pub c1: FpVar<F>, _p: std::marker::PhantomData<fn() -> P> }
    impl<P: QuadExtParameters<BaseField = F, BasePrimeField = F>, F: PrimeField> Debug for QuadExtVar<P, F> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "({:?}, {:?})", self.c0, self.c1) } }
    pub type Fp2Var<P> = QuadExtVar<P, <P as QuadExtParameters>::BasePrimeField>;
    impl<P: QuadExtParameters<BaseField = F, BasePrimeField = F>, F: PrimeField> Clone for QuadExtVar<P, F> { fn clone(&self) -> Self { Self::new(self.c0.clone(), self.c1.clone()) } }
    impl<P: QuadExtParameters<BaseField = F, BasePrimeField = F>, F: PrimeField> QuadExtVar<P, F> {
        pub fn new(c0: FpVar<F>, c1: FpVar<F>) -> Self { QuadExtVar { c0, c1, _p: std::marker::PhantomData } }
        fn nr() -> F { P::mul_by_nonresidue(&F::one()) }
        fn vadd(&self, o: &Self) -> Self { Self::new(&self.c0 + &o.c0, &self.c1 + &o.c1) }
        fn vsub(&self, o: &Self) -> Self { Self::new(&self.c0 - &o.c0, &self.c1 - &o.c1) }
        fn vmul(&self, o: &Self) -> Self {
            let v0 = &self.c0 * &o.c0;
            let v1 = &self.c1 * &o.c1;
            let c1 = (&self.c0 + &self.c1) * (&o.c0 + &o.c1) - &v0 - &v1;
            Self::new(v0 + v1 * Self::nr(), c1)
        }
        fn vaddc(&self, o: QuadExtField<P>) -> Self { Self::new(&self.c0 + o.c0, &self.c1 + o.c1) }
        fn vsubc(&self, o: QuadExtField<P>) -> Self { Self::new(&self.c0 - o.c0, &self.c1 - o.c1) }
        fn vmulc(&self, o: QuadExtField<P>) -> Self { self.vmul(&Self::constant(o)) }
    }
    var_ops!([P: QuadExtParameters<BaseField = F, BasePrimeField = F>, F: PrimeField], QuadExtVar<P, F>, QuadExtField<P>);
    impl<'a, P: QuadExtParameters<BaseField = F, BasePrimeField = F>, F: PrimeField> FieldOpsBounds<'a, QuadExtField<P>, QuadExtVar<P, F>> for QuadExtVar<P, F> {}
    impl<P: QuadExtParameters<BaseField = F, BasePrimeField = F>, F: PrimeField> From<Boolean<F>> for QuadExtVar<P, F> { fn from(b: Boolean<F>) -> Self { Self::new(b.into(), FpVar::zero()) } }
    impl<P: QuadExtParameters<BaseField = F, BasePrimeField = F>, F: PrimeField> R1CSVar<F> for QuadExtVar<P, F> {
        type Value = QuadExtField<P>;
        fn cs(&self) -> ConstraintSystemRef<F> { self.c0.cs().or(self.c1.cs()) }
        fn value(&self) -> Result<QuadExtField<P>> { Ok(QuadExtField::new(self.c0.value()?, self.c1.value()?)) }
    }
    impl<P: QuadExtParameters<BaseField = F, BasePrimeField = F>, F: PrimeField> EqGadget<F> for QuadExtVar<P, F> {
        fn is_eq(&self, o: &Self) -> Result<Boolean<F>> { self.c0.is_eq(&o.c0)?.and(&self.c1.is_eq(&o.c1)?) }
        fn conditional_enforce_equal(&self, o: &Self, c: &Boolean<F>) -> Result<()> { self.c0.conditional_enforce_equal(&o.c0, c)?; self.c1.conditional_enforce_equal(&o.c1, c) }
        fn conditional_enforce_not_equal(&self, o: &Self, c: &Boolean<F>) -> Result<()> { self.is_eq(o)?.and(c)?.enforce_equal(&Boolean::Constant(false)) }
    }
    impl<P: QuadExtParameters<BaseField = F, BasePrimeField = F>, F: PrimeField> ToBitsGadget<F> for QuadExtVar<P, F> { fn to_bits_le(&self) -> Result<Vec<Boolean<F>>> { let mut b = self.c0.to_bits_le()?; b.extend(self.c1.to_bits_le()?); Ok(b) } }
    impl<P: QuadExtParameters<BaseField = F, BasePrimeField = F>, F: PrimeField> ToBytesGadget<F> for QuadExtVar<P, F> { fn to_bytes(&self) -> Result<Vec<uints::UInt8<F>>> { let mut b = self.c0.to_bytes()?; b.extend(self.c1.to_bytes()?); Ok(b) } }
    impl<P: QuadExtParameters<BaseField = F, BasePrimeField = F>, F: PrimeField> CondSelectGadget<F> for QuadExtVar<P, F> {
        fn conditionally_select(c: &Boolean<F>, a: &Self, b: &Self) -> Result<Self> { Ok(Self::new(FpVar::conditionally_select(c, &a.c0, &b.c0)?, FpVar::conditionally_select(c, &a.c1, &b.c1)?)) }
    }
    impl<P: QuadExtParameters<BaseField = F, BasePrimeField = F>, F: PrimeField> AllocVar<QuadExtField<P>, F> for QuadExtVar<P, F> {
        fn new_variable<T: Borrow<QuadExtField<P>>>(cs: impl Into<Namespace<F>>, f: impl FnOnce() -> Result<T>, mode: AllocationMode) -> Result<Self> {
            let ns = cs.into();
            let cs = ns.cs();
            let v = f().map(|x| *x.borrow());
            let c0 = FpVar::new_variable(cs.clone(), || v.map(|v| v.c0), mode)?;
            let c1 = FpVar::new_variable(cs, || v.map(|v| v.c1), mode)?;
            Ok(Self::new(c0, c1))
        }
    }
    impl<P: QuadExtParameters<BaseField = F, BasePrimeField = F>, F: PrimeField> FieldVar<QuadExtField<P>, F> for QuadExtVar<P, F> {
        fn zero() -> Self { Self::new(FpVar::zero(), FpVar::zero()) }
        fn one() -> Self { Self::new(FpVar::one(), FpVar::zero()) }
        fn constant(v: QuadExtField<P>) -> Self { Self::new(FpVar::Constant(v.c0), FpVar::Constant(v.c1)) }
        fn frobenius_map(&self, power: usize) -> Result<Self> { Ok(if power % 2 == 0 { self.clone() } else { Self::new(self.c0.clone(), self.c1.negate()?) }) }
        fn inverse(&self) -> Result<Self> {
            if self.is_constant() { return self.value()?.inverse().get().map(Self::constant); }
            let i = Self::new_witness(self.cs(), || Ok(self.value()?.inverse().unwrap_or_else(Zero::zero)))?;
            self.mul_equals(&i, &Self::one())?;
            Ok(i)
        }
        fn square(&self) -> Result<Self> {
            // c0' = (c0 - c1)(c0 - nr c1) + v2 + nr v2, c1' = 2 v2, v2 = c0 c1
            let v2 = &self.c0 * &self.c1;
            let v0 = (&self.c0 - &self.c1) * (&self.c0 - &(&self.c1 * Self::nr()));
            let c0 = v0 + &v2 + &v2 * Self::nr();
            let c1 = &v2 + &v2;
            Ok(Self::new(c0, c1))
        }
        fn mul_equals(&self, o: &Self, r: &Self) -> Result<()> {
            let v1 = &self.c1 * &o.c1;
            let nv1 = &v1 * Self::nr();
            let v0 = &r.c0 - &nv1;
            self.c0.mul_equals(&o.c0, &v0)?;
            (&self.c0 + &self.c1).mul_equals(&(&o.c0 + &o.c1), &(&r.c1 + &v0 + &v1))
        }
    }
}
