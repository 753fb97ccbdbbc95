use super::fields::fp::FpVar;
use super::fields::*;
use super::groups::CurveVar;
use super::*;
use crate::ec::{PairingEngine, ProjectiveCurve};

pub trait PairingVar<E: PairingEngine, ConstraintF: Field = <<E as PairingEngine>::Fq as Field>::BasePrimeField> {
    type G1Var: CurveVar<E::G1Projective, ConstraintF> + AllocVar<E::G1Projective, ConstraintF> + AllocVar<E::G1Affine, ConstraintF>;
    type G2Var: CurveVar<E::G2Projective, ConstraintF> + AllocVar<E::G2Projective, ConstraintF> + AllocVar<E::G2Affine, ConstraintF>;
    type GTVar: FieldVar<E::Fqk, ConstraintF>;
    type G1PreparedVar: Clone + Debug;
    type G2PreparedVar: Clone + Debug;
    fn miller_loop(p: &[Self::G1PreparedVar], q: &[Self::G2PreparedVar]) -> Result<Self::GTVar>;
    fn final_exponentiation(p: &Self::GTVar) -> Result<Self::GTVar>;
    fn pairing(p: Self::G1PreparedVar, q: Self::G2PreparedVar) -> Result<Self::GTVar> { let t = Self::miller_loop(&[p], &[q])?; Self::final_exponentiation(&t) }
    fn product_of_pairings(p: &[Self::G1PreparedVar], q: &[Self::G2PreparedVar]) -> Result<Self::GTVar> { let t = Self::miller_loop(p, q)?; Self::final_exponentiation(&t) }
    fn prepare_g1(q: &Self::G1Var) -> Result<Self::G1PreparedVar>;
    fn prepare_g2(q: &Self::G2Var) -> Result<Self::G2PreparedVar>;
}

/// Target group variable: the coordinates of the extension field element as prime field variables.
/// Products and the final exponentiation are ideal (computed natively, outputs bound to inputs).
#[derive(Clone, Debug)]
pub struct GTVar<K: Field> { pub coords: Vec<FpVar<K::BasePrimeField>>, pub val: Option<K> }
impl<K: Field> GTVar<K> {
    fn of(cs: ConstraintSystemRef<K::BasePrimeField>, val: Option<K>) -> Result<Self> {
        let n = K::extension_degree() as usize;
        let c = val.map(|v| v.coords());
        if cs.is_none() { return Ok(GTVar { coords: c.get()?.into_iter().map(FpVar::Constant).collect(), val }); }
        let coords = tamper::exempt(|| (0..n).map(|i| FpVar::new_witness(cs.clone(), || c.as_ref().map(|c| c[i]).get())).collect::<Result<Vec<_>>>())?;
        Ok(GTVar { coords, val })
    }
    fn vars(&self) -> Vec<Variable> { self.coords.iter().filter_map(|c| if let FpVar::Var(v) = c { Some(v.variable) } else { None }).collect() }
    fn op(&self, o: &Self, tag: &str, f: impl Fn(K, K) -> K) -> Self {
        let cs = self.cs().or(o.cs());
        let val = match (self.val, o.val) { (Some(a), Some(b)) => Some(f(a, b)), _ => None };
        let mut vs = self.vars();
        vs.extend(o.vars());
        cs.ideal_gate(tag, &vs, &[]);
        Self::of(cs, val).unwrap()
    }
    fn vadd(&self, o: &Self) -> Self { self.op(o, "gt-add", |a, b| a + b) }
    fn vsub(&self, o: &Self) -> Self { self.op(o, "gt-sub", |a, b| a - b) }
    fn vmul(&self, o: &Self) -> Self { self.op(o, "gt-mul", |a, b| a * b) }
    fn vaddc(&self, o: K) -> Self { self.vadd(&Self::constant(o)) }
    fn vsubc(&self, o: K) -> Self { self.vsub(&Self::constant(o)) }
    fn vmulc(&self, o: K) -> Self { self.vmul(&Self::constant(o)) }
}
macro_rules! gt_ops {
    ($T:ident, $m:ident, $TA:ident, $ma:ident, $i:ident, $ic:ident) => {
        impl<K: Field> $T<GTVar<K>> for GTVar<K> { type Output = Self; fn $m(self, o: Self) -> Self { self.$i(&o) } }
        impl<'a, K: Field> $T<&'a GTVar<K>> for GTVar<K> { type Output = Self; fn $m(self, o: &'a Self) -> Self { self.$i(o) } }
        impl<K: Field> $T<K> for GTVar<K> { type Output = Self; fn $m(self, o: K) -> Self { self.$ic(o) } }
        impl<K: Field> $TA<GTVar<K>> for GTVar<K> { fn $ma(&mut self, o: Self) { *self = self.$i(&o) } }
        impl<'a, K: Field> $TA<&'a GTVar<K>> for GTVar<K> { fn $ma(&mut self, o: &'a Self) { *self = self.$i(o) } }
        impl<K: Field> $TA<K> for GTVar<K> { fn $ma(&mut self, o: K) { *self = self.$ic(o) } }
    };
}
gt_ops!(Add, add, AddAssign, add_assign, vadd, vaddc);
gt_ops!(Sub, sub, SubAssign, sub_assign, vsub, vsubc);
gt_ops!(Mul, mul, MulAssign, mul_assign, vmul, vmulc);
impl<'a, K: Field> FieldOpsBounds<'a, K, GTVar<K>> for GTVar<K> {}
impl<K: Field> From<Boolean<K::BasePrimeField>> for GTVar<K> {
    fn from(b: Boolean<K::BasePrimeField>) -> Self {
        let mut r = <Self as FieldVar<K, K::BasePrimeField>>::zero();
        r.val = b.value().ok().map(|b| if b { K::one() } else { K::zero() });
        r.coords[0] = b.into();
        r
    }
}
impl<K: Field> R1CSVar<K::BasePrimeField> for GTVar<K> {
    type Value = K;
    fn cs(&self) -> ConstraintSystemRef<K::BasePrimeField> { self.coords[..].cs() }
    fn value(&self) -> Result<K> { self.val.get() }
}
impl<K: Field> EqGadget<K::BasePrimeField> for GTVar<K> {
    fn is_eq(&self, o: &Self) -> Result<Boolean<K::BasePrimeField>> { self.coords[..].is_eq(&o.coords[..]) }
    fn conditional_enforce_equal(&self, o: &Self, c: &Boolean<K::BasePrimeField>) -> Result<()> { self.coords[..].conditional_enforce_equal(&o.coords[..], c) }
}
impl<K: Field> ToBitsGadget<K::BasePrimeField> for GTVar<K> { fn to_bits_le(&self) -> Result<Vec<Boolean<K::BasePrimeField>>> { let mut v = vec![]; for c in &self.coords { v.extend(c.to_bits_le()?); } Ok(v) } }
impl<K: Field> ToBytesGadget<K::BasePrimeField> for GTVar<K> { fn to_bytes(&self) -> Result<Vec<uints::UInt8<K::BasePrimeField>>> { let mut v = vec![]; for c in &self.coords { v.extend(c.to_bytes()?); } Ok(v) } }
impl<K: Field> CondSelectGadget<K::BasePrimeField> for GTVar<K> {
    fn conditionally_select(c: &Boolean<K::BasePrimeField>, a: &Self, b: &Self) -> Result<Self> {
        let coords = a.coords.iter().zip(&b.coords).map(|(a, b)| FpVar::conditionally_select(c, a, b)).collect::<Result<Vec<_>>>()?;
        let val = c.value().ok().and_then(|c| if c { a.val } else { b.val });
        Ok(GTVar { coords, val })
    }
}
impl<K: Field> AllocVar<K, K::BasePrimeField> for GTVar<K> {
    fn new_variable<T: Borrow<K>>(cs: impl Into<Namespace<K::BasePrimeField>>, f: impl FnOnce() -> Result<T>, mode: AllocationMode) -> Result<Self> {
        let ns = cs.into();
        let cs = ns.cs();
        let v = f().map(|v| *v.borrow());
        let c = v.map(|v| v.coords());
        let coords = (0..K::extension_degree() as usize).map(|i| FpVar::new_variable(cs.clone(), || c.as_ref().map(|c| c[i]).map_err(|e| *e), mode)).collect::<Result<Vec<_>>>()?;
        Ok(GTVar { coords, val: v.ok() })
    }
}
impl<K: Field> FieldVar<K, K::BasePrimeField> for GTVar<K> {
    fn zero() -> Self { Self::constant(K::zero()) }
    fn one() -> Self { Self::constant(K::one()) }
    fn constant(v: K) -> Self { GTVar { coords: v.coords().into_iter().map(FpVar::Constant).collect(), val: Some(v) } }
    fn frobenius_map(&self, power: usize) -> Result<Self> {
        self.cs().ideal_gate("gt-frob", &self.vars(), &[power as u64]);
        Self::of(self.cs(), self.val.map(|mut v| { v.frobenius_map(power); v }))
    }
    fn inverse(&self) -> Result<Self> {
        self.cs().ideal_gate("gt-inv", &self.vars(), &[]);
        if let Some(v) = self.val { if v.is_zero() { self.cs().ideal_failure("inverse of zero in the target group".into()); } }
        Self::of(self.cs(), self.val.map(|v| v.inverse().unwrap_or_else(K::zero)))
    }
}

pub mod bls12 {
    use super::*;
    use crate::ec::models_bls12::{Bls12, Bls12Parameters, F12};
    use crate::r1cs_std::groups::bls12::*;
    pub struct PairingVar<P: Bls12Parameters>(std::marker::PhantomData<P>);
    impl<P: Bls12Parameters + Copy + Eq + Debug> super::PairingVar<Bls12<P>, P::Fp> for PairingVar<P>
    where
        Bls12<P>: PairingEngine<
            Fq = P::Fp, Fqk = F12<P>,
            G1Projective = crate::ec::models_bls12::G1Projective<P>, G2Projective = crate::ec::models_bls12::G2Projective<P>,
            G1Affine = crate::ec::models_bls12::G1Affine<P>, G2Affine = crate::ec::models_bls12::G2Affine<P>,
        >,
        <Bls12<P> as PairingEngine>::G1Prepared: From<crate::ec::models_bls12::G1Affine<P>>,
        <Bls12<P> as PairingEngine>::G2Prepared: From<crate::ec::models_bls12::G2Affine<P>>,
    {
        type G1Var = G1Var<P>;
        type G2Var = G2Var<P>;
        type GTVar = GTVar<F12<P>>;
        type G1PreparedVar = G1PreparedVar<P>;
        type G2PreparedVar = G2PreparedVar<P>;
        fn miller_loop(p: &[Self::G1PreparedVar], q: &[Self::G2PreparedVar]) -> Result<Self::GTVar> {
            let mut cs = ConstraintSystemRef::None;
            let mut vars = vec![];
            let mut push = |v: &FpVar<P::Fp>| if let FpVar::Var(v) = v { vars.push(v.variable) } else { vars.push(Variable::Zero) };
            for (p, q) in p.iter().zip(q) {
                for v in [&p.0.x, &p.0.y, &p.0.z, &q.0.x.c0, &q.0.x.c1, &q.0.y.c0, &q.0.y.c1, &q.0.z.c0, &q.0.z.c1] { push(v); }
                cs = cs.or(p.0.cs()).or(q.0.cs());
            }
            cs.ideal_gate("miller", &vars, &[p.len() as u64, q.len() as u64]);
            let vals: Option<Vec<_>> = p.iter().zip(q).map(|(p, q)| {
                Some((p.0.value().ok()?.into_affine().into(), q.0.value().ok()?.into_affine().into()))
            }).collect();
            GTVar::of(cs, vals.map(|v| Bls12::<P>::miller_loop(v.iter())))
        }
        fn final_exponentiation(p: &Self::GTVar) -> Result<Self::GTVar> {
            p.cs().ideal_gate("finalexp", &p.vars(), &[]);
            let v = p.val.map(|v| Bls12::<P>::final_exponentiation(&v).unwrap_or_else(F12::<P>::zero));
            GTVar::of(p.cs(), v)
        }
        fn prepare_g1(q: &Self::G1Var) -> Result<Self::G1PreparedVar> { Ok(G1PreparedVar(q.clone())) }
        fn prepare_g2(q: &Self::G2Var) -> Result<Self::G2PreparedVar> { Ok(G2PreparedVar(q.clone())) }
    }
}
