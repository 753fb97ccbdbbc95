use super::*;
use std::cmp::Ordering;

#[derive(Debug, Clone)]
pub struct AllocatedFp<F: PrimeField> { pub value: Option<F>, pub variable: Variable, pub cs: ConstraintSystemRef<F> }
#[derive(Debug, Clone)]
pub enum FpVar<F: PrimeField> { Constant(F), Var(AllocatedFp<F>) }
use FpVar::*;

impl<F: PrimeField> AllocatedFp<F> {
    pub fn new(value: Option<F>, variable: Variable, cs: ConstraintSystemRef<F>) -> Self { AllocatedFp { value, variable, cs } }
    pub fn from(b: Boolean<F>) -> Self {
        let cs = b.cs();
        let variable = cs.new_lc(b.lc()).unwrap();
        Self::new(b.value().ok().map(|b| F::from(b as u8)), variable, cs)
    }
    fn lin(&self, lc: LinearCombination<F>, value: Option<F>) -> Self {
        let variable = self.cs.new_lc(lc).unwrap();
        Self::new(value, variable, self.cs.clone())
    }
    pub fn mul(&self, o: &Self) -> Self {
        let p = Self::witness(self.cs.clone(), || Ok(self.value.get()? * &o.value.get()?)).unwrap();
        self.cs.enforce_constraint(lc!() + self.variable, lc!() + o.variable, lc!() + p.variable).unwrap();
        p
    }
    fn witness(cs: ConstraintSystemRef<F>, f: impl FnOnce() -> Result<F>) -> Result<Self> {
        let t = tamper::next(false);
        let mut value = None;
        let variable = cs.new_witness_variable(|| {
            // a value that the prover sets needs no honest one
            let mut v = match (&t, f()) { (Some(tamper::How::Set(_)), Err(_)) => F::zero(), (_, r) => r? };
            if let Some(h) = &t { v = tamper::apply(h, v, false); }
            tamper::record(|| v.into_repr().as_ref().to_vec());
            value = Some(v);
            Ok(v)
        })?;
        Ok(Self::new(value, variable, cs))
    }
}
impl<F: PrimeField> FpVar<F> {
    fn map2(&self, o: &Self, f: impl Fn(F, F) -> F, lc: impl Fn(LinearCombination<F>, LinearCombination<F>) -> LinearCombination<F>) -> Self {
        match (self, o) {
            (Constant(a), Constant(b)) => Constant(f(*a, *b)),
            _ => {
                let cs = self.cs().or(o.cs());
                let v = match (self.value(), o.value()) { (Ok(a), Ok(b)) => Some(f(a, b)), _ => None };
                let variable = cs.new_lc(lc(self.as_lc(), o.as_lc())).unwrap();
                Var(AllocatedFp::new(v, variable, cs))
            }
        }
    }
    pub fn as_lc(&self) -> LinearCombination<F> { match self { Constant(c) => lc!() + (*c, Variable::One), Var(v) => v.variable.into() } }
    fn vadd(&self, o: &Self) -> Self { self.map2(o, |a, b| a + &b, |a, b| a + b) }
    fn vsub(&self, o: &Self) -> Self { self.map2(o, |a, b| a - &b, |a, b| a - b) }
    fn vmul(&self, o: &Self) -> Self {
        match (self, o) {
            (Constant(a), Constant(b)) => Constant(*a * b),
            (Var(v), Constant(c)) | (Constant(c), Var(v)) => Var(v.lin(LinearCombination::from((*c, v.variable)), v.value.map(|x| x * c))),
            (Var(a), Var(b)) => Var(a.mul(b)),
        }
    }
    fn vaddc(&self, c: F) -> Self { self.vadd(&Constant(c)) }
    fn vsubc(&self, c: F) -> Self { self.vsub(&Constant(c)) }
    fn vmulc(&self, c: F) -> Self { self.vmul(&Constant(c)) }

    // ---- comparisons (ark_r1cs_std::fields::fp::cmp)
    pub fn enforce_cmp(&self, other: &FpVar<F>, ordering: Ordering, should_also_check_equality: bool) -> Result<()> {
        let (l, r) = self.process_cmp_inputs(other, ordering, should_also_check_equality)?;
        l.enforce_smaller_than(&r)
    }
    pub fn enforce_cmp_unchecked(&self, other: &FpVar<F>, ordering: Ordering, should_also_check_equality: bool) -> Result<()> {
        let (l, r) = self.process_cmp_inputs(other, ordering, should_also_check_equality)?;
        l.enforce_smaller_than_unchecked(&r)
    }
    pub fn is_cmp(&self, other: &FpVar<F>, ordering: Ordering, should_also_check_equality: bool) -> Result<Boolean<F>> {
        let (l, r) = self.process_cmp_inputs(other, ordering, should_also_check_equality)?;
        l.enforce_smaller_or_equal_than_mod_minus_one_div_two()?;
        r.enforce_smaller_or_equal_than_mod_minus_one_div_two()?;
        l.is_smaller_than_unchecked(&r)
    }
    pub fn is_cmp_unchecked(&self, other: &FpVar<F>, ordering: Ordering, should_also_check_equality: bool) -> Result<Boolean<F>> {
        let (l, r) = self.process_cmp_inputs(other, ordering, should_also_check_equality)?;
        l.is_smaller_than_unchecked(&r)
    }
    fn process_cmp_inputs(&self, other: &Self, ordering: Ordering, eq: bool) -> Result<(Self, Self)> {
        let (left, right) = match ordering {
            Ordering::Less => (self, other),
            Ordering::Greater => (other, self),
            Ordering::Equal => return Err(SynthesisError::Unsatisfiable),
        };
        let right = if eq { right + F::one() } else { right.clone() };
        Ok((left.clone(), right))
    }
    pub fn enforce_smaller_or_equal_than_mod_minus_one_div_two(&self) -> Result<()> {
        let _ = Boolean::enforce_smaller_or_equal_than_le(&self.to_non_unique_bits_le()?, F::modulus_minus_one_div_two())?;
        Ok(())
    }
    fn is_smaller_than_unchecked(&self, other: &FpVar<F>) -> Result<Boolean<F>> {
        Ok((self - other).double()?.to_bits_le()?.first().unwrap().clone())
    }
    fn enforce_smaller_than(&self, other: &FpVar<F>) -> Result<()> {
        self.enforce_smaller_or_equal_than_mod_minus_one_div_two()?;
        other.enforce_smaller_or_equal_than_mod_minus_one_div_two()?;
        self.enforce_smaller_than_unchecked(other)
    }
    fn enforce_smaller_than_unchecked(&self, other: &FpVar<F>) -> Result<()> {
        let b = self.is_smaller_than_unchecked(other)?;
        b.enforce_equal(&Boolean::TRUE)
    }
}
var_ops!([F: PrimeField], FpVar<F>, F);
impl<'a, F: PrimeField> FieldOpsBounds<'a, F, FpVar<F>> for FpVar<F> {}
impl<F: PrimeField> From<AllocatedFp<F>> for FpVar<F> { fn from(v: AllocatedFp<F>) -> Self { Var(v) } }
impl<F: PrimeField> From<Boolean<F>> for FpVar<F> {
    fn from(b: Boolean<F>) -> Self { if let Boolean::Constant(b) = b { Constant(F::from(b as u8)) } else { Var(AllocatedFp::from(b)) } }
}
impl<F: PrimeField> R1CSVar<F> for FpVar<F> {
    type Value = F;
    fn cs(&self) -> ConstraintSystemRef<F> { match self { Constant(_) => ConstraintSystemRef::None, Var(v) => v.cs.clone() } }
    fn value(&self) -> Result<F> { match self { Constant(c) => Ok(*c), Var(v) => v.value.get() } }
}
impl<F: PrimeField> AllocVar<F, F> for FpVar<F> {
    fn new_variable<T: Borrow<F>>(cs: impl Into<Namespace<F>>, f: impl FnOnce() -> Result<T>, mode: AllocationMode) -> Result<Self> {
        let ns = cs.into();
        let cs = ns.cs();
        match mode {
            AllocationMode::Constant => Ok(Constant(*f()?.borrow())),
            AllocationMode::Input => {
                let mut value = None;
                let t = tamper::next_input();
                let variable = cs.new_input_variable(|| { let mut v = *f()?.borrow(); if let Some(h) = &t { v = tamper::apply(h, v, false); } value = Some(v); Ok(v) })?;
                Ok(Var(AllocatedFp::new(value, variable, cs)))
            }
            AllocationMode::Witness => Ok(Var(AllocatedFp::witness(cs, || f().map(|x| *x.borrow()))?)),
        }
    }
}
impl<F: PrimeField> EqGadget<F> for FpVar<F> {
    fn is_eq(&self, o: &Self) -> Result<Boolean<F>> {
        match (self, o) {
            (Constant(a), Constant(b)) => Ok(Boolean::Constant(a == b)),
            _ => {
                let cs = self.cs().or(o.cs());
                let d = self - o;
                let neq = Boolean::new_witness(cs.clone(), || Ok(!d.value()?.is_zero()))?;
                let mult = AllocatedFp::witness(cs.clone(), || Ok(d.value()?.inverse().unwrap_or_else(F::one)))?;
                cs.enforce_constraint(d.as_lc(), lc!() + mult.variable, neq.lc())?;
                cs.enforce_constraint(d.as_lc(), neq.not().lc(), lc!())?;
                Ok(neq.not())
            }
        }
    }
    fn conditional_enforce_equal(&self, o: &Self, c: &Boolean<F>) -> Result<()> {
        match (self, o) {
            (Constant(a), Constant(b)) => {
                if a == b { Ok(()) } else { c.enforce_equal(&Boolean::Constant(false)) }
            }
            _ => self.cs().or(o.cs()).enforce_constraint(self.as_lc() - o.as_lc(), c.lc(), lc!()),
        }
    }
    fn conditional_enforce_not_equal(&self, o: &Self, c: &Boolean<F>) -> Result<()> {
        match (self, o) {
            (Constant(a), Constant(b)) => if a != b { Ok(()) } else { c.enforce_equal(&Boolean::Constant(false)) },
            _ => {
                let cs = self.cs().or(o.cs());
                let d = self - o;
                let mult = AllocatedFp::witness(cs.clone(), || if c.value()? { Ok(d.value()?.inverse().unwrap_or_else(F::zero)) } else { Ok(F::zero()) })?;
                cs.enforce_constraint(d.as_lc(), lc!() + mult.variable, c.lc())
            }
        }
    }
}
impl<F: PrimeField> CondSelectGadget<F> for FpVar<F> {
    fn conditionally_select(cond: &Boolean<F>, t: &Self, f: &Self) -> Result<Self> {
        match cond {
            Boolean::Constant(true) => Ok(t.clone()),
            Boolean::Constant(false) => Ok(f.clone()),
            _ => match (t, f) {
                (Constant(a), Constant(b)) => {
                    // cond * a + (1 - cond) * b
                    let c = FpVar::from(cond.clone());
                    Ok(&c * *a + (FpVar::one() - &c) * *b)
                }
                _ => {
                    let cs = cond.cs();
                    let r = AllocatedFp::witness(cs.clone(), || if cond.value()? { t.value() } else { f.value() })?;
                    cs.enforce_constraint(cond.lc(), t.as_lc() - f.as_lc(), lc!() + r.variable - f.as_lc())?;
                    Ok(Var(r))
                }
            },
        }
    }
}
impl<F: PrimeField> ToBitsGadget<F> for FpVar<F> {
    fn to_bits_le(&self) -> Result<Vec<Boolean<F>>> {
        let bits = self.to_non_unique_bits_le()?;
        if let Var(_) = self { Boolean::enforce_in_field_le(&bits)?; }
        Ok(bits)
    }
    fn to_non_unique_bits_le(&self) -> Result<Vec<Boolean<F>>> {
        let n = F::size_in_bits();
        match self {
            Constant(c) => Ok(BitIteratorLE::new(c.into_repr()).take(n).map(Boolean::constant).collect()),
            Var(v) => {
                let vals: Option<Vec<bool>> = v.value.map(|x| BitIteratorLE::new(x.into_repr()).take(n).collect());
                let mut bits = vec![];
                for i in 0..n { bits.push(Boolean::new_witness(v.cs.clone(), || vals.as_ref().map(|b| b[i]).get())?); }
                let mut lc = LinearCombination::zero();
                let mut c = F::one();
                for b in &bits { lc += b.lc() * c; c.double_in_place(); }
                v.cs.enforce_constraint(lc!(), lc!(), lc - v.variable)?;
                Ok(bits)
            }
        }
    }
}
impl<F: PrimeField> ToBytesGadget<F> for FpVar<F> {
    fn to_bytes(&self) -> Result<Vec<uints::UInt8<F>>> { Ok(bits_to_bytes(self.to_bits_le()?)) }
}
impl<F: PrimeField> FieldVar<F, F> for FpVar<F> {
    fn zero() -> Self { Constant(F::zero()) }
    fn one() -> Self { Constant(F::one()) }
    fn constant(v: F) -> Self { Constant(v) }
    fn mul_equals(&self, o: &Self, r: &Self) -> Result<()> {
        let cs = self.cs().or(o.cs()).or(r.cs());
        if cs.is_none() { return if self.value()? * &o.value()? == r.value()? { Ok(()) } else { Err(SynthesisError::Unsatisfiable) }; }
        cs.enforce_constraint(self.as_lc(), o.as_lc(), r.as_lc())
    }
    fn frobenius_map(&self, _power: usize) -> Result<Self> { Ok(self.clone()) }
    fn inverse(&self) -> Result<Self> {
        match self {
            Constant(c) => c.inverse().get().map(Constant),
            Var(v) => {
                let i = Var(AllocatedFp::witness(v.cs.clone(), || Ok(v.value.get()?.inverse().unwrap_or_else(F::zero)))?);
                self.mul_equals(&i, &Self::one())?;
                Ok(i)
            }
        }
    }
}
impl<'a, F: PrimeField> std::iter::Sum<&'a FpVar<F>> for FpVar<F> { fn sum<I: Iterator<Item = &'a FpVar<F>>>(i: I) -> Self { i.fold(Self::zero(), |a, b| a + b) } }
impl<F: PrimeField> std::iter::Sum<FpVar<F>> for FpVar<F> { fn sum<I: Iterator<Item = FpVar<F>>>(i: I) -> Self { i.fold(Self::zero(), |a, b| a + b) } }
impl<F: PrimeField> R1CSVar<F> for AllocatedFp<F> {
    type Value = F;
    fn cs(&self) -> ConstraintSystemRef<F> { self.cs.clone() }
    fn value(&self) -> Result<F> { self.value.get() }
}
impl<F: PrimeField> AllocVar<F, F> for AllocatedFp<F> {
    fn new_variable<T: Borrow<F>>(cs: impl Into<Namespace<F>>, f: impl FnOnce() -> Result<T>, mode: AllocationMode) -> Result<Self> {
        let ns = cs.into();
        let cs = ns.cs();
        match FpVar::new_variable(cs.clone(), f, mode)? {
            Var(v) => Ok(v),
            Constant(c) => { let variable = cs.new_lc(lc!() + (c, Variable::One))?; Ok(AllocatedFp::new(Some(c), variable, cs)) }
        }
    }
}
impl<F: PrimeField> AllocatedFp<F> {
    pub fn add(&self, o: &Self) -> Self { self.lin(lc!() + self.variable + o.variable, match (self.value, o.value) { (Some(a), Some(b)) => Some(a + &b), _ => None }) }
    pub fn sub(&self, o: &Self) -> Self { self.lin(lc!() + self.variable - o.variable, match (self.value, o.value) { (Some(a), Some(b)) => Some(a - &b), _ => None }) }
    pub fn double(&self) -> Result<Self> { Ok(self.add(self)) }
    pub fn negate(&self) -> Self { self.lin(lc!() - self.variable, self.value.map(|v| -v)) }
    pub fn mul_constant(&self, c: F) -> Self { self.lin(lc!() + (c, self.variable), self.value.map(|v| v * &c)) }
    pub fn add_constant(&self, c: F) -> Self { self.lin(lc!() + self.variable + (c, Variable::One), self.value.map(|v| v + &c)) }
    pub fn sub_constant(&self, c: F) -> Self { self.add_constant(-c) }
    pub fn square(&self) -> Result<Self> { Ok(AllocatedFp::mul(self, self)) }
}
