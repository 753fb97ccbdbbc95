use super::fields::fp::FpVar;
use super::*;

#[derive(Clone, Debug, Eq, PartialEq)]
pub struct AllocatedBool<F: Field> { pub variable: Variable, pub cs: ConstraintSystemRef<F>, pub val: Option<bool> }
pub type AllocatedBit<F> = AllocatedBool<F>;

fn b2f<F: Field>(b: bool) -> F { if b { F::one() } else { F::zero() } }

impl<F: Field> AllocatedBool<F> {
    pub fn value(&self) -> Result<bool> {
        match self.val {
            Some(b) => Ok(b),
            None => Err(SynthesisError::AssignmentMissing),
        }
    }
    pub fn variable(&self) -> Variable { self.variable }
    pub fn new_witness_without_booleanity_check<T: Borrow<bool>>(cs: ConstraintSystemRef<F>, f: impl FnOnce() -> Result<T>) -> Result<Self> {
        let t = tamper::next(true);
        let mut val = None;
        let variable = cs.new_witness_variable(|| {
            let mut b = *f()?.borrow();
            if t.is_some() { b = !b; tamper::note_applied(); }
            tamper::record(|| vec![b as u64]);
            val = Some(b);
            Ok(b2f(b))
        })?;
        Ok(AllocatedBool { variable, cs, val })
    }
    pub fn not(&self) -> Result<Self> {
        let variable = self.cs.new_lc(lc!() + Variable::One - self.variable)?;
        Ok(AllocatedBool { variable, cs: self.cs.clone(), val: self.val.map(|b| !b) })
    }
    pub fn and(&self, b: &Self) -> Result<Self> {
        let r = Self::new_witness_without_booleanity_check(self.cs.clone(), || Ok(self.value()? & b.value()?))?;
        self.cs.enforce_constraint(lc!() + self.variable, lc!() + b.variable, lc!() + r.variable)?;
        Ok(r)
    }
    pub fn xor(&self, b: &Self) -> Result<Self> {
        let r = Self::new_witness_without_booleanity_check(self.cs.clone(), || Ok(self.value()? ^ b.value()?))?;
        self.cs.enforce_constraint(lc!() + self.variable + self.variable, lc!() + b.variable, lc!() + self.variable + b.variable - r.variable)?;
        Ok(r)
    }
    pub fn or(&self, b: &Self) -> Result<Self> {
        let r = Self::new_witness_without_booleanity_check(self.cs.clone(), || Ok(self.value()? | b.value()?))?;
        self.cs.enforce_constraint(lc!() + Variable::One - self.variable, lc!() + Variable::One - b.variable, lc!() + Variable::One - r.variable)?;
        Ok(r)
    }
    pub fn and_not(&self, b: &Self) -> Result<Self> {
        let r = Self::new_witness_without_booleanity_check(self.cs.clone(), || Ok(self.value()? & !b.value()?))?;
        self.cs.enforce_constraint(lc!() + self.variable, lc!() + Variable::One - b.variable, lc!() + r.variable)?;
        Ok(r)
    }
    pub fn nor(&self, b: &Self) -> Result<Self> {
        let r = Self::new_witness_without_booleanity_check(self.cs.clone(), || Ok(!(self.value()? | b.value()?)))?;
        self.cs.enforce_constraint(lc!() + Variable::One - self.variable, lc!() + Variable::One - b.variable, lc!() + r.variable)?;
        Ok(r)
    }
}
impl<F: Field> AllocVar<bool, F> for AllocatedBool<F> {
    fn new_variable<T: Borrow<bool>>(cs: impl Into<Namespace<F>>, f: impl FnOnce() -> Result<T>, mode: AllocationMode) -> Result<Self> {
        let ns = cs.into();
        let cs = ns.cs();
        if mode == AllocationMode::Constant {
            let b = *f()?.borrow();
            let variable = if b { Variable::One } else { Variable::Zero };
            return Ok(AllocatedBool { variable, cs, val: Some(b) });
        }
        let r = if mode == AllocationMode::Input {
            let mut val = None;
            let _ = tamper::next_input();
            let variable = cs.new_input_variable(|| { let b = *f()?.borrow(); val = Some(b); Ok(b2f(b)) })?;
            AllocatedBool { variable, cs: cs.clone(), val }
        } else {
            Self::new_witness_without_booleanity_check(cs.clone(), f)?
        };
        cs.enforce_constraint(lc!() + Variable::One - r.variable, lc!() + r.variable, lc!())?;
        Ok(r)
    }
}

#[derive(Clone, Debug, Eq, PartialEq)]
pub enum Boolean<F: Field> { Is(AllocatedBool<F>), Not(AllocatedBool<F>), Constant(bool) }
use Boolean::*;

impl<F: Field> R1CSVar<F> for Boolean<F> {
    type Value = bool;
    fn cs(&self) -> ConstraintSystemRef<F> { match self { Is(a) | Not(a) => a.cs.clone(), Constant(_) => ConstraintSystemRef::None } }
    fn value(&self) -> Result<bool> { match self { Constant(c) => Ok(*c), Is(v) => v.value(), Not(v) => v.value().map(|b| !b) } }
}
impl<F: Field> From<AllocatedBool<F>> for Boolean<F> { fn from(b: AllocatedBool<F>) -> Self { Is(b) } }

impl<F: Field> Boolean<F> {
    pub const TRUE: Self = Constant(true);
    pub const FALSE: Self = Constant(false);
    pub fn constant(b: bool) -> Self { Constant(b) }
    pub fn constant_vec_from_bytes(v: &[u8]) -> Vec<Self> { v.iter().flat_map(|b| (0..8).map(move |i| Constant(b >> i & 1 == 1))).collect() }
    pub fn lc(&self) -> LinearCombination<F> {
        match self {
            Constant(true) => lc!() + Variable::One,
            Constant(false) => lc!(),
            Is(v) => v.variable.into(),
            Not(v) => lc!() + Variable::One - v.variable,
        }
    }
    pub fn not(&self) -> Self { match self { Constant(c) => Constant(!c), Is(v) => Not(v.clone()), Not(v) => Is(v.clone()) } }
    pub fn xor<'a>(&'a self, o: &'a Self) -> Result<Self> {
        match (self, o) {
            (Constant(false), x) | (x, Constant(false)) => Ok(x.clone()),
            (Constant(true), x) | (x, Constant(true)) => Ok(x.not()),
            (is @ Is(_), not @ Not(_)) | (not @ Not(_), is @ Is(_)) => Ok(is.xor(&not.not())?.not()),
            (Is(a), Is(b)) | (Not(a), Not(b)) => Ok(Is(a.xor(b)?)),
        }
    }
    pub fn or<'a>(&'a self, o: &'a Self) -> Result<Self> {
        match (self, o) {
            (Constant(false), x) | (x, Constant(false)) => Ok(x.clone()),
            (Constant(true), _) | (_, Constant(true)) => Ok(Constant(true)),
            (a @ Is(_), b @ Not(_)) | (b @ Not(_), a @ Is(_)) | (b @ Not(_), a @ Not(_)) => Ok(a.not().and(&b.not())?.not()),
            (Is(a), Is(b)) => a.or(b).map(From::from),
        }
    }
    pub fn and<'a>(&'a self, o: &'a Self) -> Result<Self> {
        match (self, o) {
            (Constant(false), _) | (_, Constant(false)) => Ok(Constant(false)),
            (Constant(true), x) | (x, Constant(true)) => Ok(x.clone()),
            (Is(is), Not(not)) | (Not(not), Is(is)) => Ok(Is(is.and_not(not)?)),
            (Not(a), Not(b)) => Ok(Is(a.nor(b)?)),
            (Is(a), Is(b)) => Ok(Is(a.and(b)?)),
        }
    }
    pub fn kary_and(bits: &[Self]) -> Result<Self> {
        assert!(!bits.is_empty());
        let mut cur: Option<Self> = None;
        for b in bits { cur = if let Some(c) = cur { Some(c.and(b)?) } else { Some(b.clone()) }; }
        Ok(cur.expect("should not be 0"))
    }
    pub fn kary_or(bits: &[Self]) -> Result<Self> {
        assert!(!bits.is_empty());
        let mut cur: Option<Self> = None;
        for b in bits { cur = if let Some(c) = cur { Some(c.or(b)?) } else { Some(b.clone()) }; }
        Ok(cur.expect("should not be 0"))
    }
    pub fn kary_nand(bits: &[Self]) -> Result<Self> { Ok(Self::kary_and(bits)?.not()) }
    pub fn enforce_kary_nand(bits: &[Self]) -> Result<()> where F: PrimeField { Self::kary_nand(bits)?.enforce_equal(&Constant(true)) }
    pub fn enforce_in_field_le(bits: &[Self]) -> Result<()> where F: PrimeField {
        let mut b = <F::Params as FpParameters>::MODULUS;
        assert_eq!(b.as_ref()[0] % 2, 1);
        b.as_mut()[0] -= 1;
        let run = Self::enforce_smaller_or_equal_than_le(bits, b)?;
        assert!(run.is_empty());
        Ok(())
    }
    pub fn enforce_smaller_or_equal_than_le<'a>(bits: &[Self], element: impl AsRef<[u64]>) -> Result<Vec<Self>> where F: PrimeField {
        let b: Vec<u64> = element.as_ref().to_vec();
        let mut bits_iter = bits.iter().rev();
        let mut last_run = Constant(true);
        let mut current_run: Vec<Self> = vec![];
        let n = BitIteratorBE::without_leading_zeros(b.clone()).count();
        if bits.len() > n {
            let mut or_result = Constant(false);
            for z in &bits[n..] {
                or_result = or_result.or(z)?;
                let _ = bits_iter.next().unwrap();
            }
            or_result.enforce_equal(&Constant(false))?;
        }
        for (b, a) in BitIteratorBE::without_leading_zeros(b).zip(bits_iter.by_ref()) {
            if b {
                current_run.push(a.clone());
            } else {
                if !current_run.is_empty() {
                    current_run.push(last_run.clone());
                    last_run = Self::kary_and(&current_run)?;
                    current_run.truncate(0);
                }
                Self::enforce_kary_nand(&[last_run.clone(), a.clone()])?;
            }
        }
        assert!(bits_iter.next().is_none());
        Ok(current_run)
    }
    pub fn select<T: CondSelectGadget<F>>(&self, first: &T, second: &T) -> Result<T> { T::conditionally_select(self, first, second) }
    pub fn le_bits_to_fp_var(bits: &[Self]) -> Result<FpVar<F>> where F: PrimeField {
        let mut acc = FpVar::<F>::Constant(F::zero());
        let mut c = F::one();
        for b in bits { acc = acc + FpVar::from(b.clone()) * c; c.double_in_place(); }
        Ok(acc)
    }
}
impl<F: Field> AllocVar<bool, F> for Boolean<F> {
    fn new_variable<T: Borrow<bool>>(cs: impl Into<Namespace<F>>, f: impl FnOnce() -> Result<T>, mode: AllocationMode) -> Result<Self> {
        if mode == AllocationMode::Constant { Ok(Constant(*f()?.borrow())) } else { AllocatedBool::new_variable(cs, f, mode).map(Is) }
    }
}
impl<F: Field> EqGadget<F> for Boolean<F> {
    fn is_eq(&self, o: &Self) -> Result<Boolean<F>> { Ok(self.xor(o)?.not()) }
    fn conditional_enforce_equal(&self, o: &Self, c: &Boolean<F>) -> Result<()> {
        let d = match (self, o) {
            (Constant(a), Constant(b)) if a == b => return Ok(()),
            (Constant(_), Constant(_)) => match c {
                // two different constants: only acceptable when not enforced
                Constant(true) => return Err(SynthesisError::AssignmentMissing),
                _ => self.lc() - o.lc(),
            },
            _ => self.lc() - o.lc(),
        };
        if *c != Constant(false) {
            let cs = self.cs().or(o.cs()).or(c.cs());
            cs.enforce_constraint(d, c.lc(), lc!())?;
        }
        Ok(())
    }
    fn conditional_enforce_not_equal(&self, o: &Self, c: &Boolean<F>) -> Result<()> {
        let d = match (self, o) {
            (Constant(a), Constant(b)) if a != b => return Ok(()),
            (Constant(_), Constant(_)) => return Err(SynthesisError::AssignmentMissing),
            _ => self.lc() + o.lc() - Variable::One,
        };
        if *c != Constant(false) {
            let cs = self.cs().or(o.cs()).or(c.cs());
            cs.enforce_constraint(d, c.lc(), lc!())?;
        }
        Ok(())
    }
}
impl<F: Field> ToBitsGadget<F> for Boolean<F> { fn to_bits_le(&self) -> Result<Vec<Boolean<F>>> { Ok(vec![self.clone()]) } }
impl<F: Field> ToBytesGadget<F> for Boolean<F> { fn to_bytes(&self) -> Result<Vec<uints::UInt8<F>>> { Ok(bits_to_bytes(vec![self.clone()])) } }
impl<F: PrimeField> CondSelectGadget<F> for Boolean<F> {
    fn conditionally_select(cond: &Boolean<F>, t: &Self, f: &Self) -> Result<Self> {
        match cond {
            Constant(true) => Ok(t.clone()),
            Constant(false) => Ok(f.clone()),
            cond => match (t, f) {
                (Constant(false), x) => cond.not().and(x),
                (x, Constant(false)) => cond.and(x),
                (Constant(true), x) => cond.or(x),
                (x, Constant(true)) => cond.not().or(x),
                (a, b) => {
                    let cs = cond.cs();
                    let r = AllocatedBool::new_witness_without_booleanity_check(cs.clone(), || if cond.value()? { a.value() } else { b.value() })?;
                    // cond * (a - b) = r - b
                    cs.enforce_constraint(cond.lc(), a.lc() - b.lc(), lc!() + r.variable - b.lc())?;
                    Ok(Is(r))
                }
            },
        }
    }
}
