//! ark_relations
use crate::ff::*;

#[macro_export]
macro_rules! lc {
    () => { $crate::relations::r1cs::LinearCombination::zero() };
}
#[macro_export]
macro_rules! ns {
    ($cs:expr, $name:expr) => {{ let _ = $name; $crate::relations::r1cs::Namespace::from($cs.clone()) }};
}
#[macro_export]
macro_rules! info_span { ($($t:tt)*) => {{}}; }

pub mod r1cs {
    use super::*;
    pub use crate::{lc, ns};
    pub use crate::ff::{Field, ToBytes};
    use std::cell::{Cell, RefCell};
    use std::collections::HashMap;
    use std::fmt;
    use std::ops::*;
    use std::rc::Rc;

    #[derive(PartialEq, Eq, Clone, Copy, Debug)]
    pub enum SynthesisError {
        MissingCS, AssignmentMissing, DivisionByZero, Unsatisfiable, PolynomialDegreeTooLarge, UnexpectedIdentity, MalformedVerifyingKey, UnconstrainedVariable,
    }
    impl std::error::Error for SynthesisError {}
    impl fmt::Display for SynthesisError { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{:?}", self) } }
    pub type Result<T> = std::result::Result<T, SynthesisError>;

    #[derive(Copy, Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
    pub enum Variable { Zero, One, Instance(usize), Witness(usize), SymbolicLc(LcIndex) }
    #[derive(Copy, Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
    pub struct LcIndex(pub usize);
    impl Variable {
        pub fn is_zero(&self) -> bool { matches!(self, Variable::Zero) }
        pub fn is_one(&self) -> bool { matches!(self, Variable::One) }
        pub fn is_instance(&self) -> bool { matches!(self, Variable::Instance(_)) }
        pub fn is_witness(&self) -> bool { matches!(self, Variable::Witness(_)) }
        pub fn is_lc(&self) -> bool { matches!(self, Variable::SymbolicLc(_)) }
    }

    #[derive(Debug, Clone, PartialEq, Eq, Default)]
    pub struct LinearCombination<F: Field>(pub Vec<(F, Variable)>);
    impl<F: Field> LinearCombination<F> {
        pub fn new() -> Self { LinearCombination(vec![]) }
        pub fn zero() -> Self { Self::new() }
        pub fn compactify(&mut self) {
            self.0.sort_by_key(|e| e.1);
            let mut out: Vec<(F, Variable)> = vec![];
            for (c, v) in self.0.drain(..) {
                match out.last_mut() { Some(l) if l.1 == v => l.0 += &c, _ => out.push((c, v)) }
            }
            self.0 = out;
        }
        pub fn is_empty(&self) -> bool { self.0.is_empty() }
        pub fn len(&self) -> usize { self.0.len() }
        pub fn iter(&self) -> std::slice::Iter<'_, (F, Variable)> { self.0.iter() }
    }
    impl<F: Field> From<Variable> for LinearCombination<F> { fn from(v: Variable) -> Self { LinearCombination(vec![(F::one(), v)]) } }
    impl<F: Field> From<(F, Variable)> for LinearCombination<F> { fn from(v: (F, Variable)) -> Self { LinearCombination(vec![v]) } }
    macro_rules! lcop {
        ($R:ty, |$s:ident, $o:ident| $add:expr, $sub:expr) => {
            impl<F: Field> Add<$R> for LinearCombination<F> { type Output = Self; fn add(mut self, $o: $R) -> Self { { let $s = &mut self; $add; } self } }
            impl<F: Field> AddAssign<$R> for LinearCombination<F> { fn add_assign(&mut self, $o: $R) { let $s = self; $add; } }
            impl<F: Field> Sub<$R> for LinearCombination<F> { type Output = Self; fn sub(mut self, $o: $R) -> Self { { let $s = &mut self; $sub; } self } }
            impl<F: Field> SubAssign<$R> for LinearCombination<F> { fn sub_assign(&mut self, $o: $R) { let $s = self; $sub; } }
        };
    }
    lcop!(Variable, |s, o| s.0.push((F::one(), o)), s.0.push((-F::one(), o)));
    lcop!((F, Variable), |s, o| s.0.push(o), s.0.push((-o.0, o.1)));
    lcop!(LinearCombination<F>, |s, o| s.0.extend(o.0), s.0.extend(o.0.into_iter().map(|(c, v)| (-c, v))));
    lcop!((F, LinearCombination<F>), |s, o| { let (k, l) = o; s.0.extend(l.0.into_iter().map(|(c, v)| (c * &k, v))) }, { let (k, l) = o; s.0.extend(l.0.into_iter().map(|(c, v)| (-(c * &k), v))) });
    impl<'a, F: Field> Add<&'a LinearCombination<F>> for LinearCombination<F> { type Output = Self; fn add(mut self, o: &'a Self) -> Self { self.0.extend(o.0.iter().cloned()); self } }
    impl<'a, F: Field> Sub<&'a LinearCombination<F>> for LinearCombination<F> { type Output = Self; fn sub(mut self, o: &'a Self) -> Self { self.0.extend(o.0.iter().map(|(c, v)| (-*c, *v))); self } }
    impl<'a, F: Field> AddAssign<&'a LinearCombination<F>> for LinearCombination<F> { fn add_assign(&mut self, o: &'a Self) { self.0.extend(o.0.iter().cloned()); } }
    impl<'a, F: Field> AddAssign<(F, &'a LinearCombination<F>)> for LinearCombination<F> { fn add_assign(&mut self, o: (F, &'a Self)) { self.0.extend((o.1).0.iter().map(|(c, v)| (*c * &o.0, *v))); } }
    impl<'a, F: Field> Add<(F, &'a LinearCombination<F>)> for LinearCombination<F> { type Output = Self; fn add(mut self, o: (F, &'a Self)) -> Self { self += o; self } }
    impl<F: Field> Neg for LinearCombination<F> { type Output = Self; fn neg(mut self) -> Self { for t in self.0.iter_mut() { t.0 = -t.0; } self } }
    impl<F: Field> Mul<F> for LinearCombination<F> { type Output = Self; fn mul(mut self, f: F) -> Self { for t in self.0.iter_mut() { t.0 *= &f; } self } }
    impl<F: Field> MulAssign<F> for LinearCombination<F> { fn mul_assign(&mut self, f: F) { for t in self.0.iter_mut() { t.0 *= &f; } } }

    pub trait ConstraintSynthesizer<F: Field> {
        fn generate_constraints(self, cs: ConstraintSystemRef<F>) -> Result<()>;
    }
    #[derive(Copy, Clone, Debug, PartialEq, Eq)]
    pub enum SynthesisMode { Setup, Prove { construct_matrices: bool } }
    #[derive(Copy, Clone, Debug, PartialEq, Eq)]
    pub enum OptimizationGoal { None, Constraints, Weight }

    pub type Matrix<F> = Vec<Vec<(F, usize)>>;
    #[derive(Debug, Clone, PartialEq, Eq)]
    pub struct ConstraintMatrices<F: Field> {
        pub num_instance_variables: usize, pub num_witness_variables: usize, pub num_constraints: usize,
        pub a_num_non_zero: usize, pub b_num_non_zero: usize, pub c_num_non_zero: usize,
        pub a: Matrix<F>, pub b: Matrix<F>, pub c: Matrix<F>,
    }

    // ------------------------------------------------------------ witness tampering (harness hook)
    /// Replaces the values of chosen witnesses while the circuit is synthesised, so a harness can
    /// play a prover that lies about some witness and is honest about everything computed from it.
    pub mod tamper {
        use std::cell::{Cell, RefCell};
        #[derive(Clone, Debug)]
        pub enum How { Flip, Add(u64), Sub(u64), Zero, One, Neg, HalfModulus, SubHalf, AddHalf, Random(u64), Pow2(u32, u64), Set(Vec<u64>) }
        #[derive(Clone, Debug)]
        pub struct Plan { pub at: Vec<(usize, How)> }
        thread_local! {
            pub static PLAN: RefCell<Option<Plan>> = RefCell::new(None);
            pub static COUNT: Cell<usize> = Cell::new(0);
            pub static EXEMPT: Cell<usize> = Cell::new(0);
            pub static APPLIED: Cell<usize> = Cell::new(0);
            pub static BOOLS: RefCell<Vec<bool>> = RefCell::new(vec![]);
            static TRACE: RefCell<Option<Vec<Vec<u64>>>> = RefCell::new(None);
            static INPUTS: RefCell<Vec<(usize, How)>> = RefCell::new(vec![]);
            static INPUT_COUNT: Cell<usize> = Cell::new(0);
        }
        /// record the value of every tamperable witness
        pub fn trace(on: bool) { TRACE.with(|t| *t.borrow_mut() = if on { Some(vec![]) } else { None }); }
        pub fn traced() -> Vec<Vec<u64>> { TRACE.with(|t| t.borrow_mut().take().unwrap_or_default()) }
        pub fn record(v: impl FnOnce() -> Vec<u64>) {
            if EXEMPT.with(|e| e.get()) > 0 { return; }
            TRACE.with(|t| if let Some(t) = t.borrow_mut().as_mut() { t.push(v()); });
        }
        /// other values for chosen public inputs (counted from the first one allocated); reset() clears them
        pub fn set_inputs(v: Vec<(usize, How)>) { INPUTS.with(|i| *i.borrow_mut() = v); }
        pub fn next_input() -> Option<How> {
            let k = INPUT_COUNT.with(|c| { let v = c.get(); c.set(v + 1); v });
            INPUTS.with(|i| i.borrow().iter().find(|(j, _)| *j == k).map(|(_, h)| h.clone()))
        }
        pub fn reset(plan: Option<Plan>) {
            PLAN.with(|p| *p.borrow_mut() = plan);
            COUNT.with(|c| c.set(0));
            EXEMPT.with(|c| c.set(0));
            APPLIED.with(|c| c.set(0));
            BOOLS.with(|c| c.borrow_mut().clear());
            INPUTS.with(|i| i.borrow_mut().clear());
            INPUT_COUNT.with(|c| c.set(0));
        }
        pub fn count() -> usize { COUNT.with(|c| c.get()) }
        pub fn applied() -> usize { APPLIED.with(|c| c.get()) }
        /// which tamperable witnesses (by index) were Booleans in the last synthesis
        pub fn bools() -> Vec<bool> { BOOLS.with(|c| c.borrow().clone()) }
        /// runs f with witness allocation not counted and not tampered (ideal sub-gadgets)
        pub fn exempt<T>(f: impl FnOnce() -> T) -> T {
            EXEMPT.with(|e| e.set(e.get() + 1));
            let r = f();
            EXEMPT.with(|e| e.set(e.get() - 1));
            r
        }
        pub fn next(is_bool: bool) -> Option<How> {
            if EXEMPT.with(|e| e.get()) > 0 { return None; }
            let k = COUNT.with(|c| { let v = c.get(); c.set(v + 1); v });
            BOOLS.with(|c| c.borrow_mut().push(is_bool));
            PLAN.with(|p| p.borrow().as_ref().and_then(|pl| pl.at.iter().find(|(i, _)| *i == k).map(|(_, h)| h.clone())))
        }
        pub fn note_applied() { APPLIED.with(|c| c.set(c.get() + 1)); }
        pub fn apply<F: crate::ff::PrimeField>(how: &How, v: F, is_bool: bool) -> F {
            use crate::ff::*;
            let half = F::from_repr(F::modulus_minus_one_div_two()).unwrap();
            note_applied();
            if is_bool { return F::one() - v; }
            match how {
                How::Flip => F::one() - v,
                How::Add(k) => v + F::from(*k),
                How::Sub(k) => v - F::from(*k),
                How::Zero => F::zero(),
                How::One => F::one(),
                How::Neg => -v,
                How::HalfModulus => half,
                How::SubHalf => v - half,
                How::AddHalf => v + half,
                How::Pow2(k, m) => { let mut t = F::from(*m); for _ in 0..*k { t.double_in_place(); } v + t }
                How::Set(l) => { let mut r = F::BigInt::default(); for (a, b) in r.as_mut().iter_mut().zip(l) { *a = *b; } F::from_repr(r).unwrap() }
                How::Random(s) => F::from(*s).pow(&[0x1234567u64, *s]) + F::from(*s),
            }
        }
    }

    // ------------------------------------------------------------ structure hash
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub struct StructHash(pub u64, pub u64);
    impl StructHash {
        fn new() -> Self { StructHash(0x9e3779b97f4a7c15, 0xc2b2ae3d27d4eb4f) }
        #[inline]
        pub fn mix(&mut self, v: u64) {
            self.0 = (self.0 ^ v).wrapping_mul(0x9fb21c651e98df25).rotate_left(29);
            self.1 = (self.1.wrapping_add(v)).wrapping_mul(0xd6e8feb86659fd93).rotate_left(31) ^ self.0;
        }
    }

    #[derive(Debug, Clone)]
    pub struct ConstraintSystem<F: Field> {
        pub num_instance_variables: usize,
        pub num_witness_variables: usize,
        pub num_constraints: usize,
        pub num_linear_combinations: usize,
        pub optimization_goal: OptimizationGoal,
        pub instance_assignment: Vec<F>,
        pub witness_assignment: Vec<F>,
        pub mode: SynthesisMode,
        pub lcs: Vec<LinearCombination<F>>,
        pub constraints: Vec<(usize, usize, usize)>,
        pub ideal_failures: Vec<String>,
        pub shape: StructHash,
    }
    impl<F: Field> Default for ConstraintSystem<F> { fn default() -> Self { Self::new() } }
    impl<F: Field> ConstraintSystem<F> {
        pub fn new() -> Self {
            ConstraintSystem {
                num_instance_variables: 1, num_witness_variables: 0, num_constraints: 0, num_linear_combinations: 0,
                optimization_goal: OptimizationGoal::Constraints,
                instance_assignment: vec![F::one()], witness_assignment: vec![],
                mode: SynthesisMode::Prove { construct_matrices: true },
                lcs: vec![], constraints: vec![], ideal_failures: vec![], shape: StructHash::new(),
            }
        }
        pub fn new_ref() -> ConstraintSystemRef<F> { ConstraintSystemRef::new(Self::new()) }
        pub fn set_mode(&mut self, m: SynthesisMode) { self.mode = m; }
        pub fn is_in_setup_mode(&self) -> bool { self.mode == SynthesisMode::Setup }
        pub fn new_lc(&mut self, lc: LinearCombination<F>) -> Result<Variable> {
            let idx = self.add_lc(lc);
            Ok(Variable::SymbolicLc(LcIndex(idx)))
        }
        fn add_lc(&mut self, mut lc: LinearCombination<F>) -> usize {
            lc.compactify();
            self.shape.mix(lc.0.len() as u64 | 1 << 60);
            for (c, v) in lc.0.iter() {
                let (t, i) = match v { Variable::Zero => (0, 0), Variable::One => (1, 0), Variable::Instance(i) => (2, *i), Variable::Witness(i) => (3, *i), Variable::SymbolicLc(i) => (4, i.0) };
                self.shape.mix((i as u64) << 3 | t);
                for co in c.coords() { for l in co.into_repr().as_ref() { self.shape.mix(*l); } }
            }
            self.lcs.push(lc);
            self.num_linear_combinations += 1;
            self.lcs.len() - 1
        }
        pub fn eval(&self, v: Variable) -> Option<F> {
            match v {
                Variable::Zero => Some(F::zero()),
                Variable::One => Some(F::one()),
                Variable::Instance(i) => self.instance_assignment.get(i).copied(),
                Variable::Witness(i) => self.witness_assignment.get(i).copied(),
                Variable::SymbolicLc(i) => { let mut a = F::zero(); for (c, v) in &self.lcs[i.0].0 { a += &(*c * &self.eval(*v)?); } Some(a) }
            }
        }
        fn lc_values(&self) -> Option<Vec<F>> {
            // linear combinations only refer to earlier ones
            let mut out: Vec<F> = Vec::with_capacity(self.lcs.len());
            for lc in &self.lcs {
                let mut a = F::zero();
                for (c, v) in &lc.0 {
                    let x = match v {
                        Variable::Zero => continue,
                        Variable::One => F::one(),
                        Variable::Instance(i) => *self.instance_assignment.get(*i)?,
                        Variable::Witness(i) => *self.witness_assignment.get(*i)?,
                        Variable::SymbolicLc(i) => out[i.0],
                    };
                    if c.is_one() { a += &x } else { a += &(*c * &x) }
                }
                out.push(a);
            }
            Some(out)
        }
        pub fn which_is_unsatisfied(&self) -> Result<Option<String>> {
            if self.is_in_setup_mode() { return Err(SynthesisError::AssignmentMissing); }
            let v = self.lc_values().ok_or(SynthesisError::AssignmentMissing)?;
            for (i, (a, b, c)) in self.constraints.iter().enumerate() {
                if v[*a] * &v[*b] != v[*c] { return Ok(Some(format!("Constraint {}", i))); }
            }
            if let Some(s) = self.ideal_failures.first() { return Ok(Some(s.clone())); }
            Ok(None)
        }
        pub fn is_satisfied(&self) -> Result<bool> { Ok(self.which_is_unsatisfied()?.is_none()) }
        pub fn to_matrices(&self) -> Option<ConstraintMatrices<F>> {
            // inline all symbolic linear combinations
            let ni = self.num_instance_variables;
            let mut flat: Vec<LinearCombination<F>> = Vec::with_capacity(self.lcs.len());
            for lc in &self.lcs {
                let mut o = LinearCombination::<F>::new();
                for (c, v) in &lc.0 {
                    match v { Variable::SymbolicLc(i) => { for (c2, v2) in &flat[i.0].0 { o.0.push((*c * c2, *v2)); } } Variable::Zero => {} _ => o.0.push((*c, *v)) }
                }
                o.compactify();
                o.0.retain(|t| !t.0.is_zero());
                flat.push(o);
            }
            let row = |i: usize| -> Vec<(F, usize)> {
                flat[i].0.iter().map(|(c, v)| (*c, match v { Variable::One => 0, Variable::Instance(i) => *i, Variable::Witness(w) => ni + w, _ => unreachable!() })).collect()
            };
            let a: Matrix<F> = self.constraints.iter().map(|c| row(c.0)).collect();
            let b: Matrix<F> = self.constraints.iter().map(|c| row(c.1)).collect();
            let c: Matrix<F> = self.constraints.iter().map(|c| row(c.2)).collect();
            let nz = |m: &Matrix<F>| m.iter().map(|r| r.len()).sum();
            Some(ConstraintMatrices { num_instance_variables: ni, num_witness_variables: self.num_witness_variables, num_constraints: self.num_constraints, a_num_non_zero: nz(&a), b_num_non_zero: nz(&b), c_num_non_zero: nz(&c), a, b, c })
        }
    }

    #[derive(Debug, Clone)]
    pub enum ConstraintSystemRef<F: Field> { None, CS(Rc<RefCell<ConstraintSystem<F>>>) }
    impl<F: Field> PartialEq for ConstraintSystemRef<F> {
        fn eq(&self, o: &Self) -> bool { match (self, o) { (Self::None, Self::None) => true, (Self::CS(a), Self::CS(b)) => Rc::ptr_eq(a, b), _ => false } }
    }
    impl<F: Field> Eq for ConstraintSystemRef<F> {}
    #[derive(Debug, Clone)]
    pub struct Namespace<F: Field> { inner: ConstraintSystemRef<F> }
    impl<F: Field> From<ConstraintSystemRef<F>> for Namespace<F> { fn from(inner: ConstraintSystemRef<F>) -> Self { Namespace { inner } } }
    impl<F: Field> Namespace<F> {
        pub fn cs(&self) -> ConstraintSystemRef<F> { self.inner.clone() }
        pub fn leave_namespace(self) {}
    }
    impl<F: Field> From<&ConstraintSystemRef<F>> for Namespace<F> { fn from(inner: &ConstraintSystemRef<F>) -> Self { Namespace { inner: inner.clone() } } }

    impl<F: Field> ConstraintSystemRef<F> {
        pub fn new(cs: ConstraintSystem<F>) -> Self { Self::CS(Rc::new(RefCell::new(cs))) }
        pub fn or(self, other: Self) -> Self { if self.is_none() { other } else { self } }
        pub fn is_none(&self) -> bool { matches!(self, Self::None) }
        fn inner(&self) -> Option<&Rc<RefCell<ConstraintSystem<F>>>> { match self { Self::CS(a) => Some(a), Self::None => None } }
        pub fn into_inner(self) -> Option<ConstraintSystem<F>> { match self { Self::CS(a) => Rc::try_unwrap(a).ok().map(|s| s.into_inner()), Self::None => None } }
        pub fn borrow(&self) -> Option<std::cell::Ref<'_, ConstraintSystem<F>>> { self.inner().map(|a| a.borrow()) }
        pub fn borrow_mut(&self) -> Option<std::cell::RefMut<'_, ConstraintSystem<F>>> { self.inner().map(|a| a.borrow_mut()) }
        pub fn set_mode(&self, m: SynthesisMode) { self.inner().map(|a| a.borrow_mut().set_mode(m)); }
        pub fn set_optimization_goal(&self, g: OptimizationGoal) { self.inner().map(|a| a.borrow_mut().optimization_goal = g); }
        pub fn is_in_setup_mode(&self) -> bool { self.inner().map_or(false, |a| a.borrow().is_in_setup_mode()) }
        pub fn num_constraints(&self) -> usize { self.inner().map_or(0, |a| a.borrow().num_constraints) }
        pub fn num_instance_variables(&self) -> usize { self.inner().map_or(0, |a| a.borrow().num_instance_variables) }
        pub fn num_witness_variables(&self) -> usize { self.inner().map_or(0, |a| a.borrow().num_witness_variables) }
        pub fn should_construct_matrices(&self) -> bool { true }
        pub fn new_input_variable<Fun: FnOnce() -> Result<F>>(&self, f: Fun) -> Result<Variable> {
            let cs = self.inner().ok_or(SynthesisError::MissingCS)?;
            let setup = cs.borrow().is_in_setup_mode();
            let v = if setup { None } else { Some(f()?) };
            let mut cs = cs.borrow_mut();
            let i = cs.num_instance_variables;
            cs.num_instance_variables += 1;
            if let Some(v) = v { cs.instance_assignment.push(v); }
            Ok(Variable::Instance(i))
        }
        pub fn new_witness_variable<Fun: FnOnce() -> Result<F>>(&self, f: Fun) -> Result<Variable> {
            let cs = self.inner().ok_or(SynthesisError::MissingCS)?;
            let setup = cs.borrow().is_in_setup_mode();
            let v = if setup { None } else { Some(f()?) };
            let mut cs = cs.borrow_mut();
            let i = cs.num_witness_variables;
            cs.num_witness_variables += 1;
            if let Some(v) = v { cs.witness_assignment.push(v); }
            Ok(Variable::Witness(i))
        }
        pub fn new_lc(&self, lc: LinearCombination<F>) -> Result<Variable> { self.inner().ok_or(SynthesisError::MissingCS)?.borrow_mut().new_lc(lc) }
        pub fn enforce_constraint(&self, a: LinearCombination<F>, b: LinearCombination<F>, c: LinearCombination<F>) -> Result<()> {
            let mut cs = self.inner().ok_or(SynthesisError::MissingCS)?.borrow_mut();
            let a = cs.add_lc(a);
            let b = cs.add_lc(b);
            let c = cs.add_lc(c);
            cs.shape.mix(0x5eed);
            cs.constraints.push((a, b, c));
            cs.num_constraints += 1;
            Ok(())
        }
        /// records an ideal (not constraint by constraint) sub-relation in the circuit's shape
        pub fn ideal_gate(&self, tag: &str, inputs: &[Variable], params: &[u64]) {
            if let Some(cs) = self.inner() {
                let mut cs = cs.borrow_mut();
                for b in tag.bytes() { cs.shape.mix(b as u64); }
                for p in params { cs.shape.mix(*p); }
                for v in inputs {
                    let (t, i) = match v { Variable::Zero => (0, 0), Variable::One => (1, 0), Variable::Instance(i) => (2, *i), Variable::Witness(i) => (3, *i), Variable::SymbolicLc(i) => (4, i.0) };
                    cs.shape.mix((i as u64) << 3 | t);
                }
            }
        }
        pub fn ideal_failure(&self, what: String) { if let Some(cs) = self.inner() { cs.borrow_mut().ideal_failures.push(what); } }
        pub fn is_satisfied(&self) -> Result<bool> { self.inner().map_or(Err(SynthesisError::AssignmentMissing), |a| a.borrow().is_satisfied()) }
        pub fn which_is_unsatisfied(&self) -> Result<Option<String>> { self.inner().map_or(Err(SynthesisError::AssignmentMissing), |a| a.borrow().which_is_unsatisfied()) }
        pub fn assigned_value(&self, v: Variable) -> Option<F> { self.inner().and_then(|a| a.borrow().eval(v)) }
        pub fn inline_all_lcs(&self) {}
        pub fn finalize(&self) {}
        pub fn to_matrices(&self) -> Option<ConstraintMatrices<F>> { self.inner().and_then(|a| a.borrow().to_matrices()) }
        pub fn shape(&self) -> Option<(StructHash, usize, usize, usize)> {
            self.inner().map(|a| { let c = a.borrow(); (c.shape, c.num_instance_variables, c.num_witness_variables, c.num_constraints) })
        }
    }

    #[derive(Copy, Clone, Debug, PartialEq, Eq, Hash)]
    pub enum TracingMode { All, OnlyConstraints, NoConstraints }
    pub struct ConstraintLayer<S> { pub mode: TracingMode, _s: std::marker::PhantomData<fn(S)> }
    impl<S> ConstraintLayer<S> { pub fn new(mode: TracingMode) -> Self { ConstraintLayer { mode, _s: std::marker::PhantomData } } }
    impl<S: tracing::Subscriber + 'static> tracing_subscriber::Layer<S> for ConstraintLayer<S> {}
    // silence unused imports on some configurations
    #[allow(unused)]
    type _Unused = (HashMap<u8, u8>, Cell<u8>);
}
