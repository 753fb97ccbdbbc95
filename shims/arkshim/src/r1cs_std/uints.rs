use super::*;

#[derive(Clone, Debug)]
pub struct UInt8<F: Field> { pub bits: [Boolean<F>; 8], pub value: Option<u8> }
#[derive(Clone, Debug)]
pub struct UInt16<F: Field> { pub bits: [Boolean<F>; 16], pub value: Option<u16> }
#[derive(Clone, Debug)]
pub struct UInt32<F: Field> { pub bits: [Boolean<F>; 32], pub value: Option<u32> }
#[derive(Clone, Debug)]
pub struct UInt64<F: Field> { pub bits: [Boolean<F>; 64], pub value: Option<u64> }

macro_rules! uint {
    ($U:ident, $n:expr, $t:ty) => {
        impl<F: Field> R1CSVar<F> for $U<F> {
            type Value = $t;
            fn cs(&self) -> ConstraintSystemRef<F> { self.bits[..].cs() }
            fn value(&self) -> Result<$t> {
                let mut v: $t = 0;
                for i in 0..$n { v |= (self.bits[i].value()? as $t) << i; }
                Ok(v)
            }
        }
        impl<F: Field> $U<F> {
            pub fn constant(v: $t) -> Self {
                let bits: Vec<Boolean<F>> = (0..$n).map(|i| Boolean::Constant(v >> i & 1 == 1)).collect();
                Self::from_bits_le(&bits)
            }
            pub fn from_bits_le(bits: &[Boolean<F>]) -> Self {
                assert_eq!(bits.len(), $n);
                let mut v: Option<$t> = Some(0);
                for (i, b) in bits.iter().enumerate() {
                    v = match (v, b.value()) { (Some(x), Ok(b)) => Some(x | (b as $t) << i), _ => None };
                }
                let mut it = bits.iter().cloned();
                let mut arr: [Boolean<F>; $n] = [(); $n].map(|_| Boolean::Constant(false));
                for a in arr.iter_mut() { *a = it.next().unwrap(); }
                $U { bits: arr, value: v }
            }
            pub fn xor(&self, o: &Self) -> Result<Self> {
                let b = self.bits.iter().zip(o.bits.iter()).map(|(a, b)| a.xor(b)).collect::<Result<Vec<_>>>()?;
                Ok(Self::from_bits_le(&b))
            }
        }
        impl<F: Field> AllocVar<$t, F> for $U<F> {
            fn new_variable<T: Borrow<$t>>(cs: impl Into<Namespace<F>>, f: impl FnOnce() -> Result<T>, mode: AllocationMode) -> Result<Self> {
                let ns = cs.into();
                let cs = ns.cs();
                let v = f().map(|f| *f.borrow());
                let mut bits = vec![];
                for i in 0..$n { bits.push(Boolean::new_variable(cs.clone(), || v.map(|v| v >> i & 1 == 1), mode)?); }
                Ok(Self::from_bits_le(&bits))
            }
        }
        impl<F: PrimeField> EqGadget<F> for $U<F> {
            fn is_eq(&self, o: &Self) -> Result<Boolean<F>> { self.bits[..].is_eq(&o.bits[..]) }
            fn conditional_enforce_equal(&self, o: &Self, c: &Boolean<F>) -> Result<()> { self.bits[..].conditional_enforce_equal(&o.bits[..], c) }
        }
        impl<F: PrimeField> CondSelectGadget<F> for $U<F> {
            fn conditionally_select(c: &Boolean<F>, a: &Self, b: &Self) -> Result<Self> {
                let bits = a.bits.iter().zip(b.bits.iter()).map(|(a, b)| Boolean::conditionally_select(c, a, b)).collect::<Result<Vec<_>>>()?;
                Ok(Self::from_bits_le(&bits))
            }
        }
    };
}
uint!(UInt8, 8, u8);
uint!(UInt16, 16, u16);
uint!(UInt32, 32, u32);
uint!(UInt64, 64, u64);
macro_rules! wide {
    ($U:ident, $n:expr, $t:ty) => {
        impl<F: Field> $U<F> {
            pub fn to_bits_le(&self) -> Vec<Boolean<F>> { self.bits.to_vec() }
            pub fn rotr(&self, by: usize) -> Self {
                let by = by % $n;
                let b: Vec<Boolean<F>> = (0..$n).map(|i| self.bits[(i + by) % $n].clone()).collect();
                Self::from_bits_le(&b)
            }
        }
        impl<F: PrimeField> $U<F> {
            /// sum modulo 2^n, with the carries as witnesses
            pub fn addmany(ops: &[Self]) -> Result<Self> {
                assert!(!ops.is_empty());
                if ops.len() == 1 { return Ok(ops[0].clone()); }
                let mut max: u128 = 0;
                let mut lc = LinearCombination::<F>::zero();
                let mut cs = ConstraintSystemRef::None;
                let mut val: Option<u128> = Some(0);
                for o in ops {
                    cs = o.cs().or(cs);
                    max += <$t>::MAX as u128;
                    let mut k = F::one();
                    for b in o.bits.iter() { lc += b.lc() * k; k.double_in_place(); }
                    val = match (val, o.value) { (Some(a), Some(b)) => Some(a + b as u128), _ => None };
                }
                if cs.is_none() { return Ok(Self::constant(val.unwrap() as $t)); }
                let n = (128 - max.leading_zeros()) as usize;
                let mut bits = vec![];
                let mut k = F::one();
                let mut r = LinearCombination::<F>::zero();
                for i in 0..n {
                    let b = Boolean::new_witness(cs.clone(), || val.map(|v| v >> i & 1 == 1).get())?;
                    r += b.lc() * k;
                    k.double_in_place();
                    bits.push(b);
                }
                cs.enforce_constraint(lc!(), lc!(), lc - r)?;
                bits.truncate($n);
                Ok(Self::from_bits_le(&bits))
            }
        }
    };
}
wide!(UInt16, 16, u16);
wide!(UInt32, 32, u32);
wide!(UInt64, 64, u64);
macro_rules! wide_bytes { ($($U:ident)*) => { $(
    impl<F: Field> ToBytesGadget<F> for $U<F> { fn to_bytes(&self) -> Result<Vec<UInt8<F>>> { Ok(bits_to_bytes(self.bits.to_vec())) } }
)* } }
wide_bytes!(UInt16 UInt32 UInt64);
impl<F: Field> ToBitsGadget<F> for UInt8<F> { fn to_bits_le(&self) -> Result<Vec<Boolean<F>>> { Ok(self.bits.to_vec()) } }
impl<F: Field> ToBitsGadget<F> for [UInt8<F>] { fn to_bits_le(&self) -> Result<Vec<Boolean<F>>> { Ok(self.iter().flat_map(|b| b.bits.to_vec()).collect()) } }
impl<F: Field> ToBytesGadget<F> for UInt8<F> { fn to_bytes(&self) -> Result<Vec<UInt8<F>>> { Ok(vec![self.clone()]) } }
impl<F: Field> ToBytesGadget<F> for [UInt8<F>] { fn to_bytes(&self) -> Result<Vec<UInt8<F>>> { Ok(self.to_vec()) } }
impl<F: Field> UInt8<F> {
    pub fn constant_vec(v: &[u8]) -> Vec<Self> { v.iter().map(|b| Self::constant(*b)).collect() }
    pub fn new_witness_vec(cs: impl Into<Namespace<F>>, v: &[impl Into<Option<u8>> + Copy]) -> Result<Vec<Self>> {
        let ns = cs.into();
        let cs = ns.cs();
        v.iter().map(|x| { let x: Option<u8> = (*x).into(); Self::new_witness(cs.clone(), || x.get()) }).collect()
    }
    pub fn new_input_vec(cs: impl Into<Namespace<F>>, v: &[u8]) -> Result<Vec<Self>> where F: PrimeField {
        let ns = cs.into();
        let cs = ns.cs();
        v.iter().map(|x| Self::new_input(cs.clone(), || Ok(*x))).collect()
    }
}
