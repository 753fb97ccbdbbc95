//! ark_ff
pub use crate::serialize::*;
pub use num::{One, Zero};
use rand::distributions::{Distribution, Standard};
use rand::Rng;
use std::cmp::Ordering;
use std::fmt::{self, Debug, Display};
use std::hash::{Hash, Hasher};
use std::io::{Error as IoErr, ErrorKind, Result as IoResult};
use std::iter::{Product, Sum};
use std::marker::PhantomData;
use std::ops::*;
use std::str::FromStr;

mod num {
    use std::ops::{Add, Mul};
    pub trait Zero: Sized + Add<Self, Output = Self> {
        fn zero() -> Self;
        fn set_zero(&mut self) { *self = Zero::zero(); }
        fn is_zero(&self) -> bool;
    }
    pub trait One: Sized + Mul<Self, Output = Self> {
        fn one() -> Self;
        fn set_one(&mut self) { *self = One::one(); }
        fn is_one(&self) -> bool where Self: PartialEq { *self == Self::one() }
    }
}

pub trait UniformRand: Sized {
    fn rand<R: Rng + ?Sized>(rng: &mut R) -> Self;
}
impl<T> UniformRand for T
where
    Standard: Distribution<T>,
{
    fn rand<R: Rng + ?Sized>(rng: &mut R) -> Self { rng.sample(Standard) }
}

pub trait ToBytes {
    fn write<W: Write>(&self, writer: W) -> IoResult<()>;
}
pub trait FromBytes: Sized {
    fn read<R: Read>(reader: R) -> IoResult<Self>;
}
macro_rules! bytes_uint {
    ($($t:ty),*) => {$(
        impl ToBytes for $t { fn write<W: Write>(&self, mut w: W) -> IoResult<()> { w.write_all(&self.to_le_bytes()) } }
        impl FromBytes for $t { fn read<R: Read>(mut r: R) -> IoResult<Self> { let mut b = [0u8; std::mem::size_of::<$t>()]; r.read_exact(&mut b)?; Ok(<$t>::from_le_bytes(b)) } }
    )*};
}
bytes_uint!(u8, u16, u32, u64);
impl ToBytes for () { fn write<W: Write>(&self, _: W) -> IoResult<()> { Ok(()) } }
impl ToBytes for bool { fn write<W: Write>(&self, w: W) -> IoResult<()> { (*self as u8).write(w) } }
impl FromBytes for bool {
    fn read<R: Read>(r: R) -> IoResult<Self> {
        match u8::read(r)? { 0 => Ok(false), 1 => Ok(true), _ => Err(IoErr::new(ErrorKind::Other, "FromBytes::read failed")) }
    }
}
impl<T: ToBytes> ToBytes for [T] { fn write<W: Write>(&self, mut w: W) -> IoResult<()> { for i in self { i.write(&mut w)?; } Ok(()) } }
impl<T: ToBytes> ToBytes for Vec<T> { fn write<W: Write>(&self, w: W) -> IoResult<()> { self[..].write(w) } }
impl<T: ToBytes, const N: usize> ToBytes for [T; N] { fn write<W: Write>(&self, w: W) -> IoResult<()> { self[..].write(w) } }
impl<'a, T: 'a + ToBytes + ?Sized> ToBytes for &'a T { fn write<W: Write>(&self, w: W) -> IoResult<()> { (*self).write(w) } }

#[macro_export]
macro_rules! to_bytes {
    ($($x:expr),* $(,)?) => ({
        let mut buf = vec![];
        (|| -> std::io::Result<()> { $( $crate::ff::ToBytes::write(&$x, &mut buf)?; )* Ok(()) })().map(|_| buf)
    });
}

// ---------------------------------------------------------------- bit iterators
#[derive(Debug, Clone)]
pub struct BitIteratorBE<S: AsRef<[u64]>> { s: S, n: usize }
impl<S: AsRef<[u64]>> BitIteratorBE<S> {
    pub fn new(s: S) -> Self { let n = s.as_ref().len() * 64; BitIteratorBE { s, n } }
    pub fn without_leading_zeros(s: S) -> impl Iterator<Item = bool> { Self::new(s).skip_while(|b| !b) }
}
impl<S: AsRef<[u64]>> Iterator for BitIteratorBE<S> {
    type Item = bool;
    fn next(&mut self) -> Option<bool> {
        if self.n == 0 { None } else { self.n -= 1; Some(self.s.as_ref()[self.n / 64] & (1 << (self.n % 64)) != 0) }
    }
}
#[derive(Debug, Clone)]
pub struct BitIteratorLE<S: AsRef<[u64]>> { s: S, n: usize, max: usize }
impl<S: AsRef<[u64]>> BitIteratorLE<S> {
    pub fn new(s: S) -> Self { let max = s.as_ref().len() * 64; BitIteratorLE { s, n: 0, max } }
    pub fn without_trailing_zeros(s: S) -> impl Iterator<Item = bool> {
        let mut v: Vec<bool> = Self::new(s).collect();
        while v.last() == Some(&false) { v.pop(); }
        v.into_iter()
    }
}
impl<S: AsRef<[u64]>> Iterator for BitIteratorLE<S> {
    type Item = bool;
    fn next(&mut self) -> Option<bool> {
        if self.n == self.max { None } else { let r = self.s.as_ref()[self.n / 64] & (1 << (self.n % 64)) != 0; self.n += 1; Some(r) }
    }
}

// ---------------------------------------------------------------- big integers
pub mod biginteger {
    use super::*;
    #[derive(Copy, Clone, PartialEq, Eq, Hash)]
    pub struct BigInt<const N: usize>(pub [u64; N]);
    pub type BigInteger64 = BigInt<1>;
    pub type BigInteger128 = BigInt<2>;
    pub type BigInteger256 = BigInt<4>;
    pub type BigInteger320 = BigInt<5>;
    pub type BigInteger384 = BigInt<6>;
    pub type BigInteger768 = BigInt<12>;
    pub type BigInteger832 = BigInt<13>;

    impl<const N: usize> BigInt<N> {
        pub const fn new(v: [u64; N]) -> Self { BigInt(v) }
    }
    impl<const N: usize> Default for BigInt<N> { fn default() -> Self { BigInt([0; N]) } }
    impl<const N: usize> Display for BigInt<N> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { for i in self.0.iter().rev() { write!(f, "{:016X}", i)?; } Ok(()) }
    }
    impl<const N: usize> Debug for BigInt<N> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "BigInt({})", self) }
    }
    impl<const N: usize> Ord for BigInt<N> {
        #[inline]
        fn cmp(&self, o: &Self) -> Ordering {
            for i in (0..N).rev() {
                if self.0[i] < o.0[i] { return Ordering::Less; }
                if self.0[i] > o.0[i] { return Ordering::Greater; }
            }
            Ordering::Equal
        }
    }
    impl<const N: usize> PartialOrd for BigInt<N> { #[inline] fn partial_cmp(&self, o: &Self) -> Option<Ordering> { Some(self.cmp(o)) } }
    impl<const N: usize> AsRef<[u64]> for BigInt<N> { #[inline] fn as_ref(&self) -> &[u64] { &self.0 } }
    impl<const N: usize> AsMut<[u64]> for BigInt<N> { #[inline] fn as_mut(&mut self) -> &mut [u64] { &mut self.0 } }
    impl<const N: usize> From<u64> for BigInt<N> { fn from(v: u64) -> Self { let mut r = Self::default(); r.0[0] = v; r } }
    impl<const N: usize> Distribution<BigInt<N>> for Standard {
        fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> BigInt<N> { let mut a = [0u64; N]; for x in a.iter_mut() { *x = rng.gen(); } BigInt(a) }
    }
    impl<const N: usize> ToBytes for BigInt<N> { fn write<W: Write>(&self, mut w: W) -> IoResult<()> { for i in self.0.iter() { i.write(&mut w)?; } Ok(()) } }
    impl<const N: usize> FromBytes for BigInt<N> { fn read<R: Read>(mut r: R) -> IoResult<Self> { let mut a = [0u64; N]; for x in a.iter_mut() { *x = u64::read(&mut r)?; } Ok(BigInt(a)) } }
    impl<const N: usize> CanonicalSerialize for BigInt<N> {
        fn serialize<W: Write>(&self, w: W) -> Result<(), SerializationError> { Ok(self.write(w)?) }
        fn serialized_size(&self) -> usize { N * 8 }
    }
    impl<const N: usize> CanonicalDeserialize for BigInt<N> {
        fn deserialize<R: Read>(r: R) -> Result<Self, SerializationError> { Ok(Self::read(r)?) }
    }

    pub trait BigInteger:
        'static + Copy + Clone + Debug + Default + Display + Eq + Ord + Send + Sized + Sync + Hash
        + AsMut<[u64]> + AsRef<[u64]> + From<u64> + CanonicalSerialize + CanonicalDeserialize + ToBytes + FromBytes + UniformRand
    {
        const NUM_LIMBS: usize;
        fn add_nocarry(&mut self, other: &Self) -> bool;
        fn sub_noborrow(&mut self, other: &Self) -> bool;
        fn mul2(&mut self);
        fn muln(&mut self, amt: u32);
        fn div2(&mut self);
        fn divn(&mut self, amt: u32);
        fn is_odd(&self) -> bool { self.as_ref()[0] & 1 == 1 }
        fn is_even(&self) -> bool { !self.is_odd() }
        fn is_zero(&self) -> bool { self.as_ref().iter().all(|x| *x == 0) }
        fn num_bits(&self) -> u32 {
            let s = self.as_ref();
            for i in (0..s.len()).rev() { if s[i] != 0 { return (i as u32 + 1) * 64 - s[i].leading_zeros(); } }
            0
        }
        fn get_bit(&self, i: usize) -> bool { let s = self.as_ref(); if i / 64 >= s.len() { false } else { s[i / 64] >> (i % 64) & 1 == 1 } }
        fn from_bits_be(bits: &[bool]) -> Self { let mut b = bits.to_vec(); b.reverse(); Self::from_bits_le(&b) }
        fn from_bits_le(bits: &[bool]) -> Self {
            let mut r = Self::default();
            for (i, ch) in bits.chunks(64).enumerate() {
                let mut acc = 0u64;
                for b in ch.iter().rev() { acc = acc << 1 | (*b as u64); }
                r.as_mut()[i] = acc;
            }
            r
        }
        fn from_bits(bits: &[bool]) -> Self { Self::from_bits_be(bits) }
        fn to_bits(&self) -> Vec<bool> { self.to_bits_be() }
        fn to_bits_be(&self) -> Vec<bool> { BitIteratorBE::new(self.as_ref().to_vec()).collect() }
        fn to_bits_le(&self) -> Vec<bool> { BitIteratorLE::new(self.as_ref().to_vec()).collect() }
        fn to_bytes_be(&self) -> Vec<u8> { let mut v = self.to_bytes_le(); v.reverse(); v }
        fn to_bytes_le(&self) -> Vec<u8> { self.as_ref().iter().flat_map(|l| l.to_le_bytes().to_vec()).collect() }
    }
    impl<const N: usize> BigInteger for BigInt<N> {
        const NUM_LIMBS: usize = N;
        #[inline]
        fn add_nocarry(&mut self, o: &Self) -> bool {
            let mut c = 0u128;
            for i in 0..N { let t = self.0[i] as u128 + o.0[i] as u128 + c; self.0[i] = t as u64; c = t >> 64; }
            c != 0
        }
        #[inline]
        fn sub_noborrow(&mut self, o: &Self) -> bool {
            let mut b = 0u64;
            for i in 0..N { let (x, b1) = self.0[i].overflowing_sub(o.0[i]); let (x, b2) = x.overflowing_sub(b); self.0[i] = x; b = (b1 | b2) as u64; }
            b != 0
        }
        #[inline]
        fn mul2(&mut self) { let mut last = 0; for i in self.0.iter_mut() { let t = *i >> 63; *i = *i << 1 | last; last = t; } }
        fn muln(&mut self, amt: u32) { for _ in 0..amt { self.mul2(); } }
        #[inline]
        fn div2(&mut self) { let mut t = 0; for i in self.0.iter_mut().rev() { let t2 = *i << 63; *i = *i >> 1 | t; t = t2; } }
        fn divn(&mut self, amt: u32) { for _ in 0..amt { self.div2(); } }
    }
}
pub use biginteger::{BigInt, BigInteger, BigInteger256, BigInteger384, BigInteger768};

// ---------------------------------------------------------------- const arithmetic
pub mod cst {
    pub const fn geq<const N: usize>(a: &[u64; N], b: &[u64; N]) -> bool {
        let mut i = N;
        while i > 0 { i -= 1; if a[i] > b[i] { return true; } if a[i] < b[i] { return false; } }
        true
    }
    pub const fn sub<const N: usize>(a: &[u64; N], b: &[u64; N]) -> [u64; N] {
        let mut r = [0u64; N]; let mut bw = 0u64; let mut i = 0;
        while i < N { let (x, b1) = a[i].overflowing_sub(b[i]); let (x, b2) = x.overflowing_sub(bw); r[i] = x; bw = (b1 || b2) as u64; i += 1; }
        r
    }
    pub const fn dbl_mod<const N: usize>(a: &[u64; N], m: &[u64; N]) -> [u64; N] {
        let mut r = [0u64; N]; let mut c = 0u64; let mut i = 0;
        while i < N { r[i] = a[i] << 1 | c; c = a[i] >> 63; i += 1; }
        if c == 1 || geq(&r, m) { sub(&r, m) } else { r }
    }
    pub const fn pow2_mod<const N: usize>(k: usize, m: &[u64; N]) -> [u64; N] {
        let mut r = [0u64; N]; r[0] = 1; let mut i = 0;
        while i < k { r = dbl_mod(&r, m); i += 1; }
        r
    }
    pub const fn inv64(m0: u64) -> u64 {
        let mut inv = 1u64; let mut i = 0;
        while i < 63 { inv = inv.wrapping_mul(inv); inv = inv.wrapping_mul(m0); i += 1; }
        inv.wrapping_neg()
    }
    #[inline(always)]
    pub const fn mont<const N: usize>(a: &[u64; N], b: &[u64; N], m: &[u64; N], inv: u64) -> [u64; N] {
        let mut t = [0u64; N];
        let mut i = 0;
        while i < N {
            let p = t[0] as u128 + (a[0] as u128) * (b[i] as u128);
            let t0 = p as u64;
            let mut c1 = (p >> 64) as u64;
            let k = t0.wrapping_mul(inv);
            let q = t0 as u128 + (k as u128) * (m[0] as u128);
            let mut c2 = (q >> 64) as u64;
            let mut j = 1;
            while j < N {
                let p = t[j] as u128 + (a[j] as u128) * (b[i] as u128) + c1 as u128;
                c1 = (p >> 64) as u64;
                let q = (p as u64) as u128 + (k as u128) * (m[j] as u128) + c2 as u128;
                c2 = (q >> 64) as u64;
                t[j - 1] = q as u64;
                j += 1;
            }
            t[N - 1] = c1 + c2; // modulus has at least one spare top bit
            i += 1;
        }
        if geq(&t, m) { sub(&t, m) } else { t }
    }
    pub const fn nbits<const N: usize>(m: &[u64; N]) -> u32 {
        let mut i = N;
        while i > 0 { i -= 1; if m[i] != 0 { return (i as u32 + 1) * 64 - m[i].leading_zeros(); } }
        0
    }
    pub const fn shr1<const N: usize>(a: &[u64; N]) -> [u64; N] {
        let mut r = [0u64; N]; let mut t = 0; let mut i = N;
        while i > 0 { i -= 1; r[i] = a[i] >> 1 | t; t = a[i] << 63; }
        r
    }
    pub const fn minus1<const N: usize>(m: &[u64; N]) -> [u64; N] { let mut r = *m; r[0] -= 1; r }
    pub const fn twoadicity<const N: usize>(m: &[u64; N]) -> u32 {
        let mut a = minus1(m); let mut k = 0;
        while a[0] & 1 == 0 { a = shr1(&a); k += 1; }
        k
    }
    pub const fn trace<const N: usize>(m: &[u64; N]) -> [u64; N] {
        let mut a = minus1(m);
        while a[0] & 1 == 0 { a = shr1(&a); }
        a
    }
    pub const fn dec<const N: usize>(s: &str) -> [u64; N] {
        let s = s.as_bytes(); let mut r = [0u64; N]; let mut i = 0;
        while i < s.len() {
            let mut c = (s[i] - b'0') as u128; let mut j = 0;
            while j < N { let t = (r[j] as u128) * 10 + c; r[j] = t as u64; c = t >> 64; j += 1; }
            i += 1;
        }
        r
    }
    pub const fn to_mont<const N: usize>(a: &[u64; N], m: &[u64; N]) -> [u64; N] { mont(a, &pow2_mod::<N>(128 * N, m), m, inv64(m[0])) }
    pub const fn pow<const N: usize>(a: &[u64; N], e: &[u64; N], m: &[u64; N]) -> [u64; N] {
        let inv = inv64(m[0]); let mut r = pow2_mod::<N>(64 * N, m); let mut i = 64 * N;
        while i > 0 { i -= 1; r = mont(&r, &r, m, inv); if e[i / 64] >> (i % 64) & 1 == 1 { r = mont(&r, a, m, inv); } }
        r
    }
}

// ---------------------------------------------------------------- field traits
pub mod fields {
    pub use super::{CubicExtField, CubicExtParameters, Field, FftField, FftParameters, Fp, Fp256, Fp2, Fp2Parameters, Fp320, Fp384, Fp768, FpParameters, LegendreSymbol, PrimeField, QuadExtField, QuadExtParameters, SquareRootField};
    pub mod models { pub use super::*; }
}

pub trait FftParameters: 'static + Send + Sync + Sized {
    type BigInt: BigInteger;
    const TWO_ADICITY: u32;
    const TWO_ADIC_ROOT_OF_UNITY: Self::BigInt;
}
pub trait FpParameters: FftParameters {
    const MODULUS: Self::BigInt;
    const MODULUS_BITS: u32;
    const REPR_SHAVE_BITS: u32;
    const R: Self::BigInt;
    const R2: Self::BigInt;
    const INV: u64;
    const GENERATOR: Self::BigInt;
    const CAPACITY: u32;
    const T: Self::BigInt;
    const T_MINUS_ONE_DIV_TWO: Self::BigInt;
    const MODULUS_MINUS_ONE_DIV_TWO: Self::BigInt;
}

#[derive(Debug, PartialEq, Eq, Clone, Copy)]
pub enum LegendreSymbol { Zero = 0, QuadraticResidue = 1, QuadraticNonResidue = -1 }
impl LegendreSymbol {
    pub fn is_zero(&self) -> bool { *self == LegendreSymbol::Zero }
    pub fn is_qnr(&self) -> bool { *self == LegendreSymbol::QuadraticNonResidue }
    pub fn is_qr(&self) -> bool { *self == LegendreSymbol::QuadraticResidue }
}

pub trait Field:
    'static + Copy + Clone + Debug + Display + Default + Send + Sync + Eq + Zero + One + Ord + Neg<Output = Self> + UniformRand + Sized + Hash
    + FromBytes + ToBytes
    + CanonicalSerialize + CanonicalSerializeWithFlags + CanonicalDeserialize + CanonicalDeserializeWithFlags
    + Add<Self, Output = Self> + Sub<Self, Output = Self> + Mul<Self, Output = Self> + Div<Self, Output = Self>
    + AddAssign<Self> + SubAssign<Self> + MulAssign<Self> + DivAssign<Self>
    + for<'a> Add<&'a Self, Output = Self> + for<'a> Sub<&'a Self, Output = Self> + for<'a> Mul<&'a Self, Output = Self> + for<'a> Div<&'a Self, Output = Self>
    + for<'a> AddAssign<&'a Self> + for<'a> SubAssign<&'a Self> + for<'a> MulAssign<&'a Self> + for<'a> DivAssign<&'a Self>
    + Sum<Self> + for<'a> Sum<&'a Self> + Product<Self> + for<'a> Product<&'a Self>
    + From<u128> + From<u64> + From<u32> + From<u16> + From<u8> + From<bool>
{
    type BasePrimeField: PrimeField;
    fn characteristic<'a>() -> &'a [u64] { Self::BasePrimeField::characteristic() }
    fn extension_degree() -> u64;
    fn double(&self) -> Self;
    fn double_in_place(&mut self) -> &mut Self;
    fn from_random_bytes(bytes: &[u8]) -> Option<Self> { Self::from_random_bytes_with_flags::<EmptyFlags>(bytes).map(|f| f.0) }
    fn from_random_bytes_with_flags<F: Flags>(bytes: &[u8]) -> Option<(Self, F)>;
    fn square(&self) -> Self;
    fn square_in_place(&mut self) -> &mut Self;
    fn inverse(&self) -> Option<Self>;
    fn inverse_in_place(&mut self) -> Option<&mut Self> { if let Some(i) = self.inverse() { *self = i; Some(self) } else { None } }
    fn frobenius_map(&mut self, power: usize);
    fn pow<S: AsRef<[u64]>>(&self, exp: S) -> Self {
        let mut r = Self::one();
        let mut started = false;
        for b in BitIteratorBE::new(exp) {
            if started { r.square_in_place(); }
            if b { started = true; r *= self; }
        }
        r
    }
    /// number of base prime field coordinates appended to the vector
    fn coords(&self) -> Vec<Self::BasePrimeField>;
}
pub trait FftField: Field {
    type FftParams: FftParameters;
    fn two_adic_root_of_unity() -> Self;
}
pub trait SquareRootField: Field {
    fn legendre(&self) -> LegendreSymbol;
    fn sqrt(&self) -> Option<Self>;
    fn sqrt_in_place(&mut self) -> Option<&mut Self> { if let Some(s) = self.sqrt() { *self = s; Some(self) } else { None } }
}
pub trait PrimeField: Field<BasePrimeField = Self> + FftField + SquareRootField + FromStr + From<<Self as PrimeField>::BigInt> + Into<<Self as PrimeField>::BigInt> {
    type Params: FpParameters<BigInt = Self::BigInt>;
    type BigInt: BigInteger;
    fn from_repr(repr: Self::BigInt) -> Option<Self>;
    fn into_repr(&self) -> Self::BigInt;
    fn from_le_bytes_mod_order(bytes: &[u8]) -> Self {
        let b256 = Self::from(256u64);
        let mut r = Self::zero();
        for b in bytes.iter().rev() { r = r * b256 + Self::from(*b); }
        r
    }
    fn from_be_bytes_mod_order(bytes: &[u8]) -> Self { let mut b = bytes.to_vec(); b.reverse(); Self::from_le_bytes_mod_order(&b) }
    fn multiplicative_generator() -> Self;
    fn root_of_unity() -> Self { Self::two_adic_root_of_unity() }
    fn size_in_bits() -> usize { Self::Params::MODULUS_BITS as usize }
    fn trace() -> Self::BigInt { Self::Params::T }
    fn trace_minus_one_div_two() -> Self::BigInt { Self::Params::T_MINUS_ONE_DIV_TWO }
    fn modulus_minus_one_div_two() -> Self::BigInt { Self::Params::MODULUS_MINUS_ONE_DIV_TWO }
}

// ---------------------------------------------------------------- prime fields
pub struct Fp<P, const N: usize>(pub BigInt<N>, pub PhantomData<P>);
pub type Fp256<P> = Fp<P, 4>;
pub type Fp320<P> = Fp<P, 5>;
pub type Fp384<P> = Fp<P, 6>;
pub type Fp768<P> = Fp<P, 12>;

impl<P, const N: usize> Fp<P, N> {
    pub const fn raw(v: [u64; N]) -> Self { Fp(BigInt(v), PhantomData) }
}
impl<P, const N: usize> Copy for Fp<P, N> {}
impl<P, const N: usize> Clone for Fp<P, N> { #[inline] fn clone(&self) -> Self { *self } }
impl<P, const N: usize> PartialEq for Fp<P, N> { #[inline] fn eq(&self, o: &Self) -> bool { self.0 == o.0 } }
impl<P, const N: usize> Eq for Fp<P, N> {}
impl<P, const N: usize> Hash for Fp<P, N> { fn hash<H: Hasher>(&self, h: &mut H) { self.0.hash(h) } }
impl<P, const N: usize> Default for Fp<P, N> { fn default() -> Self { Fp(BigInt([0; N]), PhantomData) } }

impl<P: FpParameters<BigInt = BigInt<N>>, const N: usize> Fp<P, N> {
    #[inline]
    pub fn new(e: BigInt<N>) -> Self { Fp(e, PhantomData) }
    #[inline]
    fn is_valid(&self) -> bool { self.0 < P::MODULUS }
    #[inline(always)]
    fn mont(a: &BigInt<N>, b: &BigInt<N>) -> Self { Fp(BigInt(cst::mont(&a.0, &b.0, &P::MODULUS.0, P::INV)), PhantomData) }
}
impl<P: FpParameters<BigInt = BigInt<N>>, const N: usize> Debug for Fp<P, N> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "Fp({})", self.into_repr()) } }
impl<P: FpParameters<BigInt = BigInt<N>>, const N: usize> Display for Fp<P, N> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "Fp({})", self.into_repr()) } }
impl<P: FpParameters<BigInt = BigInt<N>>, const N: usize> Ord for Fp<P, N> { fn cmp(&self, o: &Self) -> Ordering { self.into_repr().cmp(&o.into_repr()) } }
impl<P: FpParameters<BigInt = BigInt<N>>, const N: usize> PartialOrd for Fp<P, N> { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { Some(self.cmp(o)) } }
impl<P: FpParameters<BigInt = BigInt<N>>, const N: usize> Distribution<Fp<P, N>> for Standard {
    fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> Fp<P, N> {
        loop {
            let mut t = Fp::<P, N>::new(rng.sample(Standard));
            t.0 .0[N - 1] &= if P::REPR_SHAVE_BITS >= 64 { 0 } else { u64::MAX >> P::REPR_SHAVE_BITS };
            if t.is_valid() { return t; }
        }
    }
}
impl<P: FpParameters<BigInt = BigInt<N>>, const N: usize> Zero for Fp<P, N> {
    #[inline]
    fn zero() -> Self { Fp(BigInt([0; N]), PhantomData) }
    #[inline]
    fn is_zero(&self) -> bool { self.0 .0 == [0; N] }
}
impl<P: FpParameters<BigInt = BigInt<N>>, const N: usize> One for Fp<P, N> {
    #[inline]
    fn one() -> Self { Fp(P::R, PhantomData) }
}
impl<P: FpParameters<BigInt = BigInt<N>>, const N: usize> Neg for Fp<P, N> {
    type Output = Self;
    #[inline]
    fn neg(self) -> Self { if self.is_zero() { self } else { Fp(BigInt(cst::sub(&P::MODULUS.0, &self.0 .0)), PhantomData) } }
}
impl<P: FpParameters<BigInt = BigInt<N>>, const N: usize> Fp<P, N> {
    #[inline(always)]
    fn add_(mut self, o: &Self) -> Self { self.0.add_nocarry(&o.0); if self.0 >= P::MODULUS { self.0.sub_noborrow(&P::MODULUS); } self }
    #[inline(always)]
    fn sub_(mut self, o: &Self) -> Self { if self.0.sub_noborrow(&o.0) { self.0.add_nocarry(&P::MODULUS); } self }
    #[inline(always)]
    fn mul_(self, o: &Self) -> Self { Self::mont(&self.0, &o.0) }
    fn div_(self, o: &Self) -> Self { self.mul_(&o.inverse().unwrap()) }
}
macro_rules! field_ops {
    ([$($g:tt)*], $t:ty) => {
        field_ops!(@op [$($g)*], $t, Add, add, AddAssign, add_assign, add_);
        field_ops!(@op [$($g)*], $t, Sub, sub, SubAssign, sub_assign, sub_);
        field_ops!(@op [$($g)*], $t, Mul, mul, MulAssign, mul_assign, mul_);
        field_ops!(@op [$($g)*], $t, Div, div, DivAssign, div_assign, div_);
        impl<$($g)*> Sum<$t> for $t { fn sum<I: Iterator<Item = Self>>(i: I) -> Self { i.fold(Self::zero(), |a, b| a.add_(&b)) } }
        impl<'a, $($g)*> Sum<&'a $t> for $t { fn sum<I: Iterator<Item = &'a Self>>(i: I) -> Self { i.fold(Self::zero(), |a, b| a.add_(b)) } }
        impl<$($g)*> Product<$t> for $t { fn product<I: Iterator<Item = Self>>(i: I) -> Self { i.fold(Self::one(), |a, b| a.mul_(&b)) } }
        impl<'a, $($g)*> Product<&'a $t> for $t { fn product<I: Iterator<Item = &'a Self>>(i: I) -> Self { i.fold(Self::one(), |a, b| a.mul_(b)) } }
    };
    (@op [$($g:tt)*], $t:ty, $T:ident, $f:ident, $TA:ident, $fa:ident, $i:ident) => {
        impl<$($g)*> $T<$t> for $t { type Output = Self; #[inline] fn $f(self, o: $t) -> Self { self.$i(&o) } }
        impl<'a, $($g)*> $T<&'a $t> for $t { type Output = Self; #[inline] fn $f(self, o: &'a $t) -> Self { self.$i(o) } }
        impl<'a, $($g)*> $T<$t> for &'a $t { type Output = $t; #[inline] fn $f(self, o: $t) -> $t { (*self).$i(&o) } }
        impl<'a, 'b, $($g)*> $T<&'b $t> for &'a $t { type Output = $t; #[inline] fn $f(self, o: &'b $t) -> $t { (*self).$i(o) } }
        impl<'a, $($g)*> $T<&'a mut $t> for $t { type Output = Self; #[inline] fn $f(self, o: &'a mut $t) -> Self { self.$i(o) } }
        impl<$($g)*> $TA<$t> for $t { #[inline] fn $fa(&mut self, o: $t) { *self = (*self).$i(&o) } }
        impl<'a, $($g)*> $TA<&'a $t> for $t { #[inline] fn $fa(&mut self, o: &'a $t) { *self = (*self).$i(o) } }
        impl<'a, $($g)*> $TA<&'a mut $t> for $t { #[inline] fn $fa(&mut self, o: &'a mut $t) { *self = (*self).$i(o) } }
    };
}
field_ops!([P: FpParameters<BigInt = BigInt<N>>, const N: usize], Fp<P, N>);

macro_rules! fp_from { ($($t:ty),*) => {$(
    impl<P: FpParameters<BigInt = BigInt<N>>, const N: usize> From<$t> for Fp<P, N> { fn from(v: $t) -> Self { Self::from_u128(v as u128) } }
)*}; }
fp_from!(u128, u64, u32, u16, u8, bool);
impl<P: FpParameters<BigInt = BigInt<N>>, const N: usize> Fp<P, N> {
    fn from_u128(v: u128) -> Self {
        let mut r = BigInt([0; N]);
        r.0[0] = v as u64;
        r.0[1] = (v >> 64) as u64;
        Self::mont(&r, &P::R2)
    }
}
impl<P: FpParameters<BigInt = BigInt<N>>, const N: usize> From<BigInt<N>> for Fp<P, N> { fn from(v: BigInt<N>) -> Self { Self::from_repr(v).unwrap() } }
impl<P: FpParameters<BigInt = BigInt<N>>, const N: usize> From<Fp<P, N>> for BigInt<N> { fn from(v: Fp<P, N>) -> Self { v.into_repr() } }
impl<P: FpParameters<BigInt = BigInt<N>>, const N: usize> FromStr for Fp<P, N> {
    type Err = ();
    fn from_str(s: &str) -> Result<Self, ()> {
        if s.is_empty() || (s.len() > 1 && s.starts_with('0')) { return Err(()); }
        let ten = Self::from(10u64);
        let mut r = Self::zero();
        for c in s.bytes() { if !c.is_ascii_digit() { return Err(()); } r = r * ten + Self::from(c - b'0'); }
        Ok(r)
    }
}
impl<P: FpParameters<BigInt = BigInt<N>>, const N: usize> ToBytes for Fp<P, N> { fn write<W: Write>(&self, w: W) -> IoResult<()> { self.into_repr().write(w) } }
impl<P: FpParameters<BigInt = BigInt<N>>, const N: usize> FromBytes for Fp<P, N> {
    fn read<R: Read>(r: R) -> IoResult<Self> {
        BigInt::read(r).and_then(|b| Self::from_repr(b).ok_or_else(|| IoErr::new(ErrorKind::Other, "FromBytes::read failed")))
    }
}
impl<P: FpParameters<BigInt = BigInt<N>>, const N: usize> CanonicalSerializeWithFlags for Fp<P, N> {
    fn serialize_with_flags<W: Write, F: Flags>(&self, mut w: W, flags: F) -> Result<(), SerializationError> {
        if F::BIT_SIZE > 8 { return Err(SerializationError::NotEnoughSpace); }
        let n = buffer_byte_size(P::MODULUS_BITS as usize + F::BIT_SIZE);
        let mut b = self.into_repr().to_bytes_le();
        b.push(0);
        b[n - 1] |= flags.u8_bitmask();
        Ok(w.write_all(&b[..n])?)
    }
    fn serialized_size_with_flags<F: Flags>(&self) -> usize { buffer_byte_size(P::MODULUS_BITS as usize + F::BIT_SIZE) }
}
impl<P: FpParameters<BigInt = BigInt<N>>, const N: usize> CanonicalSerialize for Fp<P, N> {
    fn serialize<W: Write>(&self, w: W) -> Result<(), SerializationError> { self.serialize_with_flags(w, EmptyFlags) }
    fn serialized_size(&self) -> usize { buffer_byte_size(P::MODULUS_BITS as usize) }
}
impl<P: FpParameters<BigInt = BigInt<N>>, const N: usize> CanonicalDeserializeWithFlags for Fp<P, N> {
    fn deserialize_with_flags<R: Read, F: Flags>(mut r: R) -> Result<(Self, F), SerializationError> {
        if F::BIT_SIZE > 8 { return Err(SerializationError::NotEnoughSpace); }
        let n = buffer_byte_size(P::MODULUS_BITS as usize + F::BIT_SIZE);
        let mut b = vec![0u8; N * 8 + 1];
        r.read_exact(&mut b[..n])?;
        let flags = F::from_u8_remove_flags(&mut b[n - 1]).ok_or(SerializationError::UnexpectedFlags)?;
        Ok((Self::read(&b[..N * 8])?, flags))
    }
}
impl<P: FpParameters<BigInt = BigInt<N>>, const N: usize> CanonicalDeserialize for Fp<P, N> {
    fn deserialize<R: Read>(mut r: R) -> Result<Self, SerializationError> {
        let n = buffer_byte_size(P::MODULUS_BITS as usize);
        let mut b = vec![0u8; N * 8];
        r.read_exact(&mut b[..n])?;
        Ok(Self::read(&b[..])?)
    }
}
impl<P: FpParameters<BigInt = BigInt<N>>, const N: usize> ConstantSerializedSize for Fp<P, N> {
    const SERIALIZED_SIZE: usize = buffer_byte_size(P::MODULUS_BITS as usize);
    const UNCOMPRESSED_SIZE: usize = Self::SERIALIZED_SIZE;
}
impl<P: FpParameters<BigInt = BigInt<N>>, const N: usize> Field for Fp<P, N> {
    type BasePrimeField = Self;
    fn characteristic<'a>() -> &'a [u64] { P::MODULUS_REF() }
    fn extension_degree() -> u64 { 1 }
    fn double(&self) -> Self { self.add_(self) }
    fn double_in_place(&mut self) -> &mut Self { *self = self.add_(self); self }
    fn from_random_bytes_with_flags<F: Flags>(bytes: &[u8]) -> Option<(Self, F)> {
        if F::BIT_SIZE > 8 { return None; }
        let mut res = vec![0u8; N * 8 + 1];
        res.iter_mut().zip(bytes).for_each(|(r, i)| *r = *i);
        let mut mask = [0u8; 9];
        mask[..8].copy_from_slice(&(u64::MAX >> P::REPR_SHAVE_BITS).to_le_bytes());
        let flag_loc = buffer_byte_size(P::MODULUS_BITS as usize + F::BIT_SIZE) - 1;
        let flag_in_last = flag_loc - 8 * (N - 1);
        let fmask = u8::MAX.checked_shl(8 - (F::BIT_SIZE as u32)).unwrap_or(0);
        let mut flags = 0u8;
        for (i, (b, m)) in res[8 * (N - 1)..].iter_mut().zip(&mask).enumerate() {
            if i == flag_in_last { flags = *b & fmask; }
            *b &= m;
        }
        Self::read(&res[..N * 8]).ok().and_then(|f| F::from_u8(flags).map(|fl| (f, fl)))
    }
    #[inline]
    fn square(&self) -> Self { Self::mont(&self.0, &self.0) }
    #[inline]
    fn square_in_place(&mut self) -> &mut Self { *self = self.square(); self }
    fn inverse(&self) -> Option<Self> {
        if self.is_zero() { return None; }
        let one = BigInt::<N>::from(1);
        let mut u = self.0;
        let mut v = P::MODULUS;
        let mut b = Fp::<P, N>(P::R2, PhantomData);
        let mut c = Self::zero();
        while u != one && v != one {
            while u.is_even() { u.div2(); if b.0.is_even() { b.0.div2(); } else { let cy = b.0.add_nocarry(&P::MODULUS); b.0.div2(); if cy { b.0 .0[N - 1] |= 1 << 63; } } }
            while v.is_even() { v.div2(); if c.0.is_even() { c.0.div2(); } else { let cy = c.0.add_nocarry(&P::MODULUS); c.0.div2(); if cy { c.0 .0[N - 1] |= 1 << 63; } } }
            if v < u { u.sub_noborrow(&v); b = b.sub_(&c); } else { v.sub_noborrow(&u); c = c.sub_(&b); }
        }
        Some(if u == one { b } else { c })
    }
    fn frobenius_map(&mut self, _: usize) {}
    fn coords(&self) -> Vec<Self> { vec![*self] }
}
/// gives `characteristic` a static slice
pub trait ModulusRef: FpParameters { fn modulus_ref<'a>() -> &'a [u64]; }
trait ModRefExt: FpParameters { #[allow(non_snake_case)] fn MODULUS_REF<'a>() -> &'a [u64]; }
impl<P: FpParameters> ModRefExt for P { fn MODULUS_REF<'a>() -> &'a [u64] { Box::leak(P::MODULUS.as_ref().to_vec().into_boxed_slice()) } }

impl<P: FpParameters<BigInt = BigInt<N>>, const N: usize> FftField for Fp<P, N> {
    type FftParams = P;
    fn two_adic_root_of_unity() -> Self { Fp(P::TWO_ADIC_ROOT_OF_UNITY, PhantomData) }
}
impl<P: FpParameters<BigInt = BigInt<N>>, const N: usize> SquareRootField for Fp<P, N> {
    fn legendre(&self) -> LegendreSymbol {
        let s = self.pow(P::MODULUS_MINUS_ONE_DIV_TWO);
        if s.is_zero() { LegendreSymbol::Zero } else if s.is_one() { LegendreSymbol::QuadraticResidue } else { LegendreSymbol::QuadraticNonResidue }
    }
    fn sqrt(&self) -> Option<Self> {
        if self.is_zero() { return Some(*self); }
        let mut z = Self::two_adic_root_of_unity();
        let mut w = self.pow(P::T_MINUS_ONE_DIV_TWO);
        let mut x = w * self;
        let mut b = x * &w;
        let mut v = P::TWO_ADICITY as usize;
        while !b.is_one() {
            let mut k = 0usize;
            let mut b2k = b;
            while !b2k.is_one() {
                b2k.square_in_place();
                k += 1;
                if k > v { return None; }
            }
            if k == v { return None; }
            let j = v - k;
            w = z;
            for _ in 1..j { w.square_in_place(); }
            z = w.square();
            b *= &z;
            x *= &w;
            v = k;
        }
        if x.square() == *self { Some(x) } else { None }
    }
}
impl<P: FpParameters<BigInt = BigInt<N>>, const N: usize> PrimeField for Fp<P, N> {
    type Params = P;
    type BigInt = BigInt<N>;
    fn from_repr(r: BigInt<N>) -> Option<Self> { if r < P::MODULUS { Some(Self::mont(&r, &P::R2)) } else { None } }
    fn into_repr(&self) -> BigInt<N> { let mut one = [0u64; N]; one[0] = 1; Self::mont(&self.0, &BigInt(one)).0 }
    fn multiplicative_generator() -> Self { Fp(P::GENERATOR, PhantomData) }
}

#[macro_export]
macro_rules! fp_params {
    ($params:ident, $fp:ident, $n:expr, $modulus:expr, $qnr:expr) => {
        pub struct $params;
        pub type $fp = $crate::ff::Fp<$params, $n>;
        impl $params { pub const M: [u64; $n] = $crate::ff::cst::dec::<$n>($modulus); }
        impl $crate::ff::FftParameters for $params {
            type BigInt = $crate::ff::BigInt<$n>;
            const TWO_ADICITY: u32 = $crate::ff::cst::twoadicity(&Self::M);
            const TWO_ADIC_ROOT_OF_UNITY: Self::BigInt = $crate::ff::BigInt($crate::ff::cst::pow(
                &$crate::ff::cst::to_mont(&$crate::ff::cst::dec::<$n>($qnr), &Self::M), &$crate::ff::cst::trace(&Self::M), &Self::M));
        }
        impl $crate::ff::FpParameters for $params {
            const MODULUS: Self::BigInt = $crate::ff::BigInt(Self::M);
            const MODULUS_BITS: u32 = $crate::ff::cst::nbits(&Self::M);
            const REPR_SHAVE_BITS: u32 = 64 * $n - Self::MODULUS_BITS;
            const R: Self::BigInt = $crate::ff::BigInt($crate::ff::cst::pow2_mod::<$n>(64 * $n, &Self::M));
            const R2: Self::BigInt = $crate::ff::BigInt($crate::ff::cst::pow2_mod::<$n>(128 * $n, &Self::M));
            const INV: u64 = $crate::ff::cst::inv64(Self::M[0]);
            const GENERATOR: Self::BigInt = $crate::ff::BigInt($crate::ff::cst::to_mont(&$crate::ff::cst::dec::<$n>($qnr), &Self::M));
            const CAPACITY: u32 = Self::MODULUS_BITS - 1;
            const T: Self::BigInt = $crate::ff::BigInt($crate::ff::cst::trace(&Self::M));
            const T_MINUS_ONE_DIV_TWO: Self::BigInt = $crate::ff::BigInt($crate::ff::cst::shr1(&$crate::ff::cst::trace(&Self::M)));
            const MODULUS_MINUS_ONE_DIV_TWO: Self::BigInt = $crate::ff::BigInt($crate::ff::cst::shr1(&Self::M));
        }
    };
}
/// field element constant from a decimal string
#[macro_export]
macro_rules! fp_const {
    ($params:ident, $n:expr, $s:expr) => {
        $crate::ff::Fp::<$params, $n>::raw($crate::ff::cst::to_mont(&$crate::ff::cst::dec::<$n>($s), &$params::M))
    };
}

// ---------------------------------------------------------------- extension fields
pub trait QuadExtParameters: 'static + Send + Sync + Sized {
    type BasePrimeField: PrimeField;
    type BaseField: Field<BasePrimeField = Self::BasePrimeField>;
    fn mul_by_nonresidue(x: &Self::BaseField) -> Self::BaseField;
}
pub trait CubicExtParameters: 'static + Send + Sync + Sized {
    type BasePrimeField: PrimeField;
    type BaseField: Field<BasePrimeField = Self::BasePrimeField>;
    fn mul_by_nonresidue(x: &Self::BaseField) -> Self::BaseField;
}
pub trait Fp2Parameters: QuadExtParameters {}
impl<P: QuadExtParameters> Fp2Parameters for P {}
pub type Fp2<P> = QuadExtField<P>;

pub struct QuadExtField<P: QuadExtParameters> { pub c0: P::BaseField, pub c1: P::BaseField }
pub struct CubicExtField<P: CubicExtParameters> { pub c0: P::BaseField, pub c1: P::BaseField, pub c2: P::BaseField }

impl<P: QuadExtParameters> QuadExtField<P> {
    #[inline]
    pub fn new(c0: P::BaseField, c1: P::BaseField) -> Self { QuadExtField { c0, c1 } }
    pub fn conjugate(&mut self) { self.c1 = -self.c1; }
    pub fn norm(&self) -> P::BaseField { self.c0.square() - P::mul_by_nonresidue(&self.c1.square()) }
    #[inline(always)]
    fn add_(self, o: &Self) -> Self { Self::new(self.c0 + &o.c0, self.c1 + &o.c1) }
    #[inline(always)]
    fn sub_(self, o: &Self) -> Self { Self::new(self.c0 - &o.c0, self.c1 - &o.c1) }
    #[inline]
    fn mul_(self, o: &Self) -> Self {
        let v0 = self.c0 * &o.c0;
        let v1 = self.c1 * &o.c1;
        let c1 = (self.c0 + &self.c1) * &(o.c0 + &o.c1) - &v0 - &v1;
        Self::new(v0 + &P::mul_by_nonresidue(&v1), c1)
    }
    fn div_(self, o: &Self) -> Self { self.mul_(&o.inverse().unwrap()) }
    pub fn mul_assign_by_basefield(&mut self, e: &P::BaseField) { self.c0 *= e; self.c1 *= e; }
}
impl<P: CubicExtParameters> CubicExtField<P> {
    #[inline]
    pub fn new(c0: P::BaseField, c1: P::BaseField, c2: P::BaseField) -> Self { CubicExtField { c0, c1, c2 } }
    #[inline(always)]
    fn add_(self, o: &Self) -> Self { Self::new(self.c0 + &o.c0, self.c1 + &o.c1, self.c2 + &o.c2) }
    #[inline(always)]
    fn sub_(self, o: &Self) -> Self { Self::new(self.c0 - &o.c0, self.c1 - &o.c1, self.c2 - &o.c2) }
    #[inline]
    fn mul_(self, o: &Self) -> Self {
        let ad = self.c0 * &o.c0;
        let be = self.c1 * &o.c1;
        let cf = self.c2 * &o.c2;
        let x = (self.c1 + &self.c2) * &(o.c1 + &o.c2) - &be - &cf;
        let y = (self.c0 + &self.c1) * &(o.c0 + &o.c1) - &ad - &be;
        let z = (self.c0 + &self.c2) * &(o.c0 + &o.c2) - &ad + &be - &cf;
        Self::new(ad + &P::mul_by_nonresidue(&x), y + &P::mul_by_nonresidue(&cf), z)
    }
    fn div_(self, o: &Self) -> Self { self.mul_(&o.inverse().unwrap()) }
}
field_ops!([P: QuadExtParameters], QuadExtField<P>);
field_ops!([P: CubicExtParameters], CubicExtField<P>);

macro_rules! ext_common {
    ($E:ident, $Pt:ident, $($c:ident),*; $last:ident; $($rev:ident),*; $deg:expr) => {
        impl<P: $Pt> Copy for $E<P> {}
        impl<P: $Pt> Clone for $E<P> { #[inline] fn clone(&self) -> Self { *self } }
        impl<P: $Pt> PartialEq for $E<P> { fn eq(&self, o: &Self) -> bool { $(self.$c == o.$c)&&* } }
        impl<P: $Pt> Eq for $E<P> {}
        impl<P: $Pt> Hash for $E<P> { fn hash<H: Hasher>(&self, h: &mut H) { $(self.$c.hash(h);)* } }
        impl<P: $Pt> Default for $E<P> { fn default() -> Self { Self::zero() } }
        impl<P: $Pt> Debug for $E<P> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "Ext(")?; $(write!(f, "{:?} ", self.$c)?;)* write!(f, ")") } }
        impl<P: $Pt> Display for $E<P> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{:?}", self) } }
        impl<P: $Pt> Ord for $E<P> { fn cmp(&self, o: &Self) -> Ordering { $(match self.$rev.cmp(&o.$rev) { Ordering::Equal => {} x => return x })* Ordering::Equal } }
        impl<P: $Pt> PartialOrd for $E<P> { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { Some(self.cmp(o)) } }
        impl<P: $Pt> Distribution<$E<P>> for Standard { fn sample<R: Rng + ?Sized>(&self, r: &mut R) -> $E<P> { $(let $c = UniformRand::rand(r);)* $E { $($c),* } } }
        impl<P: $Pt> Zero for $E<P> { #[inline] fn zero() -> Self { $E { $($c: P::BaseField::zero()),* } } fn is_zero(&self) -> bool { $(self.$c.is_zero())&&* } }
        impl<P: $Pt> One for $E<P> { #[inline] fn one() -> Self { let mut r = Self::zero(); r.c0 = P::BaseField::one(); r } }
        impl<P: $Pt> Neg for $E<P> { type Output = Self; fn neg(self) -> Self { $E { $($c: -self.$c),* } } }
        impl<P: $Pt> ToBytes for $E<P> { fn write<W: Write>(&self, mut w: W) -> IoResult<()> { $(self.$c.write(&mut w)?;)* Ok(()) } }
        impl<P: $Pt> FromBytes for $E<P> { fn read<R: Read>(mut r: R) -> IoResult<Self> { $(let $c = P::BaseField::read(&mut r)?;)* Ok($E { $($c),* }) } }
        impl<P: $Pt> CanonicalSerializeWithFlags for $E<P> {
            fn serialize_with_flags<W: Write, F: Flags>(&self, mut w: W, flags: F) -> Result<(), SerializationError> {
                let mut parts: Vec<P::BaseField> = vec![$(self.$c),*];
                let l = parts.pop().unwrap();
                for p in parts { p.serialize(&mut w)?; }
                l.serialize_with_flags(w, flags)
            }
            fn serialized_size_with_flags<F: Flags>(&self) -> usize { ($deg - 1) * self.c0.serialized_size() + self.$last.serialized_size_with_flags::<F>() }
        }
        impl<P: $Pt> CanonicalSerialize for $E<P> {
            fn serialize<W: Write>(&self, w: W) -> Result<(), SerializationError> { self.serialize_with_flags(w, EmptyFlags) }
            fn serialized_size(&self) -> usize { $deg * self.c0.serialized_size() }
        }
        impl<P: $Pt> CanonicalDeserializeWithFlags for $E<P> {
            fn deserialize_with_flags<R: Read, F: Flags>(mut r: R) -> Result<(Self, F), SerializationError> {
                let mut v = vec![];
                for _ in 0..$deg - 1 { v.push(P::BaseField::deserialize(&mut r)?); }
                let (l, f) = P::BaseField::deserialize_with_flags(r)?;
                v.push(l);
                let mut i = v.into_iter();
                Ok(($E { $($c: i.next().unwrap()),* }, f))
            }
        }
        impl<P: $Pt> CanonicalDeserialize for $E<P> {
            fn deserialize<R: Read>(mut r: R) -> Result<Self, SerializationError> { $(let $c = P::BaseField::deserialize(&mut r)?;)* Ok($E { $($c),* }) }
        }
        ext_common!(@from $E, $Pt, u128); ext_common!(@from $E, $Pt, u64); ext_common!(@from $E, $Pt, u32);
        ext_common!(@from $E, $Pt, u16); ext_common!(@from $E, $Pt, u8); ext_common!(@from $E, $Pt, bool);
    };
    (@from $E:ident, $Pt:ident, $t:ty) => {
        impl<P: $Pt> From<$t> for $E<P> { fn from(v: $t) -> Self { let mut r = Self::zero(); r.c0 = P::BaseField::from(v); r } }
    };
}
ext_common!(QuadExtField, QuadExtParameters, c0, c1; c1; c1, c0; 2);
ext_common!(CubicExtField, CubicExtParameters, c0, c1, c2; c2; c2, c1, c0; 3);

fn generic_frob<F: Field>(x: &F) -> F { x.pow(F::characteristic()) }

impl<P: QuadExtParameters> Field for QuadExtField<P> {
    type BasePrimeField = P::BasePrimeField;
    fn extension_degree() -> u64 { 2 * P::BaseField::extension_degree() }
    fn double(&self) -> Self { self.add_(self) }
    fn double_in_place(&mut self) -> &mut Self { *self = self.double(); self }
    fn from_random_bytes_with_flags<F: Flags>(bytes: &[u8]) -> Option<(Self, F)> {
        let split = bytes.len() / 2;
        let c0 = P::BaseField::from_random_bytes(&bytes[..split])?;
        let (c1, f) = P::BaseField::from_random_bytes_with_flags(&bytes[split..])?;
        Some((Self::new(c0, c1), f))
    }
    fn square(&self) -> Self {
        let v0 = self.c0 * &self.c1;
        let n = P::mul_by_nonresidue(&v0);
        let c0 = (self.c0 + &self.c1) * &(self.c0 + &P::mul_by_nonresidue(&self.c1)) - &v0 - &n;
        Self::new(c0, v0 + &v0)
    }
    fn square_in_place(&mut self) -> &mut Self { *self = self.square(); self }
    fn inverse(&self) -> Option<Self> {
        self.norm().inverse().map(|i| Self::new(self.c0 * &i, -(self.c1 * &i)))
    }
    fn frobenius_map(&mut self, power: usize) { for _ in 0..power { *self = generic_frob(self); } }
    fn coords(&self) -> Vec<Self::BasePrimeField> { let mut v = self.c0.coords(); v.extend(self.c1.coords()); v }
}
impl<P: CubicExtParameters> Field for CubicExtField<P> {
    type BasePrimeField = P::BasePrimeField;
    fn extension_degree() -> u64 { 3 * P::BaseField::extension_degree() }
    fn double(&self) -> Self { self.add_(self) }
    fn double_in_place(&mut self) -> &mut Self { *self = self.double(); self }
    fn from_random_bytes_with_flags<F: Flags>(bytes: &[u8]) -> Option<(Self, F)> {
        let s = bytes.len() / 3;
        let c0 = P::BaseField::from_random_bytes(&bytes[..s])?;
        let c1 = P::BaseField::from_random_bytes(&bytes[s..2 * s])?;
        let (c2, f) = P::BaseField::from_random_bytes_with_flags(&bytes[2 * s..])?;
        Some((Self::new(c0, c1, c2), f))
    }
    fn square(&self) -> Self { self.mul_(self) }
    fn square_in_place(&mut self) -> &mut Self { *self = self.square(); self }
    fn inverse(&self) -> Option<Self> {
        let (a, b, c) = (self.c0, self.c1, self.c2);
        let t0 = a.square() - &P::mul_by_nonresidue(&(b * &c));
        let t1 = P::mul_by_nonresidue(&c.square()) - &(a * &b);
        let t2 = b.square() - &(a * &c);
        let n = a * &t0 + &P::mul_by_nonresidue(&(c * &t1)) + &P::mul_by_nonresidue(&(b * &t2));
        n.inverse().map(|i| Self::new(t0 * &i, t1 * &i, t2 * &i))
    }
    fn frobenius_map(&mut self, power: usize) { for _ in 0..power { *self = generic_frob(self); } }
    fn coords(&self) -> Vec<Self::BasePrimeField> { let mut v = self.c0.coords(); v.extend(self.c1.coords()); v.extend(self.c2.coords()); v }
}
/// Square roots in a quadratic extension of a prime field
impl<P: QuadExtParameters> SquareRootField for QuadExtField<P>
where
    P::BaseField: SquareRootField,
{
    fn legendre(&self) -> LegendreSymbol { self.norm().legendre() }
    fn sqrt(&self) -> Option<Self> {
        let zero = P::BaseField::zero();
        if self.c1.is_zero() {
            if let Some(s) = self.c0.sqrt() { return Some(Self::new(s, zero)); }
            // c0 = nr * s^2
            let nr = P::mul_by_nonresidue(&P::BaseField::one());
            return (self.c0 * &nr.inverse()?).sqrt().map(|s| Self::new(zero, s));
        }
        let alpha = self.norm().sqrt()?;
        let two_inv = P::BaseField::from(2u64).inverse()?;
        let mut delta = (self.c0 + &alpha) * &two_inv;
        if delta.legendre().is_qnr() { delta -= &alpha; }
        let c0 = delta.sqrt()?;
        let r = Self::new(c0, self.c1 * &two_inv * &c0.inverse()?);
        if r.square() == *self { Some(r) } else { None }
    }
}
pub mod utils {}
pub mod bytes { pub use super::{FromBytes, ToBytes}; }
pub mod prelude { pub use super::{Field, FpParameters, FromBytes, One, PrimeField, SquareRootField, ToBytes, UniformRand, Zero, BigInteger}; }
/// batch inversion
pub fn batch_inversion<F: Field>(v: &mut [F]) {
    for x in v.iter_mut() { if let Some(i) = x.inverse() { *x = i; } }
}

/// conversion into constraint field elements (public inputs)
pub trait ToConstraintField<F: Field> { fn to_field_elements(&self) -> Option<Vec<F>>; }
impl<F: PrimeField> ToConstraintField<F> for F { fn to_field_elements(&self) -> Option<Vec<F>> { Some(vec![*self]) } }
impl<F: PrimeField> ToConstraintField<F> for [F] { fn to_field_elements(&self) -> Option<Vec<F>> { Some(self.to_vec()) } }
impl<F: PrimeField> ToConstraintField<F> for Vec<F> { fn to_field_elements(&self) -> Option<Vec<F>> { Some(self.clone()) } }
impl<F: PrimeField> ToConstraintField<F> for () { fn to_field_elements(&self) -> Option<Vec<F>> { Some(vec![]) } }
impl<F: PrimeField> ToConstraintField<F> for [u8] {
    fn to_field_elements(&self) -> Option<Vec<F>> {
        let n = F::Params::CAPACITY as usize / 8;
        Some(self.chunks(n).map(F::from_le_bytes_mod_order).collect())
    }
}
