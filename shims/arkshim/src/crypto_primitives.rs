//! ark_crypto_primitives
pub type Error = Box<dyn std::error::Error>;

pub mod crh {
    use super::Error;
    use crate::ff::*;
    use crate::r1cs_std::uints::UInt8;
    use crate::r1cs_std::*;
    use crate::relations::r1cs::SynthesisError;
    use rand::Rng;
    use std::fmt::Debug;
    use std::hash::Hash;

    pub trait FixedLengthCRH {
        const INPUT_SIZE_BITS: usize;
        type Output: ToBytes + Clone + Eq + Hash + Default;
        type Parameters: Clone + Default;
        fn setup<R: Rng>(r: &mut R) -> Result<Self::Parameters, Error>;
        fn evaluate(parameters: &Self::Parameters, input: &[u8]) -> Result<Self::Output, Error>;
    }
    pub trait FixedLengthCRHGadget<H: FixedLengthCRH, ConstraintF: Field>: Sized {
        type OutputVar: Debug + Clone + Sized;
        type ParametersVar: AllocVar<H::Parameters, ConstraintF> + Clone;
        fn evaluate(parameters: &Self::ParametersVar, input: &[UInt8<ConstraintF>]) -> Result<Self::OutputVar, SynthesisError>;
    }

    pub mod pedersen {
        pub trait Window: Clone { const WINDOW_SIZE: usize; const NUM_WINDOWS: usize; }
    }
    pub mod bowe_hopwood {
        use super::*;
        use crate::ec::models::TEModelParameters;
        use crate::ec::twisted_edwards_extended::GroupProjective as TEProjective;
        use crate::ec::ProjectiveCurve;
        use std::any::Any;
        use std::collections::HashMap;
        use std::marker::PhantomData;
        use std::sync::{Arc, Mutex, OnceLock};

        pub const CHUNK_SIZE: usize = 3;
        /// Bases of the windows; the per-chunk generators of a window are computed on first use.
        pub struct Parameters<P: TEModelParameters> { pub inner: Arc<Inner<P>> }
        pub struct Inner<P: TEModelParameters> { pub bases: Vec<TEProjective<P>>, pub window_size: usize, pub windows: Vec<OnceLock<Vec<TEProjective<P>>>> }
        impl<P: TEModelParameters> Clone for Parameters<P> { fn clone(&self) -> Self { Parameters { inner: self.inner.clone() } } }
        impl<P: TEModelParameters> Default for Parameters<P> { fn default() -> Self { Parameters { inner: Arc::new(Inner { bases: vec![], window_size: 0, windows: vec![] }) } } }
        impl<P: TEModelParameters> Debug for Parameters<P> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "Bowe-Hopwood-Pedersen Parameters {{ {} }}", self.inner.bases.len()) } }
        impl<P: TEModelParameters> Inner<P> {
            fn window(&self, i: usize) -> &[TEProjective<P>] {
                self.windows[i].get_or_init(|| {
                    let mut base = self.bases[i];
                    let mut v = Vec::with_capacity(self.window_size);
                    for _ in 0..self.window_size { v.push(base); for _ in 0..4 { base.double_in_place(); } }
                    v
                })
            }
        }

        #[derive(Clone, Debug)]
        pub struct CRH<P, W> { _p: PhantomData<fn() -> (P, W)> }

        /// Reads the first 64 bytes of a generator as a cache key and replays them in front of it.
        struct Prefixed<'a, R> { buf: [u32; 16], pos: usize, rng: &'a mut R }
        impl<'a, R: Rng> rand::RngCore for Prefixed<'a, R> {
            fn next_u32(&mut self) -> u32 { if self.pos < 16 { self.pos += 1; self.buf[self.pos - 1] } else { self.rng.next_u32() } }
            fn next_u64(&mut self) -> u64 {
                if self.pos >= 16 { return self.rng.next_u64(); }
                let lo = self.next_u32() as u64;
                let hi = self.next_u32() as u64;
                hi << 32 | lo
            }
            fn fill_bytes(&mut self, d: &mut [u8]) { for c in d.chunks_mut(4) { let b = self.next_u32().to_le_bytes(); c.copy_from_slice(&b[..c.len()]); } }
            fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> { self.fill_bytes(d); Ok(()) }
        }
        type Key = (std::any::TypeId, usize, usize, [u32; 16]);
        static CACHE: OnceLock<Mutex<HashMap<Key, Box<dyn Any + Send>>>> = OnceLock::new();

        impl<P: TEModelParameters, W: pedersen::Window> FixedLengthCRH for CRH<P, W> {
            const INPUT_SIZE_BITS: usize = W::WINDOW_SIZE * W::NUM_WINDOWS;
            type Output = TEProjective<P>;
            type Parameters = Parameters<P>;
            fn setup<R: Rng>(rng: &mut R) -> Result<Self::Parameters, Error> {
                // largest c such that 2 * ((2^(4c) - 1) / 15) stays below (r - 1) / 2
                let half = <P::ScalarField as PrimeField>::modulus_minus_one_div_two();
                let nbits = half.num_bits() as usize;
                // 2 * (16^c - 1)/15 < 2^(4c - 2), so 4c - 2 <= nbits - 1 is safe; one more is checked exactly
                let maxc = (nbits + 1) / 4;
                if W::WINDOW_SIZE > maxc {
                    panic!("Bowe-Hopwood-PedersenCRH hash must have a window size resulting in scalars < (p-1)/2, maximum segment size is {}", maxc);
                }
                let mut buf = [0u32; 16];
                for b in buf.iter_mut() { *b = rng.next_u32(); }
                let key = (std::any::TypeId::of::<P>(), W::WINDOW_SIZE, W::NUM_WINDOWS, buf);
                let mut cache = CACHE.get_or_init(Default::default).lock().unwrap();
                if let Some(p) = cache.get(&key) { return Ok(p.downcast_ref::<Parameters<P>>().unwrap().clone()); }
                let mut r = Prefixed { buf, pos: 0, rng };
                let bases: Vec<TEProjective<P>> = (0..W::NUM_WINDOWS).map(|_| TEProjective::<P>::rand(&mut r)).collect();
                let windows = bases.iter().map(|_| OnceLock::new()).collect();
                let p = Parameters { inner: Arc::new(Inner { bases, window_size: W::WINDOW_SIZE, windows }) };
                cache.insert(key, Box::new(p.clone()));
                Ok(p)
            }
            fn evaluate(parameters: &Self::Parameters, input: &[u8]) -> Result<Self::Output, Error> {
                if input.len() * 8 > W::WINDOW_SIZE * W::NUM_WINDOWS * CHUNK_SIZE {
                    panic!("incorrect input length {:?} for window params {:?}x{:?}x{}", input.len(), W::WINDOW_SIZE, W::NUM_WINDOWS, CHUNK_SIZE);
                }
                assert_eq!(parameters.inner.bases.len(), W::NUM_WINDOWS, "Incorrect pp of size");
                let mut bits: Vec<bool> = input.iter().flat_map(|b| (0..8).map(move |i| b >> i & 1 == 1)).collect();
                while bits.len() % CHUNK_SIZE != 0 { bits.push(false); }
                let mut acc = TEProjective::<P>::zero();
                for (w, seg) in bits.chunks(W::WINDOW_SIZE * CHUNK_SIZE).enumerate() {
                    let gens = parameters.inner.window(w);
                    for (c, g) in seg.chunks(CHUNK_SIZE).zip(gens) {
                        let mut e = *g;
                        if c[0] { e += g; }
                        if c[1] { e += &g.double(); }
                        if c[2] { e = -e; }
                        acc += &e;
                    }
                }
                Ok(acc)
            }
        }
        use crate::ff::Zero;

        pub mod constraints {
            use super::*;
            use crate::r1cs_std::boolean::Boolean;
            use crate::r1cs_std::fields::fp::FpVar;
            use crate::r1cs_std::groups::te::AffineVar;
            use crate::relations::r1cs::*;
            use std::borrow::Borrow;

            pub struct ParametersVar<P: TEModelParameters, W> { params: Parameters<P>, _w: PhantomData<fn() -> W> }
            impl<P: TEModelParameters, W> Clone for ParametersVar<P, W> { fn clone(&self) -> Self { ParametersVar { params: self.params.clone(), _w: PhantomData } } }
            impl<P: TEModelParameters, W, F: Field> AllocVar<Parameters<P>, F> for ParametersVar<P, W> {
                fn new_variable<T: Borrow<Parameters<P>>>(_cs: impl Into<Namespace<F>>, f: impl FnOnce() -> Result<T>, _mode: AllocationMode) -> Result<Self> {
                    Ok(ParametersVar { params: f()?.borrow().clone(), _w: PhantomData })
                }
            }
            /// The hash gadget is ideal: output computed natively and bound to the input variables.
            pub struct CRHGadget<P, F> { _p: PhantomData<fn() -> (P, F)> }
            impl<P: TEModelParameters<BaseField = CF>, W: pedersen::Window, CF: PrimeField> FixedLengthCRHGadget<CRH<P, W>, CF> for CRHGadget<P, FpVar<CF>> {
                type OutputVar = AffineVar<P, FpVar<CF>>;
                type ParametersVar = ParametersVar<P, W>;
                fn evaluate(parameters: &Self::ParametersVar, input: &[UInt8<CF>]) -> Result<Self::OutputVar> {
                    let cs = input.iter().fold(ConstraintSystemRef::None, |c, b| c.or(b.cs()));
                    let bits: Vec<Boolean<CF>> = input.iter().flat_map(|b| b.to_bits_le().unwrap()).collect();
                    let vars = bit_vars(&bits);
                    cs.ideal_gate("bowe-hopwood", &vars, &[bits.len() as u64, W::WINDOW_SIZE as u64, W::NUM_WINDOWS as u64]);
                    let max = W::WINDOW_SIZE * W::NUM_WINDOWS * CHUNK_SIZE;
                    assert!(bits.len() <= max, "incorrect input bitlength {} for window params", bits.len());
                    let bytes: Option<Vec<u8>> = input.iter().map(|b| b.value().ok()).collect();
                    let out = bytes.map(|b| CRH::<P, W>::evaluate(&parameters.params, &b).unwrap().into_affine());
                    if cs.is_none() {
                        let p = out.ok_or(SynthesisError::AssignmentMissing)?;
                        return Ok(AffineVar::new(FpVar::Constant(p.x), FpVar::Constant(p.y)));
                    }
                    tamper::exempt(|| {
                        let x = FpVar::new_witness(cs.clone(), || out.map(|p| p.x).get())?;
                        let y = FpVar::new_witness(cs.clone(), || out.map(|p| p.y).get())?;
                        Ok(AffineVar::new(x, y))
                    })
                }
            }
        }
    }
    use crate::r1cs_std::boolean::Boolean;
    use crate::relations::r1cs::Variable;
    pub(crate) fn bit_vars<F: Field>(bits: &[Boolean<F>]) -> Vec<Variable> {
        let mut v = vec![];
        for b in bits {
            match b {
                Boolean::Is(a) => v.push(a.variable),
                Boolean::Not(a) => { v.push(Variable::One); v.push(a.variable) }
                Boolean::Constant(true) => v.push(Variable::One),
                Boolean::Constant(false) => v.push(Variable::Zero),
            }
        }
        v
    }
}

pub mod prf {
    pub use blake2s::Blake2sWithParameterBlock;
    pub mod blake2s {
        /// raw Blake2s: h = IV ^ parameter words, sequential, no key
        pub fn raw(params: &[u32; 8], msg: &[u8]) -> [u32; 8] {
            const IV: [u32; 8] = [0x6A09E667, 0xBB67AE85, 0x3C6EF372, 0xA54FF53A, 0x510E527F, 0x9B05688C, 0x1F83D9AB, 0x5BE0CD19];
            const S: [[usize; 16]; 10] = [
                [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15], [14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3],
                [11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4], [7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8],
                [9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13], [2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9],
                [12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11], [13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10],
                [6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5], [10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0],
            ];
            let mut h = [0u32; 8];
            for i in 0..8 { h[i] = IV[i] ^ params[i]; }
            let n = if msg.is_empty() { 1 } else { (msg.len() + 63) / 64 };
            for b in 0..n {
                let mut block = [0u8; 64];
                let end = std::cmp::min(msg.len(), b * 64 + 64);
                block[..end - b * 64].copy_from_slice(&msg[b * 64..end]);
                let mut m = [0u32; 16];
                for (i, w) in m.iter_mut().enumerate() { *w = u32::from_le_bytes([block[4 * i], block[4 * i + 1], block[4 * i + 2], block[4 * i + 3]]); }
                let t = end as u64;
                let mut v = [0u32; 16];
                v[..8].copy_from_slice(&h);
                v[8..].copy_from_slice(&IV);
                v[12] ^= t as u32;
                v[13] ^= (t >> 32) as u32;
                if b == n - 1 { v[14] = !v[14]; }
                for s in &S {
                    let mut g = |a: usize, b: usize, c: usize, d: usize, x: u32, y: u32| {
                        v[a] = v[a].wrapping_add(v[b]).wrapping_add(x); v[d] = (v[d] ^ v[a]).rotate_right(16);
                        v[c] = v[c].wrapping_add(v[d]); v[b] = (v[b] ^ v[c]).rotate_right(12);
                        v[a] = v[a].wrapping_add(v[b]).wrapping_add(y); v[d] = (v[d] ^ v[a]).rotate_right(8);
                        v[c] = v[c].wrapping_add(v[d]); v[b] = (v[b] ^ v[c]).rotate_right(7);
                    };
                    g(0, 4, 8, 12, m[s[0]], m[s[1]]); g(1, 5, 9, 13, m[s[2]], m[s[3]]); g(2, 6, 10, 14, m[s[4]], m[s[5]]); g(3, 7, 11, 15, m[s[6]], m[s[7]]);
                    g(0, 5, 10, 15, m[s[8]], m[s[9]]); g(1, 6, 11, 12, m[s[10]], m[s[11]]); g(2, 7, 8, 13, m[s[12]], m[s[13]]); g(3, 4, 9, 14, m[s[14]], m[s[15]]);
                }
                for i in 0..8 { h[i] ^= v[i] ^ v[i + 8]; }
            }
            h
        }
        #[derive(Clone, Debug, Default)]
        pub struct Blake2sWithParameterBlock {
            pub digest_length: u8, pub key_length: u8, pub fan_out: u8, pub depth: u8,
            pub leaf_length: u32, pub node_offset: u32, pub xof_digest_length: u16,
            pub node_depth: u8, pub inner_length: u8, pub salt: [u8; 8], pub personalization: [u8; 8],
        }
        impl Blake2sWithParameterBlock {
            pub fn parameters(&self) -> [u32; 8] {
                let le = |b: &[u8]| u32::from_le_bytes([b[0], b[1], b[2], b[3]]);
                [
                    self.digest_length as u32 | (self.key_length as u32) << 8 | (self.fan_out as u32) << 16 | (self.depth as u32) << 24,
                    self.leaf_length,
                    self.node_offset,
                    self.xof_digest_length as u32 | (self.node_depth as u32) << 16 | (self.inner_length as u32) << 24,
                    le(&self.salt[..4]), le(&self.salt[4..]), le(&self.personalization[..4]), le(&self.personalization[4..]),
                ]
            }
            pub fn evaluate(&self, input: &[u8]) -> Vec<u8> { raw(&self.parameters(), input).iter().flat_map(|w| w.to_le_bytes().to_vec()).collect() }
        }
        pub mod constraints {
            use super::*;
            use crate::ff::*;
            use crate::r1cs_std::boolean::Boolean;
            use crate::r1cs_std::uints::UInt32;
            use crate::r1cs_std::*;
            use crate::relations::r1cs::*;
            pub fn evaluate_blake2s<F: PrimeField>(input: &[Boolean<F>]) -> Result<Vec<UInt32<F>>> {
                let mut p = [0u32; 8];
                p[0] = 0x01010000 ^ 32;
                evaluate_blake2s_with_parameters(input, &p)
            }
            /// Ideal gadget: the digest is computed natively from the values of the input variables;
            /// the output bits are variables bound to (input variables, parameters).
            pub fn evaluate_blake2s_with_parameters<F: PrimeField>(input: &[Boolean<F>], parameters: &[u32; 8]) -> Result<Vec<UInt32<F>>> {
                assert!(input.len() % 8 == 0);
                let cs = input.cs();
                let params: Vec<u64> = parameters.iter().map(|p| *p as u64).collect();
                cs.ideal_gate("blake2s", &crate::crypto_primitives::crh::bit_vars(input), &params);
                let vals: Option<Vec<bool>> = input.iter().map(|b| b.value().ok()).collect();
                let out = vals.map(|v| {
                    let bytes: Vec<u8> = v.chunks(8).map(|c| c.iter().enumerate().fold(0u8, |a, (i, b)| a | (*b as u8) << i)).collect();
                    raw(parameters, &bytes)
                });
                if cs.is_none() { return Ok(out.ok_or(SynthesisError::AssignmentMissing)?.iter().map(|w| UInt32::constant(*w)).collect()); }
                tamper::exempt(|| {
                    (0..8).map(|i| UInt32::new_witness(cs.clone(), || out.map(|o| o[i]).get())).collect()
                })
            }
        }
    }
}

pub mod snark {
    use crate::ff::*;
    use crate::r1cs_std::boolean::Boolean;
    use crate::relations::r1cs::*;
    pub trait SNARK<F: PrimeField> {
        type ProvingKey: Clone;
        type VerifyingKey: Clone;
        type Proof: Clone;
        type ProcessedVerifyingKey: Clone;
        type Error: 'static + std::error::Error;
    }
    pub trait SNARKGadget<F: PrimeField, ConstraintF: PrimeField, S: SNARK<F>> {
        type VerifyingKeyVar: Clone;
        type InputVar: Clone;
        type ProofVar: Clone;
        fn verify(circuit_vk: &Self::VerifyingKeyVar, x: &Self::InputVar, proof: &Self::ProofVar) -> Result<Boolean<ConstraintF>>;
    }
    #[derive(Clone)]
    pub struct BooleanInputVar<F: PrimeField, CF: PrimeField> { pub val: Vec<Vec<Boolean<CF>>>, _f: std::marker::PhantomData<F> }
    impl<F: PrimeField, CF: PrimeField> BooleanInputVar<F, CF> {
        pub fn new(val: Vec<Vec<Boolean<CF>>>) -> Self { BooleanInputVar { val, _f: std::marker::PhantomData } }
    }
}
