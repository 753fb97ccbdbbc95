//! Reference models: hash to curve, Bowe-Hopwood hash, point encodings. They share the field and
//! curve arithmetic of the stand-ins with the code under test, and nothing else.
use ark_bls12_377::{g1, g2, Fq, Fq2, Fr, G1Affine, G1Projective, G2Affine, G2Projective};
use ark_ec::models::short_weierstrass_jacobian::{GroupAffine, GroupProjective};
use ark_ec::models::SWModelParameters;
use ark_ec::{AffineCurve, ProjectiveCurve};
use ark_ff::{BigInteger, BigInteger384, Field, FpParameters, PrimeField, SquareRootField, One, UniformRand, Zero};
use ark_ed_on_bw6_761::EdwardsProjective;
use pbt::blake2s_ref as b2;
use rand::SeedableRng;
use rand_chacha::ChaChaRng;
use std::sync::OnceLock;

// ------------------------------------------------------------------ fields
/// 48 little-endian bytes cut to 377 bits, as a base field element if below the modulus.
pub fn fq_masked(bytes: &[u8]) -> Option<Fq> {
    assert_eq!(bytes.len(), 48);
    let mut b = bytes.to_vec();
    b[47] &= 1;
    fq(&b)
}
/// 48 little-endian bytes as a base field element if below the modulus.
pub fn fq(bytes: &[u8]) -> Option<Fq> {
    let mut l = [0u64; 6];
    for i in 0..48 { l[i / 8] |= (bytes[i] as u64) << (8 * (i % 8)); }
    let v = BigInteger384::new(l);
    if v >= <Fq as PrimeField>::Params::MODULUS { None } else { Fq::from_repr(v) }
}
pub fn fq_bytes(x: &Fq) -> Vec<u8> {
    let l = x.into_repr();
    (0..48).map(|i| (l.as_ref()[i / 8] >> (8 * (i % 8))) as u8).collect()
}
pub fn fr_bytes(x: &Fr) -> Vec<u8> {
    let l = x.into_repr();
    (0..32).map(|i| (l.as_ref()[i / 8] >> (8 * (i % 8))) as u8).collect()
}
/// whether an element is above (p-1)/2
pub fn fq_high(x: &Fq) -> bool {
    let mut d = x.into_repr();
    let carry = d.add_nocarry(&x.into_repr());
    carry || d >= <Fq as PrimeField>::Params::MODULUS
}
/// the sign of a y coordinate: whether it is the larger of y and -y
pub trait Sign { fn high(&self) -> bool; fn bytes(&self) -> Vec<u8>; }
impl Sign for Fq { fn high(&self) -> bool { fq_high(self) } fn bytes(&self) -> Vec<u8> { fq_bytes(self) } }
impl Sign for Fq2 {
    fn high(&self) -> bool { if self.c1.is_zero() { fq_high(&self.c0) } else { fq_high(&self.c1) } }
    fn bytes(&self) -> Vec<u8> { [fq_bytes(&self.c0), fq_bytes(&self.c1)].concat() }
}

// ------------------------------------------------------------------ hash to curve
pub trait RefCurve: SWModelParameters {
    const BYTES: usize;
    fn x_from(bytes: &[u8]) -> Option<Self::BaseField>;
    fn y_high(y: &Self::BaseField) -> bool;
}
impl RefCurve for g1::Parameters {
    const BYTES: usize = 48;
    fn x_from(b: &[u8]) -> Option<Fq> { fq_masked(b) }
    fn y_high(y: &Fq) -> bool { y.high() }
}
impl RefCurve for g2::Parameters {
    const BYTES: usize = 96;
    fn x_from(b: &[u8]) -> Option<Fq2> { Some(Fq2::new(fq_masked(&b[..48])?, fq_masked(&b[48..])?)) }
    fn y_high(y: &Fq2) -> bool { y.high() }
}
/// plain double-and-add over the bits of an integer
pub fn mul<P: SWModelParameters>(p: &GroupProjective<P>, k: &[u64]) -> GroupProjective<P> {
    let mut r = GroupProjective::<P>::zero();
    for i in (0..64 * k.len()).rev() {
        r = r + r;
        if k[i / 64] >> (i % 64) & 1 == 1 { r = r + *p; }
    }
    r
}
pub fn in_subgroup<P: SWModelParameters>(p: &GroupProjective<P>) -> bool { mul(p, <P::ScalarField as PrimeField>::Params::MODULUS.as_ref()).is_zero() }
/// bytes needed for n bytes of output in whole 256-bit blocks
pub fn hash_length(n: usize) -> usize { (n + 31) / 32 * 32 }

/// The point that one candidate string leads to, None if it is to be skipped.
pub fn candidate<P: RefCurve>(hash: &[u8], compat: bool) -> Option<GroupProjective<P>> {
    let b = &hash[..P::BYTES];
    let x = P::x_from(b)?;
    let last = b[P::BYTES - 1];
    let want_high = if compat { last & 2 != 0 } else { last & 0x80 != 0 };
    if x.is_zero() && last & 0x40 != 0 { return None; } // the point at infinity
    let rhs = x * x * x + P::COEFF_A * x + P::COEFF_B;
    let y = rhs.sqrt()?;
    assert!(y * y == rhs);
    let y = if P::y_high(&y) == want_high { y } else { -y };
    let p: GroupProjective<P> = GroupAffine::<P>::new(x, y, false).into();
    let p = mul(&p, P::COFACTOR);
    if p.is_zero() { None } else { Some(p) }
}
/// Try and increment: the first of 255 counters whose candidate is good.
pub fn try_and_increment<P: RefCurve>(compat: bool, mut hash: impl FnMut(u8) -> Vec<u8>) -> Option<(GroupProjective<P>, usize)> {
    for c in 0..255u8 { if let Some(p) = candidate::<P>(&hash(c), compat) { return Some((p, c as usize)); } }
    None
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Hash { Direct, Composite, CompositeCip22, DirectCip22 }
pub fn hash_to_curve<P: RefCurve>(h: Hash, compat: bool, domain: &[u8], message: &[u8], extra: &[u8]) -> Option<(GroupProjective<P>, usize)> {
    let n = hash_length(P::BYTES);
    match h {
        Hash::Direct => try_and_increment::<P>(compat, |c| b2::hash(domain, &[&[c], extra, message].concat(), n)),
        Hash::Composite => try_and_increment::<P>(compat, |c| b2::xof(domain, &bh_crh(&[&[c], extra, message].concat()), n)),
        Hash::DirectCip22 => { let i = b2::crh(domain, message, n); try_and_increment::<P>(compat, |c| b2::xof(domain, &[&[c], extra, &i[..]].concat(), n)) }
        Hash::CompositeCip22 => { let i = bh_crh(message); try_and_increment::<P>(compat, |c| b2::xof(domain, &[&[c], extra, &i[..]].concat(), n)) }
    }
}
pub fn h2g1(h: Hash, domain: &[u8], message: &[u8], extra: &[u8]) -> G1Projective { hash_to_curve::<g1::Parameters>(h, true, domain, message, extra).unwrap().0 }

// ------------------------------------------------------------------ Bowe-Hopwood-Pedersen hash
pub const BH_WINDOW: usize = 93;
pub const BH_WINDOWS: usize = 560;
/// the longest message in bytes
pub const BH_MAX: usize = BH_WINDOW * BH_WINDOWS * 3 / 8;
fn bh_bases() -> &'static Vec<EdwardsProjective> {
    static B: OnceLock<Vec<EdwardsProjective>> = OnceLock::new();
    B.get_or_init(|| {
        let seed = b2::blake2s(&b2::Param { digest_length: 32, fanout: 1, depth: 1, leaf_length: 0, node_offset: 0, node_depth: 0, inner_length: 0, personal: *b"UL_prngs" }, b"ULTRALIGHT PRNG SEED");
        let mut s = [0u8; 32];
        s.copy_from_slice(&seed);
        let mut rng = ChaChaRng::from_seed(s);
        (0..BH_WINDOWS).map(|_| EdwardsProjective::rand(&mut rng)).collect()
    })
}
pub fn bh_point(msg: &[u8]) -> EdwardsProjective {
    assert!(msg.len() <= BH_MAX);
    let bit = |i: usize| i < 8 * msg.len() && msg[i / 8] >> (i % 8) & 1 == 1;
    let chunks = (8 * msg.len() + 2) / 3;
    let mut acc = EdwardsProjective::zero();
    let bases = bh_bases();
    // windows in reverse, Horner over the chunks of each window (step 16)
    for w in 0..(chunks + BH_WINDOW - 1) / BH_WINDOW {
        let mut s = EdwardsProjective::zero();
        for j in (0..BH_WINDOW.min(chunks - w * BH_WINDOW)).rev() {
            for _ in 0..4 { s = s + s; }
            let i = 3 * (w * BH_WINDOW + j);
            let mut g = bases[w];
            if bit(i) { g = g + bases[w]; }
            if bit(i + 1) { g = g + bases[w] + bases[w]; }
            if bit(i + 2) { g = -g; }
            s = s + g;
        }
        acc = acc + s;
    }
    acc
}
/// The x coordinate of the hash, 48 bytes.
pub fn bh_crh(msg: &[u8]) -> Vec<u8> { fq_bytes(&bh_point(msg).into_affine().x) }
pub fn composite_hash(domain: &[u8], msg: &[u8], len: usize) -> Vec<u8> { b2::xof(domain, &bh_crh(msg), len) }

// ------------------------------------------------------------------ point encodings
pub fn compress<P: SWModelParameters>(p: &GroupProjective<P>) -> Vec<u8> where P::BaseField: Sign {
    let a = p.into_affine();
    if p.is_zero() { let mut v = P::BaseField::zero().bytes(); let n = v.len(); v[n - 1] |= 0x40; return v; }
    let mut v = a.x.bytes();
    let n = v.len();
    if a.y.high() { v[n - 1] |= 0x80; }
    v
}
pub fn uncompressed<P: SWModelParameters>(p: &GroupProjective<P>) -> Vec<u8> where P::BaseField: Sign {
    let a = p.into_affine();
    // the identity is stored as (0, 1) with its flag
    if p.is_zero() { let mut v = [P::BaseField::zero().bytes(), P::BaseField::one().bytes()].concat(); let n = v.len(); v[n - 1] |= 0x40; return v; }
    [a.x.bytes(), a.y.bytes()].concat()
}
pub fn g1() -> G1Projective { G1Affine::prime_subgroup_generator().into_projective() }
pub fn g2() -> G2Projective { G2Affine::prime_subgroup_generator().into_projective() }
pub fn smul<P: SWModelParameters<ScalarField = Fr>>(p: &GroupProjective<P>, k: &Fr) -> GroupProjective<P> { mul(p, k.into_repr().as_ref()) }

// ------------------------------------------------------------------ generators
/// scalars: mostly random, with small values and values near the group order
pub fn scalar(c: &mut pbt::Case) -> Fr {
    match c.weighted(&[2, 1, 6]) {
        0 => Fr::from(c.below(6)),
        1 => -Fr::from(1 + c.below(5)),
        _ => { let mut s = [0u8; 32]; for k in 0..4 { s[8 * k..8 * k + 8].copy_from_slice(&c.u64().to_le_bytes()); } Fr::from_le_bytes_mod_order(&s) }
    }
}
/// a primitive cube root of unity: multiplication by it keeps the y coordinate of a point
pub fn lambda() -> Fr {
    static L: OnceLock<Fr> = OnceLock::new();
    *L.get_or_init(|| {
        // (p - 1) / 3
        let mut e = <Fr as PrimeField>::Params::MODULUS;
        e.as_mut()[0] -= 1;
        let mut rem = 0u128;
        for l in e.as_mut().iter_mut().rev() { let v = (rem << 64) | *l as u128; *l = (v / 3) as u64; rem = v % 3; }
        assert_eq!(rem, 0);
        for g in 2u64.. { let l = Fr::from(g).pow(e.as_ref()); if !l.is_one() { return l; } }
        unreachable!()
    })
}
/// a scalar that stands in a simple relation to another one
pub fn related(c: &mut pbt::Case, s: &Fr) -> Fr {
    match c.below(8) { 0 | 1 => *s, 2 => -*s, 3 => lambda() * s, 4 => lambda().square() * s, 5 => -(lambda() * s), 6 => *s + Fr::one(), _ => *s + *s }
}
/// scalars, some of them related to earlier ones
pub fn scalars(c: &mut pbt::Case, n: usize) -> Vec<Fr> {
    let mut v: Vec<Fr> = vec![];
    for _ in 0..n { let s = if !v.is_empty() && c.chance(1, 4) { let i = c.size(0, v.len() - 1); let s = v[i]; related(c, &s) } else if n > 24 { random_scalar(c) } else { scalar(c) }; v.push(s); }
    v
}
pub fn nonzero_scalar(c: &mut pbt::Case) -> Fr { let s = scalar(c); if s.is_zero() { Fr::from(1u64) } else { s } }
pub fn random_scalar(c: &mut pbt::Case) -> Fr { let mut s = [0u8; 32]; for k in 0..4 { s[8 * k..8 * k + 8].copy_from_slice(&c.u64().to_le_bytes()); } let r = Fr::from_le_bytes_mod_order(&s); if r.is_zero() { Fr::from(1u64) } else { r } }
/// a representation of the same point with another z coordinate
pub fn rescale<P: SWModelParameters>(p: &GroupProjective<P>, z: P::BaseField) -> GroupProjective<P> {
    if z.is_zero() || p.is_zero() { return *p; }
    let z2 = z.square();
    GroupProjective::<P>::new(p.x * z2, p.y * z2 * z, p.z * z)
}
/// a point on the curve outside the prime-order subgroup, found from a starting x
pub fn off_subgroup<P: RefCurve>(mut x: P::BaseField) -> GroupProjective<P> {
    loop {
        x += P::BaseField::one();
        if let Some(y) = (x * x * x + P::COEFF_A * x + P::COEFF_B).sqrt() {
            let p: GroupProjective<P> = GroupAffine::<P>::new(x, y, false).into();
            if !in_subgroup(&p) { return p; }
        }
    }
}
