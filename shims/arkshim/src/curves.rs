//! ark_bls12_377, ark_bw6_761, ark_ed_on_bw6_761
use crate::ec::models::*;
use crate::ec::models_bls12::{Bls12, Bls12Parameters, TwistType};
use crate::ec::short_weierstrass_jacobian as sw;
use crate::ec::twisted_edwards_extended as te;
use crate::ec::*;
use crate::ff::*;

pub mod bls12_377 {
    use super::*;
    fp_params!(FqParameters, Fq, 6, "258664426012969094010652733694893533536393512754914660539884262666720468348340822774968888139573360124440321458177", "5");
    fp_params!(FrParameters, Fr, 4, "8444461749428370424248824938781546531375899335154063827935233455917409239041", "11");
    #[derive(Copy, Clone, PartialEq, Eq, Debug)]
    pub struct Fq2Parameters;
    #[derive(Copy, Clone, PartialEq, Eq, Debug)]
    pub struct Fq6Parameters;
    #[derive(Copy, Clone, PartialEq, Eq, Debug)]
    pub struct Fq12Parameters;
    pub type Fq2 = Fp2<Fq2Parameters>;
    pub type Fq6 = CubicExtField<Fq6Parameters>;
    pub type Fq12 = QuadExtField<Fq12Parameters>;
    impl QuadExtParameters for Fq2Parameters {
        type BasePrimeField = Fq;
        type BaseField = Fq;
        #[inline(always)]
        fn mul_by_nonresidue(x: &Fq) -> Fq { let d = x.double().double(); -(d + x) }
    }
    impl CubicExtParameters for Fq6Parameters {
        type BasePrimeField = Fq;
        type BaseField = Fq2;
        #[inline(always)]
        fn mul_by_nonresidue(x: &Fq2) -> Fq2 { Fq2::new(Fq2Parameters::mul_by_nonresidue(&x.c1), x.c0) }
    }
    impl QuadExtParameters for Fq12Parameters {
        type BasePrimeField = Fq;
        type BaseField = Fq6;
        #[inline(always)]
        fn mul_by_nonresidue(x: &Fq6) -> Fq6 { Fq6::new(Fq6Parameters::mul_by_nonresidue(&x.c2), x.c0, x.c1) }
    }
    #[derive(Copy, Clone, PartialEq, Eq, Debug)]
    pub struct Parameters;
    pub mod g1 {
        use super::*;
        #[derive(Copy, Clone, Default, PartialEq, Eq, Debug)]
        pub struct Parameters;
        impl ModelParameters for Parameters { type BaseField = Fq; type ScalarField = Fr; }
        impl SWModelParameters for Parameters {
            const COEFF_A: Fq = Fq::raw([0; 6]);
            const COEFF_B: Fq = fp_const!(FqParameters, 6, "1");
            const COFACTOR: &'static [u64] = &[0x0, 0x170b5d4430000000];
            const AFFINE_GENERATOR_COEFFS: (Fq, Fq) = (
                fp_const!(FqParameters, 6, "81937999373150964239938255573465948239988671502647976594219695644855304257327692006745978603320413799295628339695"),
                fp_const!(FqParameters, 6, "241266749859715473739788878240585681733927191168601896383759122102112907357779751001206799952863815012735208165030"),
            );
            fn cofactor_inv() -> Fr { scalar_cofactor_inv(Self::COFACTOR) }
        }
        pub type G1Affine = super::G1Affine;
        pub type G1Projective = super::G1Projective;
    }
    pub mod g2 {
        use super::*;
        #[derive(Copy, Clone, Default, PartialEq, Eq, Debug)]
        pub struct Parameters;
        const fn fq2(c0: Fq, c1: Fq) -> Fq2 { QuadExtField { c0, c1 } }
        const H2: [u64; 8] = cst::dec::<8>("7923214915284317143930293550643874566881017850177945424769256759165301436616933228209277966774092486467289478618404761412630691835764674559376407658497");
        impl ModelParameters for Parameters { type BaseField = Fq2; type ScalarField = Fr; }
        impl SWModelParameters for Parameters {
            const COEFF_A: Fq2 = fq2(Fq::raw([0; 6]), Fq::raw([0; 6]));
            // 1/u
            const COEFF_B: Fq2 = fq2(Fq::raw([0; 6]), fp_const!(FqParameters, 6, "155198655607781456406391640216936120121836107652948796323930557600032281009004493664981332883744016074664192874906"));
            const COFACTOR: &'static [u64] = &H2;
            const AFFINE_GENERATOR_COEFFS: (Fq2, Fq2) = (
                fq2(fp_const!(FqParameters, 6, "233578398248691099356572568220835526895379068987715365179118596935057653620464273615301663571204657964920925606294"),
                    fp_const!(FqParameters, 6, "140913150380207355837477652521042157274541796891053068589147167627541651775299824604154852141315666357241556069118")),
                fq2(fp_const!(FqParameters, 6, "63160294768292073209381361943935198908131692476676907196754037919244929611450776219210369229519898517858833747423"),
                    fp_const!(FqParameters, 6, "149157405641012693445398062341192467754805999074082136895788947234480009303640899064710353187729182149407503257491")),
            );
            fn cofactor_inv() -> Fr { scalar_cofactor_inv(Self::COFACTOR) }
        }
        pub type G2Affine = super::G2Affine;
        pub type G2Projective = super::G2Projective;
    }
    impl Bls12Parameters for Parameters {
        const X: &'static [u64] = &[0x8508c00000000001];
        const X_IS_NEGATIVE: bool = false;
        const TWIST_TYPE: TwistType = TwistType::D;
        type Fp = Fq;
        type Fp2Params = Fq2Parameters;
        type Fp6Params = Fq6Parameters;
        type Fp12Params = Fq12Parameters;
        type G1Parameters = g1::Parameters;
        type G2Parameters = g2::Parameters;
    }
    pub type Bls12_377 = Bls12<Parameters>;
    pub type G1Affine = sw::GroupAffine<g1::Parameters>;
    pub type G1Projective = sw::GroupProjective<g1::Parameters>;
    pub type G2Affine = sw::GroupAffine<g2::Parameters>;
    pub type G2Projective = sw::GroupProjective<g2::Parameters>;
    pub mod constraints {
        use super::*;
        pub use crate::r1cs_std::fields::fp::FpVar;
        pub type FqVar = FpVar<Fq>;
        pub type Fq2Var = crate::r1cs_std::fields::Fp2Var<Fq2Parameters>;
        pub type G1Var = crate::r1cs_std::groups::bls12::G1Var<Parameters>;
        pub type G2Var = crate::r1cs_std::groups::bls12::G2Var<Parameters>;
        pub type G1PreparedVar = crate::r1cs_std::groups::bls12::G1PreparedVar<Parameters>;
        pub type G2PreparedVar = crate::r1cs_std::groups::bls12::G2PreparedVar<Parameters>;
        pub type PairingVar = crate::r1cs_std::pairing::bls12::PairingVar<Parameters>;
    }
}

pub mod ed_on_bw6_761 {
    use super::*;
    pub use super::bls12_377::{Fq, FqParameters};
    fp_params!(FrParameters, Fr, 6, "32333053251621136751331591711861691692049189094364332567435817881934511297123972799646723302813083835942624121493", "2");
    #[derive(Copy, Clone, Default, PartialEq, Eq, Debug)]
    pub struct EdwardsParameters;
    impl ModelParameters for EdwardsParameters { type BaseField = Fq; type ScalarField = Fr; }
    impl TEModelParameters for EdwardsParameters {
        const COEFF_A: Fq = fp_const!(FqParameters, 6, "258664426012969094010652733694893533536393512754914660539884262666720468348340822774968888139573360124440321458176");
        const COEFF_D: Fq = fp_const!(FqParameters, 6, "79743");
        const COFACTOR: &'static [u64] = &[8];
        const AFFINE_GENERATOR_COEFFS: (Fq, Fq) = (
            fp_const!(FqParameters, 6, "174701772324485506941690903512423551998294352968833659960042362742684869862495746426366187462669992073196420267127"),
            fp_const!(FqParameters, 6, "208487200052258845495340374451540775445408439654930191324011635560142523886549663106522691296420655144190624954833"),
        );
        type MontgomeryModelParameters = EdwardsParameters;
        fn mul_by_a(e: &Fq) -> Fq { -*e }
    }
    impl MontgomeryModelParameters for EdwardsParameters { type TEModelParameters = EdwardsParameters; }
    pub type EdwardsAffine = te::GroupAffine<EdwardsParameters>;
    pub type EdwardsProjective = te::GroupProjective<EdwardsParameters>;
}

pub mod bw6_761 {
    use super::*;
    use std::fmt::Debug;
    use std::io::Result as IoResult;
    pub use super::bls12_377::{Fq as Fr, FqParameters as FrParameters};
    fp_params!(FqParameters, Fq, 12, "6891450384315732539396789682275657542479668912536150109513790160209623422243491736087683183289411687640864567753786613451161759120554247759349511699125301598951605099378508850372543631423596795951899700429969112842764913119068299", "2");
    #[derive(Copy, Clone, PartialEq, Eq, Debug)]
    pub struct Fq3Parameters;
    #[derive(Copy, Clone, PartialEq, Eq, Debug)]
    pub struct Fq6Parameters;
    pub type Fq3 = CubicExtField<Fq3Parameters>;
    pub type Fq6 = QuadExtField<Fq6Parameters>;
    impl CubicExtParameters for Fq3Parameters {
        type BasePrimeField = Fq;
        type BaseField = Fq;
        #[inline(always)]
        fn mul_by_nonresidue(x: &Fq) -> Fq { -x.double().double() }
    }
    impl QuadExtParameters for Fq6Parameters {
        type BasePrimeField = Fq;
        type BaseField = Fq3;
        #[inline(always)]
        fn mul_by_nonresidue(x: &Fq3) -> Fq3 { Fq3::new(Fq3Parameters::mul_by_nonresidue(&x.c2), x.c0, x.c1) }
    }
    pub mod g1 {
        use super::*;
        #[derive(Copy, Clone, Default, PartialEq, Eq, Debug)]
        pub struct Parameters;
        const H: [u64; 6] = cst::dec::<6>("26642435879335816683987677701488073867751118270052650655942102502312977592501693353047140953112195348280268661194876");
        impl ModelParameters for Parameters { type BaseField = Fq; type ScalarField = Fr; }
        impl SWModelParameters for Parameters {
            const COEFF_A: Fq = Fq::raw([0; 12]);
            const COEFF_B: Fq = fp_const!(FqParameters, 12, "6891450384315732539396789682275657542479668912536150109513790160209623422243491736087683183289411687640864567753786613451161759120554247759349511699125301598951605099378508850372543631423596795951899700429969112842764913119068298");
            const COFACTOR: &'static [u64] = &H;
            const AFFINE_GENERATOR_COEFFS: (Fq, Fq) = (fp_const!(FqParameters, 12, G1X), fp_const!(FqParameters, 12, G1Y));
            fn cofactor_inv() -> Fr { scalar_cofactor_inv(Self::COFACTOR) }
        }
    }
    pub mod g2 {
        use super::*;
        #[derive(Copy, Clone, Default, PartialEq, Eq, Debug)]
        pub struct Parameters;
        const H: [u64; 6] = cst::dec::<6>("26642435879335816683987677701488073867751118270052650655942102502312977592501693353047140953112195348280268661194869");
        impl ModelParameters for Parameters { type BaseField = Fq; type ScalarField = Fr; }
        impl SWModelParameters for Parameters {
            const COEFF_A: Fq = Fq::raw([0; 12]);
            const COEFF_B: Fq = fp_const!(FqParameters, 12, "4");
            const COFACTOR: &'static [u64] = &H;
            const AFFINE_GENERATOR_COEFFS: (Fq, Fq) = (fp_const!(FqParameters, 12, G2X), fp_const!(FqParameters, 12, G2Y));
            fn cofactor_inv() -> Fr { scalar_cofactor_inv(Self::COFACTOR) }
        }
    }
    include!("bw6_gens.rs");
    pub type G1Affine = sw::GroupAffine<g1::Parameters>;
    pub type G1Projective = sw::GroupProjective<g1::Parameters>;
    pub type G2Affine = sw::GroupAffine<g2::Parameters>;
    pub type G2Projective = sw::GroupProjective<g2::Parameters>;

    #[derive(Clone, Debug)]
    pub struct G1Prepared(pub G1Affine);
    #[derive(Clone, Debug)]
    pub struct G2Prepared(pub G2Affine);
    impl Default for G1Prepared { fn default() -> Self { G1Prepared(G1Affine::prime_subgroup_generator()) } }
    impl Default for G2Prepared { fn default() -> Self { G2Prepared(G2Affine::prime_subgroup_generator()) } }
    impl From<G1Affine> for G1Prepared { fn from(p: G1Affine) -> Self { G1Prepared(p) } }
    impl From<G2Affine> for G2Prepared { fn from(p: G2Affine) -> Self { G2Prepared(p) } }
    impl ToBytes for G1Prepared { fn write<W: Write>(&self, w: W) -> IoResult<()> { self.0.write(w) } }
    impl ToBytes for G2Prepared { fn write<W: Write>(&self, w: W) -> IoResult<()> { self.0.write(w) } }

    #[derive(Copy, Clone, PartialEq, Eq, Debug)]
    pub struct BW6_761;
    fn frob(f: &Fq6) -> Fq6 {
        // f = sum a_i w^i, a_i in Fq, w^6 = -4:  a_i -> a_i * ((-4)^((q-1)/6))^i
        let mut e = FqParameters::MODULUS;
        e.sub_noborrow(&From::from(1u64));
        let mut rem = 0u128;
        for l in e.as_mut().iter_mut().rev() { let t = rem << 64 | *l as u128; *l = (t / 6) as u64; rem = t % 6; }
        let g = (-Fq::from(4u64)).pow(e);
        let mut p = Fq::one();
        let mut c = [f.c0.c0, f.c1.c0, f.c0.c1, f.c1.c1, f.c0.c2, f.c1.c2];
        for x in c.iter_mut() { *x *= &p; p *= &g; }
        Fq6::new(Fq3::new(c[0], c[2], c[4]), Fq3::new(c[1], c[3], c[5]))
    }
    impl PairingEngine for BW6_761 {
        type Fr = Fr;
        type G1Projective = G1Projective;
        type G1Affine = G1Affine;
        type G1Prepared = G1Prepared;
        type G2Projective = G2Projective;
        type G2Affine = G2Affine;
        type G2Prepared = G2Prepared;
        type Fq = Fq;
        type Fqe = Fq;
        type Fqk = Fq6;
        /// Reduced Tate pairing. The absolute values differ from arkworks' optimal ate pairing,
        /// the bilinear relations (all that product-equals-one checks depend on) are the same.
        fn miller_loop<'a, I>(i: I) -> Fq6 where I: IntoIterator<Item = &'a (G1Prepared, G2Prepared)> {
            crate::ec::counters::MILLER.with(|c| c.set(c.get() + 1));
            let mut res = Fq6::one();
            for (p, q) in i {
                if p.0.is_zero() || q.0.is_zero() { continue; }
                // untwist (M-twist): (x', y') -> (x'/w^2, y'/w^3) with w^6 = -4, so y^2 = x^3 - 1;
                // 1/w^2 = w^4 / -4, 1/w^3 = w^3 / -4
                let n4i = (-Fq::from(4u64)).inverse().unwrap();
                let qx = q.0.x * &n4i; // * w^4 = v^2
                let qy = q.0.y * &n4i; // * w^3 = v w
                let (mut tx, mut ty) = (p.0.x, p.0.y);
                let mut f = Fq6::one();
                let mut inf = false;
                let line = |tx: &mut Fq, ty: &mut Fq, ox: Fq, oy: Fq, inf: &mut bool| -> Fq6 {
                    // line through T and O at Q
                    let (num, den) = if *tx == ox && *ty == oy { let xx = tx.square(); (xx.double() + &xx, ty.double()) } else { (oy - &*ty, ox - &*tx) };
                    match den.inverse() {
                        None => { *inf = true; Fq6::new(Fq3::new(-*tx, Fq::zero(), qx), Fq3::zero()) }
                        Some(di) => {
                            let l = num * &di;
                            let r = Fq6::new(Fq3::new(l * &*tx - &*ty, Fq::zero(), -(l * &qx)), Fq3::new(Fq::zero(), qy, Fq::zero()));
                            let nx = l.square() - &*tx - &ox;
                            let ny = l * &(*tx - &nx) - &*ty;
                            *tx = nx; *ty = ny;
                            r
                        }
                    }
                };
                for b in BitIteratorBE::new(FrParameters::MODULUS).skip_while(|b| !b).skip(1) {
                    f.square_in_place();
                    if !inf { let (ox, oy) = (tx, ty); f *= &line(&mut tx, &mut ty, ox, oy, &mut inf); }
                    if b && !inf { f *= &line(&mut tx, &mut ty, p.0.x, p.0.y, &mut inf); }
                }
                res *= &f;
            }
            res
        }
        fn final_exponentiation(f: &Fq6) -> Option<Fq6> {
            let inv = f.inverse()?;
            let mut c = *f;
            c.conjugate();
            let r = c * &inv; // q^3 - 1
            let r = frob(&r) * &r; // q + 1
            Some(r.pow(HARD)) // (q^2 - q + 1) / r
        }
    }
}
