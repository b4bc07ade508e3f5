//! Stand-in for mina-curves: the two pasta fields.
pub mod pasta {
    pub mod fp {
        #[derive(Clone, Copy, Debug, PartialEq, Eq)]
        pub struct FpParameters;
        impl ark_ff::Fp256Parameters for FpParameters {
            // 0x40000000000000000000000000000000224698fc094cf91b992d30ed00000001
            const MODULUS: [u64; 4] = [0x992d30ed00000001, 0x224698fc094cf91b, 0, 0x4000000000000000];
            const NAME: &'static str = "Fp";
        }
        pub type Fp = ark_ff::Fp256<FpParameters>;
    }
    pub mod fq {
        #[derive(Clone, Copy, Debug, PartialEq, Eq)]
        pub struct FqParameters;
        impl ark_ff::Fp256Parameters for FqParameters {
            // 0x40000000000000000000000000000000224698fc0994a8dd8c46eb2100000001
            const MODULUS: [u64; 4] = [0x8c46eb2100000001, 0x224698fc0994a8dd, 0, 0x4000000000000000];
            const NAME: &'static str = "Fq";
        }
        pub type Fq = ark_ff::Fp256<FqParameters>;
    }
    pub use fp::Fp;
    pub use fq::Fq;
    pub mod pallas {
        #[derive(Clone, Copy, Debug, PartialEq, Eq)]
        pub struct PallasParameters;
        impl ark_ec::ModelParameters for PallasParameters {
            type BaseField = super::Fp;
            type ScalarField = super::Fq;
        }
        impl ark_ec::SWModelParameters for PallasParameters {}
        pub type Affine = ark_ec::short_weierstrass_jacobian::GroupAffine<PallasParameters>;
    }
    pub mod vesta {
        #[derive(Clone, Copy, Debug, PartialEq, Eq)]
        pub struct VestaParameters;
        impl ark_ec::ModelParameters for VestaParameters {
            type BaseField = super::Fq;
            type ScalarField = super::Fp;
        }
        impl ark_ec::SWModelParameters for VestaParameters {}
        pub type Affine = ark_ec::short_weierstrass_jacobian::GroupAffine<VestaParameters>;
    }
}
