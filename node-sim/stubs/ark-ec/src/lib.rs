//! Stand-in for ark-ec 0.3: only the types that carry coordinates.
pub trait ModelParameters {
    type BaseField: Clone + Copy + Default + std::fmt::Debug + PartialEq + Eq;
    type ScalarField;
}
pub trait SWModelParameters: ModelParameters {}
pub mod models {
    pub use super::{ModelParameters, SWModelParameters};
}
pub mod short_weierstrass_jacobian {
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub struct GroupAffine<P: super::ModelParameters> {
        pub x: P::BaseField,
        pub y: P::BaseField,
        pub infinity: bool,
    }
    impl<P: super::ModelParameters> GroupAffine<P> {
        pub fn new(x: P::BaseField, y: P::BaseField, infinity: bool) -> Self {
            GroupAffine { x, y, infinity }
        }
    }
}
