//! Stand-in for o1-utils: bytes and field elements, with the range check of the real one.
pub mod field_helpers {
    use ark_ff::{BigInteger256, Fp256, Fp256Parameters};
    #[derive(thiserror::Error, Debug, Clone, PartialEq, Eq)]
    pub enum FieldHelpersError {
        #[error("failed to deserialize field bytes")]
        DeserializeBytes,
        #[error("failed to deserialize field bits")]
        DeserializeBits,
        #[error("failed to decode hex")]
        DecodeHex,
    }
    pub type Result<T> = std::result::Result<T, FieldHelpersError>;
    pub trait FieldHelpers<F> {
        fn from_bytes(bytes: &[u8]) -> Result<F>;
        fn from_hex(hex: &str) -> Result<F>;
        fn to_bytes(&self) -> Vec<u8>;
        fn to_hex(&self) -> String;
    }
    impl<P: Fp256Parameters> FieldHelpers<Fp256<P>> for Fp256<P> {
        fn from_bytes(bytes: &[u8]) -> Result<Fp256<P>> {
            let b: &[u8; 32] = bytes
                .get(..32)
                .and_then(|b| b.try_into().ok())
                .ok_or(FieldHelpersError::DeserializeBytes)?;
            Fp256::from_repr_checked(BigInteger256::from_le(b)).ok_or(FieldHelpersError::DeserializeBytes)
        }
        fn from_hex(h: &str) -> Result<Fp256<P>> {
            let b = hex::decode(h).map_err(|_| FieldHelpersError::DecodeHex)?;
            Self::from_bytes(&b)
        }
        fn to_bytes(&self) -> Vec<u8> {
            self.0.le().to_vec()
        }
        fn to_hex(&self) -> String {
            hex::encode(self.to_bytes())
        }
    }
}
pub use field_helpers::FieldHelpers;
