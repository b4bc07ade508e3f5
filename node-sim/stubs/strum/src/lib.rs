//! Stand-in for strum: `EnumString` for enums of unit variants.
pub use strum_derive::EnumString;
#[derive(Debug, Clone, Copy, Eq, PartialEq, Hash)]
pub enum ParseError {
    VariantNotFound,
}
impl std::fmt::Display for ParseError {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "Matching variant not found")
    }
}
impl std::error::Error for ParseError {}
