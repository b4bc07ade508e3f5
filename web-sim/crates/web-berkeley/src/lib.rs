//! The Berkeley web node, from its sources.
include!("/repo/apps/wasm/mina-berkeley/src/lib.rs");

pub use payment::Payment;
pub use protocol_state::ProtocolState;
