//! The mainnet web node, from its sources.
include!("/repo/apps/wasm/mvp/src/lib.rs");

pub use payment::*;
pub use utils::{proto_msg_to_u8array, u8array_to_proto_msg};
pub mod proto {
    pub use super::pb::*;
}
