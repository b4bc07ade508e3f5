//! mina-network without its libp2p part, with the GraphQL backends.
#[path = "/repo/network/src/processor/mod.rs"]
pub mod processor;
