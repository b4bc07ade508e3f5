//! mina-network with the GraphQL backends.
#[path = "/repo/network/src/p2p/mod.rs"]
pub mod p2p;
#[path = "/repo/network/src/processor/mod.rs"]
pub mod processor;
