// the crate is compiled with the parts that are there for wasm32 only (the GraphQL backends)
fn main() {
    println!("cargo:rerun-if-changed=build.rs");
    println!("cargo:rustc-cfg=target_arch=\"wasm32\"");
}
