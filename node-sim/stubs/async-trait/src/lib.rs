//! Stand-in for async-trait: the compiler supports async functions in traits, so nothing is left to do.
use proc_macro::TokenStream;
#[proc_macro_attribute]
pub fn async_trait(_: TokenStream, item: TokenStream) -> TokenStream {
    item
}
