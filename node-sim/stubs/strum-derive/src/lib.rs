use proc_macro::TokenStream;
use quote::quote;
use syn::*;
#[proc_macro_derive(EnumString, attributes(strum))]
pub fn derive(input: TokenStream) -> TokenStream {
    let d: DeriveInput = parse(input).unwrap();
    let name = &d.ident;
    let Data::Enum(e) = &d.data else { panic!("an enum is needed") };
    let arms = e.variants.iter().map(|v| { let i = &v.ident; let s = i.to_string(); quote!(#s => Ok(#name::#i),) });
    quote!(
        impl ::core::str::FromStr for #name {
            type Err = ::strum::ParseError;
            fn from_str(s: &str) -> ::core::result::Result<Self, Self::Err> {
                match s { #(#arms)* _ => Err(::strum::ParseError::VariantNotFound) }
            }
        }
        impl ::core::convert::TryFrom<&str> for #name {
            type Error = ::strum::ParseError;
            fn try_from(s: &str) -> ::core::result::Result<Self, Self::Error> { ::core::str::FromStr::from_str(s) }
        }
    )
    .into()
}
