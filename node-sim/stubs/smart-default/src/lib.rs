//! Stand-in for smart-default: `#[derive(SmartDefault)]` with `#[default]` and `#[default(expr)]`.
use proc_macro::TokenStream;
use proc_macro2::TokenStream as T2;
use quote::quote;
use syn::*;

fn attr(attrs: &[Attribute]) -> Option<Option<T2>> {
    attrs.iter().find(|a| a.path.is_ident("default")).map(|a| {
        if a.tokens.is_empty() {
            None
        } else {
            Some(a.parse_args::<T2>().expect("default attribute"))
        }
    })
}
fn fields(f: &Fields) -> T2 {
    let one = |f: &Field| match attr(&f.attrs) {
        Some(Some(e)) => e,
        _ => quote!(::core::default::Default::default()),
    };
    match f {
        Fields::Unit => quote!(),
        Fields::Unnamed(u) => {
            let v: Vec<T2> = u.unnamed.iter().map(one).collect();
            quote!((#(#v),*))
        }
        Fields::Named(n) => {
            let v: Vec<T2> = n.named.iter().map(|f| { let i = &f.ident; let e = one(f); quote!(#i: #e) }).collect();
            quote!({#(#v),*})
        }
    }
}
#[proc_macro_derive(SmartDefault, attributes(default))]
pub fn derive(input: TokenStream) -> TokenStream {
    let d: DeriveInput = parse(input).unwrap();
    let name = &d.ident;
    let (ig, tg, w) = d.generics.split_for_impl();
    let body = match &d.data {
        Data::Struct(s) => {
            let f = fields(&s.fields);
            quote!(#name #f)
        }
        Data::Enum(e) => {
            let v = e.variants.iter().find(|v| attr(&v.attrs).is_some()).expect("no default variant");
            let (i, f) = (&v.ident, fields(&v.fields));
            quote!(#name::#i #f)
        }
        _ => panic!("unions are not supported"),
    };
    quote!(impl #ig ::core::default::Default for #name #tg #w { fn default() -> Self { #body } }).into()
}
