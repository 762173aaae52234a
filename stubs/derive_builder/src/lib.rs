//! Stand-in for `derive_builder`: `XBuilder` with a setter per field and `build`.
use proc_macro::TokenStream;
use quote::{format_ident, quote};
use syn::{parse_macro_input, Data, DeriveInput, Fields};

#[proc_macro_derive(Builder, attributes(builder))]
pub fn builder(input: TokenStream) -> TokenStream {
    let input = parse_macro_input!(input as DeriveInput);
    let name = &input.ident;
    let vis = &input.vis;
    let builder = format_ident!("{name}Builder");
    let error = format_ident!("{name}BuilderError");
    let Data::Struct(data) = &input.data else { return TokenStream::new() };
    let Fields::Named(fields) = &data.fields else { return TokenStream::new() };
    let ids: Vec<_> = fields.named.iter().map(|f| f.ident.clone().unwrap()).collect();
    let tys: Vec<_> = fields.named.iter().map(|f| f.ty.clone()).collect();
    quote! {
        #[derive(Clone, Default)]
        #[allow(dead_code)]
        #vis struct #builder { #(#ids: Option<#tys>),* }
        #[derive(Clone, Debug)]
        #[allow(dead_code)]
        #vis struct #error(&'static str);
        impl std::fmt::Display for #error {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                write!(f, "`{}` must be initialized", self.0)
            }
        }
        impl std::error::Error for #error {}
        #[allow(dead_code, clippy::all)]
        impl #builder {
            #(pub fn #ids(&mut self, v: #tys) -> &mut Self { self.#ids = Some(v); self })*
            pub fn build(&self) -> Result<#name, #error> {
                Ok(#name { #(#ids: self.#ids.clone().ok_or(#error(stringify!(#ids)))?),* })
            }
        }
    }.into()
}
