//! Stand-in for facet's derive: only `#[facet(derive(Error))]` generates anything (Display and Error).
extern crate proc_macro;
use proc_macro::{TokenStream, TokenTree};

#[proc_macro_derive(Facet, attributes(facet))]
pub fn derive_facet(input: TokenStream) -> TokenStream {
    let error = input.to_string().replace(char::is_whitespace, "").contains("#[facet(derive(Error))]");
    if !error {
        return TokenStream::new();
    }
    let mut name = None;
    let mut it = input.into_iter();
    while let Some(t) = it.next() {
        if let TokenTree::Ident(i) = &t {
            let s = i.to_string();
            if s == "enum" || s == "struct" {
                name = it.next().map(|x| x.to_string());
                break;
            }
        }
    }
    let name = name.expect("a named type");
    format!(
        "impl ::core::fmt::Display for {name} {{ fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result {{ ::core::fmt::Debug::fmt(self, f) }} }} impl ::std::error::Error for {name} {{}}"
    )
    .parse()
    .unwrap()
}
