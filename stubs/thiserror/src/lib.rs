//! Stand-in for thiserror: Display and Error for plain enums/structs without generics; messages dropped.
extern crate proc_macro;
use proc_macro::{TokenStream, TokenTree};
#[proc_macro_derive(Error, attributes(error, source, from))]
pub fn derive(i: TokenStream) -> TokenStream {
    let mut it = i.into_iter();
    while let Some(t) = it.next() {
        if let TokenTree::Ident(id) = &t {
            let s = id.to_string();
            if s == "enum" || s == "struct" {
                let n = it.next().unwrap().to_string();
                return format!("impl ::core::fmt::Display for {n} {{ fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result {{ f.write_str(\"{n}\") }} }} impl ::std::error::Error for {n} {{}}").parse().unwrap();
            }
        }
    }
    TokenStream::new()
}
