//! derive(Archive, Serialize, Deserialize) of the rkyv stand-in: the archived
//! form of a type has the archived forms of its fields.
use proc_macro::TokenStream;
use quote::{format_ident, quote};
use syn::{parse_macro_input, Data, DeriveInput, Fields};

fn archived(i: &syn::Ident) -> syn::Ident { format_ident!("Archived{}", i) }

#[proc_macro_derive(Archive, attributes(archive, archive_attr))]
pub fn archive(t: TokenStream) -> TokenStream {
    let d = parse_macro_input!(t as DeriveInput);
    let (n, a, v) = (&d.ident, archived(&d.ident), &d.vis);
    let def = match &d.data {
        Data::Struct(s) => match &s.fields {
            Fields::Named(f) => {
                let fs = f.named.iter().map(|f| { let (v, i, t) = (&f.vis, &f.ident, &f.ty); quote!(#v #i: <#t as ::rkyv::Archive>::Archived) });
                quote!(#[derive(Debug)] #v struct #a { #(#fs),* })
            }
            Fields::Unnamed(f) => {
                let fs = f.unnamed.iter().map(|f| { let (v, t) = (&f.vis, &f.ty); quote!(#v <#t as ::rkyv::Archive>::Archived) });
                quote!(#[derive(Debug)] #v struct #a ( #(#fs),* );)
            }
            Fields::Unit => quote!(#[derive(Debug)] #v struct #a;),
        },
        Data::Enum(e) => {
            let vs = e.variants.iter().map(|x| { assert!(matches!(x.fields, Fields::Unit)); let (i, d) = (&x.ident, x.discriminant.as_ref().map(|(q, e)| quote!(#q #e))); quote!(#i #d) });
            quote!(#[derive(Debug)] #[repr(u8)] #v enum #a { #(#vs),* })
        }
        Data::Union(_) => panic!("union"),
    };
    quote!(#def impl ::rkyv::Archive for #n { type Archived = #a; }).into()
}

/// `&self` -> fields of `Archived`, via `f` on each field
fn fields(d: &DeriveInput, out: &syn::Ident, from: &syn::Ident, f: impl Fn(proc_macro2::TokenStream) -> proc_macro2::TokenStream) -> proc_macro2::TokenStream {
    match &d.data {
        Data::Struct(s) => match &s.fields {
            Fields::Named(x) => {
                let fs = x.named.iter().map(|x| { let i = &x.ident; let e = f(quote!(self.#i)); quote!(#i: #e) });
                quote!(#out { #(#fs),* })
            }
            Fields::Unnamed(x) => {
                let fs = (0..x.unnamed.len()).map(|i| { let i = syn::Index::from(i); f(quote!(self.#i)) });
                quote!(#out ( #(#fs),* ))
            }
            Fields::Unit => quote!(#out),
        },
        Data::Enum(e) => {
            let vs = e.variants.iter().map(|x| { let i = &x.ident; quote!(#from::#i => #out::#i) });
            quote!(match self { #(#vs),* })
        }
        Data::Union(_) => panic!("union"),
    }
}

#[proc_macro_derive(Serialize, attributes(archive, archive_attr))]
pub fn serialize(t: TokenStream) -> TokenStream {
    let d = parse_macro_input!(t as DeriveInput);
    let (n, a) = (&d.ident, archived(&d.ident));
    let e = fields(&d, &a, n, |x| quote!(::rkyv::Serialize::<()>::to_archived(&#x)));
    quote!(impl<S: ?Sized> ::rkyv::Serialize<S> for #n { fn to_archived(&self) -> #a { #e } }).into()
}

#[proc_macro_derive(Deserialize, attributes(archive, archive_attr))]
pub fn deserialize(t: TokenStream) -> TokenStream {
    let d = parse_macro_input!(t as DeriveInput);
    let (n, a) = (&d.ident, archived(&d.ident));
    let e = fields(&d, n, &a, |x| quote!(::rkyv::Deserialize::deserialize(&#x, d)?));
    quote!(impl<D: ::rkyv::rancor::Fallible + ?Sized> ::rkyv::Deserialize<#n, D> for #a { #[allow(unused)] fn deserialize(&self, d: &mut D) -> Result<#n, D::Error> { Ok(#e) } }).into()
}
