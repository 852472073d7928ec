use proc_macro::{TokenStream, TokenTree};
/// non-generic types only
#[proc_macro_derive(GetSize, attributes(get_size))]
pub fn d(i: TokenStream) -> TokenStream {
    let mut it = i.into_iter();
    while let Some(t) = it.next() { if let TokenTree::Ident(x) = &t { let s = x.to_string(); if s == "struct" || s == "enum" { let n = it.next().unwrap(); return format!("impl ::get_size::GetSize for {} {{}}", n).parse().unwrap(); } } }
    panic!()
}
