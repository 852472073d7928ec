//! Stand-in: debug_handler only improves compile errors.
#[proc_macro_attribute]
pub fn debug_handler(_a: proc_macro::TokenStream, i: proc_macro::TokenStream) -> proc_macro::TokenStream { i }
