//! Verification stand-in: keeps the function body unchanged and drops the
//! CPU-feature dispatch (every clone is compiled from the same body).
use proc_macro::TokenStream;
#[proc_macro_attribute]
pub fn multiversion(_attr: TokenStream, item: TokenStream) -> TokenStream { item }
#[proc_macro_attribute]
pub fn inherit_target(_attr: TokenStream, item: TokenStream) -> TokenStream { item }
