//! A derive which does nothing except for making the `serde` helper attributes legal,
//! so that the derive under test can be observed without serde's own diagnostics.
use proc_macro::TokenStream;

#[proc_macro_derive(Noop, attributes(serde))]
pub fn noop(_: TokenStream) -> TokenStream {
    TokenStream::new()
}
