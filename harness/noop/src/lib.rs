//! A derive of the same name that generates nothing.
extern crate proc_macro;
/// Generates nothing.
#[proc_macro_derive(Error, attributes(backtrace, error, from, source))]
pub fn derive(_: proc_macro::TokenStream) -> proc_macro::TokenStream {
    proc_macro::TokenStream::new()
}
