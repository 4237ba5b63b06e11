use proc_macro::TokenStream;

/// The stand-in's trait returns futures, which an `async fn` of an implementation may be: nothing
/// is left to do.
#[proc_macro_attribute]
pub fn async_trait(_: TokenStream, item: TokenStream) -> TokenStream {
    item
}
