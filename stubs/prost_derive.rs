//! Stand-in for prost-derive: the derived message type can be built and its other methods called; its wire format is not modelled.
use proc_macro::{TokenStream, TokenTree};
#[proc_macro_derive(Message, attributes(prost))]
pub fn message(item: TokenStream) -> TokenStream {
    let mut it = item.into_iter();
    while let Some(t) = it.next() {
        if let TokenTree::Ident(i) = &t { if i.to_string() == "struct" {
            let name = it.next().unwrap();
            return format!("impl ::prost::Message for {} {{}}", name).parse().unwrap();
        } }
    }
    TokenStream::new()
}
