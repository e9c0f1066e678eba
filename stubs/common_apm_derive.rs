//! Stand-in for common-apm-derive's attribute macros: they leave the function as it is
//! (the real ones only add tracing spans / metrics around the body).
use proc_macro::TokenStream;
#[proc_macro_attribute]
pub fn trace_span(_a: TokenStream, item: TokenStream) -> TokenStream { item }
#[proc_macro_attribute]
pub fn metrics_rpc(_a: TokenStream, item: TokenStream) -> TokenStream { item }
