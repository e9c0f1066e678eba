//! Stand-in for jsonrpsee's `#[rpc(server)]`: `trait X` becomes `trait XServer` (async when a method is), and the
//! names under which its methods are served become the constant `X_METHODS`.
use proc_macro::{Delimiter, TokenStream, TokenTree};
#[proc_macro_attribute]
pub fn rpc(_a: TokenStream, item: TokenStream) -> TokenStream {
    let mut t: Vec<TokenTree> = item.into_iter().collect();
    let body = match t.pop() { Some(TokenTree::Group(g)) if g.delimiter() == Delimiter::Brace => g.stream(), _ => panic!("trait body") };
    let k = t.iter().position(|x| x.to_string() == "trait").expect("trait");
    let name = t[k + 1].to_string();
    let head: String = t[..k].iter().map(|x| x.to_string() + " ").collect();
    let (mut out, mut names, mut wait, mut is_async) = (TokenStream::new(), String::new(), String::new(), false);
    let b: Vec<TokenTree> = body.into_iter().collect();
    let mut i = 0;
    while i < b.len() {
        if b[i].to_string() == "#" {
            if let Some(TokenTree::Group(g)) = b.get(i + 1) {
                let s: Vec<TokenTree> = g.stream().into_iter().collect();
                if s.first().map(|x| x.to_string() == "method").unwrap_or(false) {
                    if let Some(TokenTree::Group(g)) = s.get(1) {
                        let a: Vec<TokenTree> = g.stream().into_iter().collect();
                        wait = a.iter().find(|x| matches!(x, TokenTree::Literal(_))).map(|x| x.to_string()).unwrap_or_default();
                    }
                    i += 2;
                    continue;
                }
            }
        }
        if b[i].to_string() == "async" { is_async = true; }
        if b[i].to_string() == "fn" && !wait.is_empty() { names += &format!("({}, {:?}),", wait, b[i + 1].to_string()); wait.clear(); }
        out.extend([b[i].clone()]);
        i += 1;
    }
    let attr = if is_async { "#[protocol::async_trait]" } else { "" };
    format!("{attr} {head} trait {name}Server: Sized + Send + Sync + 'static {{ {out} }}\n#[allow(dead_code, non_upper_case_globals)] pub const {name}_METHODS: &[(&str, &str)] = &[{names}];").parse().unwrap()
}
