//! The stand-in for `#[wolfram_library_link::export]`: the function stays as it
//! is, and becomes callable from outside the crate.

use proc_macro::{Ident, Span, TokenStream, TokenTree};

#[proc_macro_attribute]
pub fn export(_args: TokenStream, item: TokenStream) -> TokenStream {
    let mut out = TokenStream::new();
    let mut done = false;
    let mut attr = false;
    for t in item {
        if !done {
            match &t {
                TokenTree::Punct(p) if p.as_char() == '#' => attr = true,
                TokenTree::Group(_) if attr => attr = false,
                TokenTree::Ident(i) => {
                    if i.to_string() != "pub" {
                        out.extend([TokenTree::Ident(Ident::new("pub", Span::call_site()))]);
                    }
                    done = true;
                },
                _ => {},
            }
        }
        out.extend([t]);
    }
    out
}
