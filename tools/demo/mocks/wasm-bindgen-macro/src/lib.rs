//! Stand-in for the `#[wasm_bindgen]` attribute: on the host the annotated item is used as it is.
//! Inner `#[wasm_bindgen(..)]` helper attributes (getter, constructor, skip, js_name ...) are
//! removed, wherever they stand inside the item.
use proc_macro::{Delimiter, Group, TokenStream, TokenTree};

fn strip(input: TokenStream) -> TokenStream {
    let mut out: Vec<TokenTree> = Vec::new();
    for tt in input {
        match tt {
            TokenTree::Group(g) => {
                if g.delimiter() == Delimiter::Bracket {
                    let first = g.stream().into_iter().next();
                    let is_helper = matches!(&first, Some(TokenTree::Ident(i)) if i.to_string() == "wasm_bindgen");
                    let after_hash = matches!(out.last(), Some(TokenTree::Punct(p)) if p.as_char() == '#');
                    if is_helper && after_hash {
                        out.pop();
                        continue;
                    }
                }
                let mut new = Group::new(g.delimiter(), strip(g.stream()));
                new.set_span(g.span());
                out.push(TokenTree::Group(new));
            }
            other => out.push(other),
        }
    }
    out.into_iter().collect()
}

#[proc_macro_attribute]
pub fn wasm_bindgen(_attr: TokenStream, item: TokenStream) -> TokenStream {
    strip(item)
}
