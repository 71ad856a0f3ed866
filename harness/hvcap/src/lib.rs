//! `#[hvcap::capture(ID)]`: writes the tokens of the item it sits on (as the compiler hands them over,
//! i.e. after every attribute macro above it has expanded) to the file named by HV_OUT and emits nothing.
use proc_macro::{Delimiter, TokenStream, TokenTree};
use std::io::Write;

fn show(ts: TokenStream, out: &mut String) {
    for tt in ts {
        match tt {
            TokenTree::Group(g) => {
                let (o, c) = match g.delimiter() {
                    Delimiter::Parenthesis => ("(", ")"),
                    Delimiter::Brace => ("{", "}"),
                    Delimiter::Bracket => ("[", "]"),
                    // invisible groups keep their operand together: same meaning as parentheses
                    Delimiter::None => ("(", ")"),
                };
                out.push_str(o);
                out.push(' ');
                show(g.stream(), out);
                out.push_str(c);
                out.push(' ');
            }
            TokenTree::Punct(p) => {
                out.push(p.as_char());
                if p.spacing() == proc_macro::Spacing::Alone {
                    out.push(' ');
                }
            }
            t => {
                out.push_str(&t.to_string());
                out.push(' ');
            }
        }
    }
}

#[proc_macro_attribute]
pub fn capture(attr: TokenStream, item: TokenStream) -> TokenStream {
    let path = std::env::var("HV_OUT").expect("HV_OUT");
    let mut s = String::new();
    show(item, &mut s);
    let mut f = std::fs::OpenOptions::new().append(true).create(true).open(path).expect("open HV_OUT");
    // record: id, length in bytes, text
    f.write_all(format!("{}\n{}\n{}\n", attr, s.len(), s).as_bytes()).expect("write HV_OUT");
    TokenStream::new()
}
