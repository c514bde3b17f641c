//! Plain token printer with enough newlines to make error spans useful

use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};

pub fn print(ts: TokenStream) -> String {
    let mut s = String::new();
    go(ts, &mut s);
    s
}

fn go(ts: TokenStream, s: &mut String) {
    let mut joint = false;
    for t in ts {
        match t {
            TokenTree::Group(g) => {
                let (o, c) = match g.delimiter() {
                    Delimiter::Parenthesis => ("(", ")"),
                    Delimiter::Brace => ("{\n", "\n}\n"),
                    Delimiter::Bracket => ("[", "]"),
                    Delimiter::None => ("", ""),
                };
                s.push_str(o);
                go(g.stream(), s);
                s.push_str(c);
                joint = false;
            }
            TokenTree::Punct(p) => {
                if !joint && p.as_char() != ',' && p.as_char() != ';' && p.as_char() != '.' {
                    s.push(' ');
                }
                s.push(p.as_char());
                joint = p.spacing() == Spacing::Joint;
                if p.as_char() == ';' {
                    s.push('\n');
                }
            }
            TokenTree::Ident(i) => {
                if !joint {
                    s.push(' ');
                }
                s.push_str(&i.to_string());
                joint = false;
            }
            TokenTree::Literal(l) => {
                s.push(' ');
                s.push_str(&l.to_string());
                joint = false;
            }
        }
    }
}
