//! Token printer: one statement per line, with marker macros replaced by contract text.
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};
use std::collections::BTreeMap;

fn marker(ts: &[TokenTree], i: usize) -> Option<(String, String, usize)> {
    // __vx_xxx ! ( N ) ;
    if let Some(TokenTree::Ident(id)) = ts.get(i) {
        let s = id.to_string();
        if let Some(k) = s.strip_prefix("__vx_") {
            if let (Some(TokenTree::Punct(p)), Some(TokenTree::Group(g))) = (ts.get(i + 1), ts.get(i + 2)) {
                if p.as_char() == '!' {
                    let mut n = 3;
                    if let Some(TokenTree::Punct(p)) = ts.get(i + 3) {
                        if p.as_char() == ';' {
                            n = 4;
                        }
                    }
                    return Some((k.to_string(), g.stream().to_string().replace(' ', ""), n));
                }
            }
        }
    }
    None
}

pub fn print(ts: TokenStream, sec: &BTreeMap<String, String>, out: &mut String) {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut i = 0;
    while i < v.len() {
        if let Some((k, n, len)) = marker(&v, i) {
            let key = if n.is_empty() { k } else { format!("{k} {n}") };
            if let Some(t) = sec.get(&key) {
                out.push('\n');
                out.push_str(t);
            }
            i += len;
            continue;
        }
        if let (TokenTree::Ident(id), Some(TokenTree::Punct(p)), Some(TokenTree::Group(g))) = (&v[i], v.get(i + 1), v.get(i + 2)) {
            if id == "vx_raw" && p.as_char() == '!' {
                print(g.stream(), sec, out);
                i += 3;
                continue;
            }
        }
        match &v[i] {
            TokenTree::Group(g) => {
                let (o, c) = match g.delimiter() {
                    Delimiter::Parenthesis => ("(", ") "),
                    Delimiter::Brace => ("{\n", "}\n"),
                    Delimiter::Bracket => ("[", "] "),
                    Delimiter::None => ("", ""),
                };
                let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                let mut st = g.stream();
                if g.delimiter() == Delimiter::Brace {
                    if let Some((k, n, len)) = marker(&inner, 0) {
                        if k == "loop" {
                            if let Some(t) = sec.get(&format!("loop {n}")) {
                                out.push('\n');
                                out.push_str(t);
                            }
                            st = inner[len..].iter().cloned().collect();
                        }
                    }
                }
                out.push_str(o);
                print(st, sec, out);
                if g.delimiter() == Delimiter::Brace && !out.ends_with('\n') {
                    out.push('\n');
                }
                out.push_str(c);
            }
            TokenTree::Punct(p) => {
                out.push(p.as_char());
                if p.as_char() == ';' {
                    out.push('\n');
                } else if p.spacing() == Spacing::Alone {
                    out.push(' ');
                }
            }
            TokenTree::Ident(x) => {
                out.push_str(&x.to_string());
                out.push(' ');
            }
            TokenTree::Literal(x) => {
                out.push_str(&x.to_string());
                out.push(' ');
            }
        }
        i += 1;
    }
}
