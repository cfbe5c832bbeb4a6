//! Token printer: one statement per line, and expansion of the `__raw!{N}` markers.
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};

fn raw_marker<'a>(toks: &[TokenTree], i: usize) -> Option<(String, usize)> {
    // __raw ! { N }   |  __spec ! { N } ;
    if let TokenTree::Ident(id) = &toks[i] {
        let n = id.to_string();
        if n == "__raw" || n == "__spec" {
            if let (Some(TokenTree::Punct(p)), Some(TokenTree::Group(g))) = (toks.get(i + 1), toks.get(i + 2)) {
                if p.as_char() == '!' {
                    return Some((n, g.stream().to_string().trim().parse().unwrap()));
                }
            }
        }
    }
    None
}

pub fn print(ts: TokenStream, raws: &mut Vec<String>) -> String {
    let mut o = String::new();
    go(ts, raws, &mut o);
    o
}

fn go(ts: TokenStream, raws: &mut Vec<String>, o: &mut String) {
    let toks: Vec<TokenTree> = ts.into_iter().collect();
    let mut i = 0;
    let mut glue = true;
    while i < toks.len() {
        if let Some((k, n)) = raw_marker(&toks, i) {
            if k == "__raw" {
                o.push_str(&format!("\n{}\n", raws[n]));
                i += 3;
                if let Some(TokenTree::Punct(p)) = toks.get(i) {
                    if p.as_char() == ';' {
                        i += 1;
                    }
                }
                glue = true;
                continue;
            }
        }
        match &toks[i] {
            // __named!{ NAME rest... }  -> NAME : rest      (loop iterators, return values)
            TokenTree::Ident(id) if id == "__named" || id == "__ret" => {
                if let Some(TokenTree::Group(g)) = toks.get(i + 2) {
                    let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                    let name = inner[0].to_string();
                    let rest: TokenStream = inner[1..].iter().cloned().collect();
                    let ret = id == "__ret";
                    o.push_str(&format!(" {}{}: ", if ret { "(" } else { "" }, name));
                    go(rest, raws, o);
                    if ret {
                        o.push(')');
                    }
                    i += 3;
                    glue = false;
                    continue;
                }
            }
            _ => {}
        }
        match &toks[i] {
            TokenTree::Group(g) => {
                let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                match g.delimiter() {
                    Delimiter::Brace => {
                        // a leading spec marker moves in front of the brace
                        let mut rest = g.stream();
                        if !inner.is_empty() {
                            if let Some((k, n)) = raw_marker(&inner, 0) {
                                if k == "__spec" {
                                    o.push_str(&format!("\n{}\n", raws[n]));
                                    let mut s = 3;
                                    if let Some(TokenTree::Punct(p)) = inner.get(3) {
                                        if p.as_char() == ';' {
                                            s = 4;
                                        }
                                    }
                                    rest = inner[s..].iter().cloned().collect();
                                }
                            }
                        }
                        o.push_str(" {\n");
                        go(rest, raws, o);
                        o.push_str("}\n");
                    }
                    Delimiter::Parenthesis => {
                        o.push('(');
                        go(g.stream(), raws, o);
                        o.push(')');
                    }
                    Delimiter::Bracket => {
                        o.push('[');
                        go(g.stream(), raws, o);
                        o.push(']');
                    }
                    Delimiter::None => go(g.stream(), raws, o),
                }
                glue = false;
            }
            TokenTree::Punct(p) => {
                let c = p.as_char();
                if !glue && !matches!(c, ',' | ';' | '.' | '?' | ':') {
                    o.push(' ');
                }
                o.push(c);
                if c == ';' {
                    o.push('\n');
                    glue = true;
                } else {
                    glue = p.spacing() == Spacing::Joint || c == '\'' || c == '.';
                }
            }
            t => {
                if !glue || o.ends_with(|c: char| c.is_alphanumeric() || c == '_') {
                    o.push(' ');
                }
                o.push_str(&t.to_string());
                glue = false;
            }
        }
        i += 1;
    }
}
