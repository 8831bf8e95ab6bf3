//! Token printer: one statement per line, splicing annotation slots.
use crate::FnSpec;
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};

pub fn print(ts: TokenStream, fs: &FnSpec) -> String {
    let mut s = String::new();
    go(ts, fs, &mut s);
    s
}

fn arg(g: &proc_macro2::Group) -> Vec<TokenTree> {
    g.stream().into_iter().collect()
}

fn go(ts: TokenStream, fs: &FnSpec, s: &mut String) {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut i = 0;
    let mut glue = false;
    while i < v.len() {
        if let TokenTree::Ident(id) = &v[i] {
            let id = id.to_string();
            if id == "__vx_at" || id == "__vx_named" {
                if let Some(TokenTree::Group(g)) = v.get(i + 2) {
                    let a = arg(g);
                    if id == "__vx_at" {
                        let key = match &a[0] {
                            TokenTree::Literal(l) => syn::parse_str::<syn::LitStr>(&l.to_string()).map(|l| l.value()).unwrap_or_default(),
                            _ => unreachable!(),
                        };
                        s.push('\n');
                        s.push_str(&fs.ats[&key]);
                        s.push('\n');
                        i += 4; // ident ! group ;
                    } else {
                        // __vx_named!(name, expr)
                        s.push_str(&format!("{} : ", a[0]));
                        go(a[2..].iter().cloned().collect(), fs, s);
                        i += 3;
                    }
                    continue;
                }
            }
        }
        match &v[i] {
            TokenTree::Group(g) => {
                let (o, c) = match g.delimiter() {
                    Delimiter::Parenthesis => ("(", ")"),
                    Delimiter::Bracket => ("[", "]"),
                    Delimiter::Brace => ("{", "}"),
                    Delimiter::None => ("", ""),
                };
                if g.delimiter() == Delimiter::Brace {
                    // loop invariants sit in front of the brace
                    let inner: Vec<TokenTree> = arg(g);
                    let mut rest = inner.as_slice();
                    if let Some(TokenTree::Ident(id)) = inner.first() {
                        if id == "__vx_inv" {
                            if let Some(TokenTree::Group(n)) = inner.get(2) {
                                let n: usize = n.stream().to_string().trim().parse().unwrap();
                                s.push('\n');
                                s.push_str(&fs.loops[&n].1);
                                rest = &inner[4..];
                            }
                        }
                    }
                    s.push_str("{\n");
                    go(rest.iter().cloned().collect(), fs, s);
                    s.push_str("\n}\n");
                } else {
                    s.push_str(o);
                    go(g.stream(), fs, s);
                    s.push_str(c);
                    s.push(' ');
                }
                glue = false;
            }
            TokenTree::Punct(p) => {
                s.push(p.as_char());
                if p.as_char() == ';' {
                    s.push('\n');
                } else if p.spacing() == Spacing::Alone {
                    s.push(' ');
                }
                glue = p.spacing() == Spacing::Joint;
            }
            t => {
                s.push_str(&t.to_string());
                s.push(' ');
                glue = false;
            }
        }
        i += 1;
    }
    let _ = glue;
}

/// Replace `a` by `b`, comparing modulo whitespace.
pub fn subst(text: &str, a: &str, b: &str) -> (String, usize) {
    let pat: Vec<char> = a.chars().filter(|c| !c.is_whitespace()).collect();
    if pat.is_empty() {
        return (text.into(), 0);
    }
    let t: Vec<char> = text.chars().collect();
    let mut out = String::new();
    let mut n = 0;
    let mut i = 0;
    let is_id = |c: char| c.is_alphanumeric() || c == '_';
    while i < t.len() {
        let mut k = 0;
        let mut j = i;
        if t[i] == pat[0] && !(is_id(pat[0]) && i > 0 && is_id(t[i - 1])) {
            while k < pat.len() && j < t.len() {
                if t[j] == pat[k] {
                    k += 1;
                    j += 1;
                } else if t[j].is_whitespace() && k > 0 {
                    j += 1;
                } else {
                    break;
                }
            }
        }
        if k == pat.len() && !(is_id(pat[k - 1]) && j < t.len() && is_id(t[j])) {
            out.push_str(b);
            n += 1;
            i = j;
        } else {
            out.push(t[i]);
            i += 1;
        }
    }
    (out, n)
}
