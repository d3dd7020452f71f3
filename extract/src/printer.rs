//! Token-stream printer: one statement per line, so that verifier spans map to lines.
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};

pub fn print(ts: TokenStream) -> String {
    let mut s = String::new();
    go(ts, &mut s, 0, false);
    s.push('\n');
    s
}

fn nl(out: &mut String, ind: usize) {
    while out.ends_with(' ') { out.pop(); }
    if !out.ends_with('\n') { out.push('\n'); }
    for _ in 0..ind { out.push_str("  "); }
}

fn go(ts: TokenStream, out: &mut String, ind: usize, in_brace: bool) {
    let toks: Vec<TokenTree> = ts.into_iter().collect();
    let n = toks.len();
    for (i, t) in toks.iter().enumerate() {
        match t {
            TokenTree::Group(g) => match g.delimiter() {
                Delimiter::Parenthesis => { out.push('('); go(g.stream(), out, ind, false); trim(out); out.push_str(") "); }
                Delimiter::Bracket => { out.push('['); go(g.stream(), out, ind, false); trim(out); out.push_str("] "); }
                Delimiter::None => { out.push('('); go(g.stream(), out, ind, false); trim(out); out.push_str(") "); }
                Delimiter::Brace => {
                    if g.stream().is_empty() { out.push_str("{ } "); }
                    else {
                        out.push('{');
                        nl(out, ind + 1);
                        go(g.stream(), out, ind + 1, true);
                        nl(out, ind);
                        out.push_str("} ");
                    }
                    // break the line after a block unless something continues the expression
                    let cont = match toks.get(i + 1) {
                        Some(TokenTree::Punct(p)) => matches!(p.as_char(), ',' | '.' | ';' | '?' | '+' | '-' | '|' | '=' | ')'),
                        Some(TokenTree::Ident(id)) => id == "else" || id == "as",
                        Some(TokenTree::Group(_)) => true,
                        None => true,
                        _ => false,
                    };
                    if in_brace && !cont { nl(out, ind); }
                }
            },
            TokenTree::Punct(p) => {
                let c = p.as_char();
                if matches!(c, ';' | ',' | '.' | ':' | '?') { trim(out); }
                out.push(c);
                if c == '.' { continue; }
                if p.spacing() == Spacing::Alone {
                    // no space after `'` (lifetimes are joint anyway), `&`, `*`, `!` prefix is harmless
                    out.push(' ');
                }
                if (c == ';' || c == ',') && in_brace && i + 1 < n { nl(out, ind); }
            }
            TokenTree::Ident(id) => { out.push_str(&id.to_string()); out.push(' '); }
            TokenTree::Literal(l) => { out.push_str(&l.to_string()); out.push(' '); }
        }
    }
}

fn trim(out: &mut String) {
    while out.ends_with(' ') && !out.ends_with("  ") { out.pop(); }
}
