//! Format strings: `write!`, `format!`, `print!` taken apart into literal text and arguments.
use proc_macro2::{Span, TokenStream};
use syn::parse::Parser as _;
use syn::*;

pub enum Piece {
    Lit(String),
    /// argument and its format specification (empty: plain Display)
    Arg(Expr, String),
}

pub struct Parsed {
    pub dest: Option<Expr>,
    pub pieces: Vec<Piece>,
}

enum FArg { Pos(Expr), Named(String, Expr) }

pub fn parse(ts: TokenStream, has_dest: bool, newline: bool) -> std::result::Result<Parsed, String> {
    let p = |i: parse::ParseStream| -> syn::Result<(Option<Expr>, Option<LitStr>, Vec<FArg>)> {
        let dest = if has_dest { let d: Expr = i.parse()?; let _: Option<Token![,]> = i.parse()?; Some(d) } else { None };
        let lit = if i.is_empty() { None } else { Some(i.parse::<LitStr>()?) };
        let mut args = vec![];
        while !i.is_empty() {
            i.parse::<Token![,]>()?;
            if i.is_empty() { break; }
            if i.peek(Ident) && i.peek2(Token![=]) && !i.peek2(Token![==]) {
                let n: Ident = i.parse()?;
                i.parse::<Token![=]>()?;
                args.push(FArg::Named(n.to_string(), i.parse()?));
            } else { args.push(FArg::Pos(i.parse()?)); }
        }
        Ok((dest, lit, args))
    };
    let (dest, lit, args) = p.parse2(ts).map_err(|e| format!("format string: {}", e))?;
    let text = lit.map(|l| l.value()).unwrap_or_default();
    let mut pieces: Vec<Piece> = vec![];
    let mut cur = String::new();
    let mut next = 0usize;
    let cs: Vec<char> = text.chars().collect();
    let mut i = 0;
    while i < cs.len() {
        match cs[i] {
            '{' if cs.get(i + 1) == Some(&'{') => { cur.push('{'); i += 2; }
            '}' if cs.get(i + 1) == Some(&'}') => { cur.push('}'); i += 2; }
            '{' => {
                let j = (i + 1..cs.len()).find(|k| cs[*k] == '}').ok_or("unclosed {")?;
                let inner: String = cs[i + 1..j].iter().collect();
                let (name, spec) = match inner.find(':') { Some(k) => (inner[..k].trim().to_string(), inner[k + 1..].trim().to_string()), None => (inner.trim().to_string(), String::new()) };
                if spec.contains('$') || spec.contains('*') { return Err("format width taken from an argument".into()); }
                let e: Expr = if name.is_empty() {
                    let e = positional(&args, next)?; next += 1; e
                } else if let Ok(n) = name.parse::<usize>() { positional(&args, n)? }
                else { match args.iter().find_map(|a| match a { FArg::Named(n, e) if *n == name => Some(e.clone()), _ => None }) { Some(e) => e, None => { let id = Ident::new(&name, Span::call_site()); parse_quote!(#id) } } };
                if !cur.is_empty() { pieces.push(Piece::Lit(std::mem::take(&mut cur))); }
                pieces.push(Piece::Arg(e, spec));
                i = j + 1;
            }
            c => { cur.push(c); i += 1; }
        }
    }
    if newline { cur.push('\n'); }
    if !cur.is_empty() { pieces.push(Piece::Lit(cur)); }
    Ok(Parsed { dest, pieces })
}

fn positional(args: &[FArg], n: usize) -> std::result::Result<Expr, String> {
    match args.get(n) { Some(FArg::Pos(e)) => Ok(e.clone()), Some(FArg::Named(_, e)) => Ok(e.clone()), None => Err("format argument missing".into()) }
}

pub fn is_fmt_macro(n: &str) -> bool { matches!(n, "write" | "writeln" | "format" | "print" | "println" | "eprint" | "eprintln" | "format_args") }

/// Inline and named arguments become positional ones, so that renaming sees them.
pub fn normalise(m: &mut Macro) {
    let n = m.path.segments.last().unwrap().ident.to_string();
    if !is_fmt_macro(&n) { return; }
    let p = match parse(m.tokens.clone(), n.starts_with("write"), false) { Ok(p) => p, Err(_) => return };
    let mut lit = String::new();
    let mut args: Vec<Expr> = vec![];
    for x in p.pieces {
        match x {
            Piece::Lit(s) => lit.push_str(&s.replace('{', "{{").replace('}', "}}")),
            Piece::Arg(e, s) => { if s.is_empty() { lit.push_str("{}") } else { lit.push_str(&format!("{{:{}}}", s)) } args.push(e) }
        }
    }
    let l = LitStr::new(&lit, Span::call_site());
    let d = p.dest.map(|d| quote::quote!(#d,));
    m.tokens = quote::quote!(#d #l #(, #args)*);
}
