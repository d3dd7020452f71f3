//! Renamed private functions and fields: the contracts know them by their old names.
//!
//! `spec/names.json` (written by `c8x names SRC`) has the signature and text of every function and the fields of
//! every struct as they were when the contracts were written. A contracted function that is gone is taken
//! to be renamed when exactly one new function of the same module and type has the same text up to a
//! consistent renaming of identifiers; a struct's field likewise when the types of the fields, in order,
//! are unchanged. The new name is then replaced by the old one throughout. Only names are touched, and
//! the verifier still decides: a wrong guess cannot make a wrong body verify.
use proc_macro2::{TokenStream, TokenTree};
use quote::ToTokens;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub type Mods = Vec<(String, File)>;

fn flat(t: TokenStream, o: &mut Vec<String>) {
    for x in t {
        match x {
            TokenTree::Group(g) => { o.push(format!("{:?}", g.delimiter())); flat(g.stream(), o); o.push("end".into()) }
            TokenTree::Ident(i) => o.push(format!("i{}", i)),
            TokenTree::Literal(l) => o.push(l.to_string()),
            TokenTree::Punct(p) => o.push(p.as_char().to_string()),
        }
    }
}
fn text(t: TokenStream) -> String { let mut o = vec![]; flat(t, &mut o); o.join("\u{1}") }

/// Equal up to a one-to-one renaming of identifiers.
fn alike(a: &str, b: &str) -> bool {
    let (x, y): (Vec<&str>, Vec<&str>) = (a.split('\u{1}').collect(), b.split('\u{1}').collect());
    if x.len() != y.len() { return false; }
    let (mut f, mut g): (BTreeMap<&str, &str>, BTreeMap<&str, &str>) = Default::default();
    x.iter().zip(&y).all(|(p, q)| if p.starts_with('i') && q.starts_with('i') { *f.entry(p).or_insert(q) == *q && *g.entry(q).or_insert(p) == *p } else { p == q })
}

struct F { module: String, owner: String, of_trait: bool, name: String, sig: String, body: String }
fn fns(mods: &Mods) -> Vec<F> {
    let mut out = vec![];
    for (m, f) in mods {
        for it in &f.items {
            match it {
                Item::Fn(f) if !crate::is_cfg_test(&f.attrs) => out.push(F { module: m.clone(), owner: String::new(), of_trait: false, name: f.sig.ident.to_string(), sig: sigtext(&f.sig), body: text(f.block.to_token_stream()) }),
                Item::Impl(im) if !crate::is_cfg_test(&im.attrs) => for x in &im.items { if let ImplItem::Fn(f) = x {
                    out.push(F { module: m.clone(), owner: crate::tyname(&im.self_ty), of_trait: im.trait_.is_some(), name: f.sig.ident.to_string(), sig: sigtext(&f.sig), body: text(f.block.to_token_stream()) })
                } },
                _ => {}
            }
        }
    }
    out
}
fn sigtext(s: &Signature) -> String { let mut s = s.clone(); s.ident = Ident::new("f", s.ident.span()); text(s.to_token_stream()) }
fn structs(mods: &Mods) -> Vec<(String, String, Vec<(String, String)>)> {
    let mut out = vec![];
    for (m, f) in mods { for it in &f.items { if let Item::Struct(s) = it {
        if let Fields::Named(n) = &s.fields { out.push((m.clone(), s.ident.to_string(), n.named.iter().map(|f| (f.ident.as_ref().unwrap().to_string(), text(f.ty.to_token_stream()))).collect())) }
    } } }
    out
}

pub fn names(mods: &Mods) -> Value {
    json!({"fns": fns(mods).iter().map(|f| json!([f.module, f.owner, f.name, f.sig, f.body, f.of_trait])).collect::<Vec<_>>(),
           "types": mods.iter().flat_map(|(m, f)| f.items.iter().filter_map(|i| match i { Item::Enum(e) => Some(&e.ident), Item::Struct(e) => Some(&e.ident), _ => None }).map(|i| json!([m, i.to_string()])).collect::<Vec<_>>()).collect::<Vec<_>>(),
           "structs": structs(mods).iter().map(|s| json!([s.0, s.1, s.2])).collect::<Vec<_>>()})
}

struct RenFn<'x> { from: &'x str, to: Ident }
impl<'x> VisitMut for RenFn<'x> {
    fn visit_ident_mut(&mut self, i: &mut Ident) { if i == self.from { *i = self.to.clone() } }
    fn visit_macro_mut(&mut self, m: &mut Macro) { m.tokens = toks(m.tokens.clone(), self.from, &self.to) }
}
fn toks(t: TokenStream, from: &str, to: &Ident) -> TokenStream {
    t.into_iter().map(|x| match x {
        TokenTree::Ident(i) if i == from => TokenTree::Ident(to.clone()),
        TokenTree::Group(g) => { let mut h = proc_macro2::Group::new(g.delimiter(), toks(g.stream(), from, to)); h.set_span(g.span()); TokenTree::Group(h) }
        x => x,
    }).collect()
}
/// `self.old` in the struct's own impls, and its literals and patterns there.
struct RenField<'x> { from: &'x str, to: Ident, ty: &'x str, any: bool }
impl<'x> VisitMut for RenField<'x> {
    fn visit_expr_field_mut(&mut self, f: &mut ExprField) {
        let own = matches!(&*f.base, Expr::Path(p) if p.path.is_ident("self"));
        if let Member::Named(i) = &mut f.member { if i == self.from && (own || self.any) { *i = self.to.clone() } }
        visit_mut::visit_expr_field_mut(self, f)
    }
    fn visit_expr_struct_mut(&mut self, s: &mut ExprStruct) {
        if s.path.segments.last().map(|p| p.ident == self.ty || p.ident == "Self").unwrap_or(false) {
            for f in s.fields.iter_mut() { if let Member::Named(i) = &mut f.member { if i == self.from { if f.colon_token.is_none() { f.colon_token = Some(Default::default()) } *i = self.to.clone() } } }
        }
        visit_mut::visit_expr_struct_mut(self, s)
    }
    fn visit_pat_struct_mut(&mut self, s: &mut PatStruct) {
        if s.path.segments.last().map(|p| p.ident == self.ty || p.ident == "Self").unwrap_or(false) {
            for f in s.fields.iter_mut() { if let Member::Named(i) = &mut f.member { if i == self.from { if f.colon_token.is_none() { f.colon_token = Some(Default::default()) } *i = self.to.clone() } } }
        }
        visit_mut::visit_pat_struct_mut(self, s)
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        // `self . name` inside macro arguments
        fn go(t: TokenStream, from: &str, to: &Ident, any: bool) -> TokenStream {
            let v: Vec<TokenTree> = t.into_iter().collect();
            let mut o: Vec<TokenTree> = vec![];
            for (k, x) in v.iter().enumerate() {
                let dot = k >= 1 && matches!(&v[k - 1], TokenTree::Punct(p) if p.as_char() == '.');
                let own = k >= 2 && matches!(&v[k - 2], TokenTree::Ident(i) if i == "self");
                let call = matches!(v.get(k + 1), Some(TokenTree::Group(g)) if g.delimiter() == proc_macro2::Delimiter::Parenthesis);
                o.push(match x {
                    TokenTree::Ident(i) if i == from && dot && (own || any) && !call => TokenTree::Ident(to.clone()),
                    TokenTree::Group(g) => TokenTree::Group(proc_macro2::Group::new(g.delimiter(), go(g.stream(), from, to, any))),
                    x => x.clone(),
                });
            }
            o.into_iter().collect()
        }
        m.tokens = go(m.tokens.clone(), self.from, &self.to, self.any)
    }
}

pub fn align(mods: &mut Mods, base: &Value) -> Vec<String> {
    let mut done = vec![];
    let st = |v: &Value| v.as_str().unwrap_or("").to_string();
    // fields
    let now = structs(mods);
    for b in base["structs"].as_array().into_iter().flatten() {
        let (m, n) = (st(&b[0]), st(&b[1]));
        let old: Vec<(String, String)> = b[2].as_array().into_iter().flatten().map(|x| (st(&x[0]), st(&x[1]))).collect();
        let cur = match now.iter().find(|s| s.0 == m && s.1 == n) { Some(c) => c, None => continue };
        if cur.2.len() != old.len() || cur.2.iter().zip(&old).any(|(a, b)| a.1 != b.1) { continue; }
        if cur.2.iter().any(|c| old.iter().any(|o| o.0 == c.0) && !old.iter().zip(&cur.2).any(|(o, d)| o.0 == c.0 && d.0 == c.0)) { continue; } // permuted: not a renaming
        for (c, o) in cur.2.iter().zip(&old) {
            if c.0 == o.0 { continue; }
            let others = now.iter().filter(|s| !(s.0 == m && s.1 == n)).any(|s| s.2.iter().any(|f| f.0 == c.0));
            let to = Ident::new(&o.0, proc_macro2::Span::call_site());
            for (k, f) in mods.iter_mut() {
                for it in f.items.iter_mut() {
                    match it {
                        Item::Struct(s) if *k == m && s.ident == n => for f in s.fields.iter_mut() { if f.ident.as_ref().map(|i| *i == c.0).unwrap_or(false) { f.ident = Some(to.clone()) } },
                        Item::Impl(im) if *k == m && crate::tyname(&im.self_ty) == n => RenField { from: &c.0, to: to.clone(), ty: &n, any: !others }.visit_item_impl_mut(im),
                        it if !others => RenField { from: &c.0, to: to.clone(), ty: &n, any: true }.visit_item_mut(it),
                        _ => {}
                    }
                }
            }
            done.push(format!("field {}::{}.{} is {}", m, n, o.0, c.0));
        }
    }
    // functions
    let now = fns(mods);
    let base_fns: Vec<F> = base["fns"].as_array().into_iter().flatten().map(|x| F { module: st(&x[0]), owner: st(&x[1]), of_trait: x[5].as_bool().unwrap_or(false), name: st(&x[2]), sig: st(&x[3]), body: st(&x[4]) }).collect();
    let mut gone: Vec<&F> = base_fns.iter().filter(|b| !b.of_trait && !now.iter().any(|f| f.module == b.module && f.owner == b.owner && f.name == b.name)).collect();
    gone.sort_by_key(|f| f.name.clone());
    for b in gone {
        let c: Vec<&F> = now.iter().filter(|f| !f.of_trait && f.module == b.module && f.owner == b.owner && !base_fns.iter().any(|x| x.module == f.module && x.owner == f.owner && x.name == f.name) && alike(&f.sig, &b.sig) && alike(&f.body, &b.body)).collect();
        if c.len() != 1 { continue; }
        let from = c[0].name.clone();
        // the new name has to be this function's alone
        if now.iter().filter(|f| f.name == from).count() != 1 || now.iter().any(|f| f.name == b.name) { continue; }
        let to = Ident::new(&b.name, proc_macro2::Span::call_site());
        for (_, f) in mods.iter_mut() { RenFn { from: &from, to: to.clone() }.visit_file_mut(f) }
        done.push(format!("function {}::{} is {}", b.module, b.name, from));
    }
    done
}

/// The functions whose text is not what it was when the contracts were written.
pub fn changed(mods: &Mods, base: &Value) -> Vec<String> {
    let st = |v: &Value| v.as_str().unwrap_or("").to_string();
    let old: Vec<(String, String, String, String, String)> = base["fns"].as_array().into_iter().flatten().map(|x| (st(&x[0]), st(&x[1]), st(&x[2]), st(&x[3]), st(&x[4]))).collect();
    fns(mods).into_iter().filter(|f| !old.iter().any(|o| o.0 == f.module && o.1 == f.owner && o.2 == f.name && o.3 == f.sig && o.4 == f.body))
        .map(|f| if f.owner.is_empty() { format!("{}::{}", f.module, f.name) } else { format!("{}::{}::{}", f.module, f.owner, f.name) }).collect()
}

/// Return type and number of parameters, lifetimes aside.
fn shape(sig: &str) -> (String, usize, String) {
    let mut t: Vec<&str> = vec![];
    let mut skip = false;
    for x in sig.split('\u{1}') { if x == "'" { skip = true; continue } if skip { skip = false; continue } t.push(x) }
    let open = t.iter().position(|x| *x == "Parenthesis").unwrap_or(0);
    let (mut d, mut close, mut angle, mut n, mut last) = (0i32, t.len(), 0i32, 0usize, false);
    for (i, x) in t.iter().enumerate().skip(open) {
        match *x {
            "Parenthesis" | "Brace" | "Bracket" | "None" => d += 1,
            "end" => { d -= 1; if d == 0 { close = i; break } }
            "<" => angle += 1,
            ">" if t[i - 1] != "-" => angle -= 1,
            "," if d == 1 && angle == 0 => { n += 1; last = false; continue }
            _ => {}
        }
        if i > open { last = true }
    }
    if last { n += 1 }
    let rest = &t[(close + 1).min(t.len())..];
    let wh = rest.iter().position(|x| *x == "iwhere").unwrap_or(rest.len());
    let mut ret: String = rest[..wh].concat();
    if ret == "->Parenthesisend" { ret.clear() }
    (ret, n, String::new())
}
/// The functions that return another type than when the contracts were written, or take another number of parameters.
pub fn resigned(mods: &Mods, base: &Value) -> Vec<String> {
    let st = |v: &Value| v.as_str().unwrap_or("").to_string();
    let old: Vec<(String, String, String, String)> = base["fns"].as_array().into_iter().flatten().map(|x| (st(&x[0]), st(&x[1]), st(&x[2]), st(&x[3]))).collect();
    fns(mods).into_iter().filter(|f| !f.of_trait && old.iter().any(|o| o.0 == f.module && o.1 == f.owner && o.2 == f.name && shape(&o.3) != shape(&f.sig)))
        .map(|f| if f.owner.is_empty() { format!("{}::{}", f.module, f.name) } else { format!("{}::{}::{}", f.module, f.owner, f.name) }).collect()
}
