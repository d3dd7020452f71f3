//! c8x: mechanical extraction of /repo/src into one Verus crate.
//!
//! usage: c8x <repo/src> <spec dir> <out.rs> <report.json>
//!
//! Reads the *current* source text, applies the rewrites listed in DESIGN.md (each keeps the
//! statement and expression structure of the code), attaches the contracts of <spec dir>/*.vspec
//! by function name and loop index, and writes the crate the verifier is run on.
//! Never invents code: a construct it cannot translate is left as it is (the verifier then
//! rejects it and the run is reported as "not within reach", not as a violation).

mod align;
mod contracts;
mod deps;
mod fmt;
mod lower;
mod modules;
mod printer;
mod regexes;

use contracts::{Contracts, FnSpec};
use quote::ToTokens;
use std::collections::{BTreeMap, BTreeSet};
use std::fs;
use std::path::Path;
use syn::visit_mut::VisitMut;

pub type Report = serde_json::Map<String, serde_json::Value>;

#[derive(Clone)]
pub struct FnInfo {
    pub key: String,            // module::Type::name or module::name
    pub module: String,
    pub self_ty: Option<String>,
    pub sig: syn::Signature,
    pub block: syn::Block,
    pub impl_generics: Option<syn::Generics>,
    pub impl_self: Option<syn::Type>,
    pub trait_name: Option<String>,
}

fn read_module(src: &Path) -> syn::File {
    let mut text = fs::read_to_string(src).unwrap_or_else(|e| die(&format!("read {}: {}", src.display(), e)));
    text = text.replace("try!", "r#try!");
    text = fix_dotdotdot(&text);
    syn::parse_file(&text).unwrap_or_else(|e| die(&format!("parse {}: {}", src.display(), e)))
}

/// `'a' ... 'z'` (2015 range patterns) -> `'a' ..= 'z'`, outside comments and literals.
fn fix_dotdotdot(s: &str) -> String {
    let c: Vec<char> = s.chars().collect();
    let at = |i: usize| c.get(i).copied().unwrap_or('\0');
    let mut out = String::new();
    let mut i = 0;
    while i < c.len() {
        let from = i;
        match c[i] {
            '/' if at(i + 1) == '/' => while i < c.len() && c[i] != '\n' { i += 1 },
            '/' if at(i + 1) == '*' => {
                let mut depth = 0;
                loop {
                    if i >= c.len() { break; }
                    if c[i] == '/' && at(i + 1) == '*' { depth += 1; i += 2; }
                    else if c[i] == '*' && at(i + 1) == '/' { depth -= 1; i += 2; if depth == 0 { break; } }
                    else { i += 1; }
                }
            }
            '"' => { i += 1; while i < c.len() && c[i] != '"' { i += if c[i] == '\\' { 2 } else { 1 } } i += 1; }
            'r' if (at(i + 1) == '"' || at(i + 1) == '#' && (at(i + 2) == '"' || at(i + 2) == '#')) && (i == 0 || !(c[i - 1].is_alphanumeric() && c[i - 1] != 'b') && c[i - 1] != '_') => {
                let mut n = 0;
                i += 1;
                while at(i) == '#' { n += 1; i += 1; }
                i += 1;
                while i < c.len() && !(c[i] == '"' && (1..=n).all(|k| at(i + k) == '#')) { i += 1; }
                i += 1 + n;
            }
            '\'' if at(i + 1) == '\\' => { i += 3; while i < c.len() && c[i] != '\'' { i += 1; } i += 1; }
            '\'' if at(i + 2) == '\'' => i += 3,
            '.' if at(i + 1) == '.' && at(i + 2) == '.' => {
                let num = |c: Option<char>| c.map(|c| c.is_ascii_digit()).unwrap_or(false);
                let before = out.trim_end();
                let after = c[i + 3..].iter().find(|x| !x.is_whitespace()).copied();
                let pat = before.ends_with('\'') && after == Some('\'') || num(before.chars().last()) && num(after);
                out.push_str(if pat { "..=" } else { "..." });
                i += 3;
                continue;
            }
            _ => i += 1,
        }
        let end = i.min(c.len());
        out.extend(&c[from..end]);
    }
    out
}

pub fn die(m: &str) -> ! {
    eprintln!("c8x: {}", m);
    std::process::exit(3)
}

pub fn is_cfg_test(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| {
        let t = a.to_token_stream().to_string().replace(' ', "");
        t.starts_with("#[cfg(test") || t.starts_with("#[test")
    })
}

pub fn tyname(t: &syn::Type) -> String {
    match t {
        syn::Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        syn::Type::Reference(r) => tyname(&r.elem),
        _ => String::new(),
    }
}

pub fn has_derive(attrs: &[syn::Attribute], what: &str) -> bool {
    attrs.iter().any(|a| a.path().is_ident("derive") && a.to_token_stream().to_string().replace(['(', ')', ',', '[', ']'], " ").split_whitespace().any(|w| w == what))
}

pub struct ModuleSrc {
    pub name: String,
    pub types: Vec<String>,     // printed type definitions
    pub consts: Vec<String>,    // printed consts / nested const modules
    pub uses: Vec<String>,
    pub fns: Vec<FnInfo>,
    pub statics: BTreeMap<String, syn::Expr>,
    pub clones: Vec<String>,
}

/// Widen visibility: everything becomes `pub` so that contracts can talk about it.
struct PubAll;
impl VisitMut for PubAll {
    fn visit_field_mut(&mut self, f: &mut syn::Field) {
        f.attrs.clear();
        f.vis = syn::parse_quote!(pub);
    }
    fn visit_variant_mut(&mut self, v: &mut syn::Variant) {
        v.attrs.clear();
        // enum fields take no visibility
        for f in v.fields.iter_mut() { f.attrs.clear(); f.vis = syn::Visibility::Inherited; }
    }
}

/// The paths a `use` imports, one by one.
pub fn flatten(tree: &syn::UseTree, at: String, out: &mut Vec<String>) {
    let join = |x: String| if at.is_empty() { x } else { format!("{}::{}", at, x) };
    match tree {
        syn::UseTree::Path(p) => flatten(&p.tree, join(p.ident.to_string()), out),
        syn::UseTree::Name(n) if n.ident == "self" => out.push(at),
        syn::UseTree::Name(n) => out.push(join(n.ident.to_string())),
        syn::UseTree::Rename(n) if n.ident == "self" => out.push(format!("{} as {}", at, n.rename)),
        syn::UseTree::Rename(n) => out.push(join(format!("{} as {}", n.ident, n.rename))),
        syn::UseTree::Glob(_) => out.push(join("*".into())),
        syn::UseTree::Group(g) => for x in &g.items { flatten(x, at.clone(), out) },
    }
}

/// Keeps what is imported from the crate itself, by its full path.
fn print_use(tree: &syn::UseTree, module: &str, out: &mut Vec<String>) {
    let mut v = vec![];
    flatten(tree, String::new(), &mut v);
    for p in v {
        let mut p = p;
        if let Some(r) = p.strip_prefix("crate::") { p = r.to_string() }
        if let Some(r) = p.strip_prefix("super::") { p = if module == "main_rs" { continue } else { format!("assembler::{}", r) } }
        if p.starts_with("self::") { out.push(format!("use {};", p)); continue }
        if !p.starts_with("assembler::") { continue }
        if p == format!("assembler::{}", module) || p.starts_with(&format!("assembler::{}::", module)) { continue }
        let u = format!("use crate::{};", p);
        if !out.contains(&u) { out.push(u) }
    }
}

pub fn gather(name: &str, file: syn::File) -> ModuleSrc {
    let mut m = ModuleSrc { name: name.to_string(), types: vec![], consts: vec![], uses: vec![], fns: vec![], statics: BTreeMap::new(), clones: vec![] };
    for item in file.items {
        match item {
            syn::Item::Use(u) => { if !is_cfg_test(&u.attrs) { print_use(&u.tree, name, &mut m.uses) } }
            syn::Item::Const(mut c) => { c.attrs.clear(); c.vis = syn::parse_quote!(pub); static_refs(&mut c.ty); m.consts.push(printer::print(c.to_token_stream())) }
            syn::Item::Struct(mut s) => {
                if is_cfg_test(&s.attrs) { continue; }
                let (cl, cp) = (has_derive(&s.attrs, "Clone"), has_derive(&s.attrs, "Copy"));
                s.attrs.clear();
                s.vis = syn::parse_quote!(pub);
                PubAll.visit_fields_mut(&mut s.fields);
                lower::fix_generics(&mut s.generics);
                emit_type(&mut m, s.ident.to_string(), s.generics.clone(), s.to_token_stream(), cl, cp);
            }
            syn::Item::Enum(mut e) => {
                if is_cfg_test(&e.attrs) { continue; }
                let (cl, cp) = (has_derive(&e.attrs, "Clone"), has_derive(&e.attrs, "Copy"));
                e.attrs.clear();
                e.vis = syn::parse_quote!(pub);
                for v in e.variants.iter_mut() { PubAll.visit_variant_mut(v) }
                lower::fix_generics(&mut e.generics);
                e.attrs.push(syn::parse_quote!(#[allow(inconsistent_fields)]));
                emit_type(&mut m, e.ident.to_string(), e.generics.clone(), e.to_token_stream(), cl, cp);
            }
            syn::Item::Type(mut t) => { t.vis = syn::parse_quote!(pub); t.attrs.clear(); m.types.push(printer::print(t.to_token_stream())) }
            syn::Item::Mod(md) => {
                if is_cfg_test(&md.attrs) { continue; }
                if let Some((_, items)) = md.content {
                    // nested modules of constants
                    let mut inner = String::new();
                    let mut ok = true;
                    for it in items {
                        match it {
                            syn::Item::Const(mut c) => { c.attrs.clear(); c.vis = syn::parse_quote!(pub); static_refs(&mut c.ty); inner.push_str(&printer::print(c.to_token_stream())); inner.push('\n') }
                            _ => ok = false,
                        }
                    }
                    let _ = ok;
                    m.consts.push(format!("pub mod {} {{\n{}}}\n", md.ident, inner));
                }
            }
            syn::Item::Fn(f) => {
                if is_cfg_test(&f.attrs) { continue; }
                m.fns.push(FnInfo { key: format!("{}::{}", name, f.sig.ident), module: name.into(), self_ty: None, sig: f.sig, block: *f.block, impl_generics: None, impl_self: None, trait_name: None });
            }
            syn::Item::Impl(im) => {
                if is_cfg_test(&im.attrs) { continue; }
                let tn = im.trait_.as_ref().map(|(_, p, _)| p.segments.last().unwrap().ident.to_string());
                if let Some(t) = &tn {
                    if t != "Iterator" && t != "Display" && t != "Error" { continue; }
                }
                let st = tyname(&im.self_ty);
                for it in im.items {
                    if let syn::ImplItem::Fn(f) = it {
                        m.fns.push(FnInfo { key: format!("{}::{}::{}", name, st, f.sig.ident), module: name.into(), self_ty: Some(st.clone()), sig: f.sig, block: f.block, impl_generics: Some(im.generics.clone()), impl_self: Some((*im.self_ty).clone()), trait_name: tn.clone() });
                    }
                }
            }
            syn::Item::Macro(mc) => {
                if mc.mac.path.is_ident("lazy_static") {
                    for (n, e) in lower::parse_lazy_static(mc.mac.tokens.clone()) { m.statics.insert(n, e); }
                }
            }
            _ => {}
        }
    }
    m
}

/// constants: `&T` is `&'static T`
fn static_refs(t: &mut syn::Type) {
    struct V;
    impl VisitMut for V {
        fn visit_type_reference_mut(&mut self, r: &mut syn::TypeReference) {
            if r.lifetime.is_none() { r.lifetime = Some(syn::Lifetime::new("'static", proc_macro2::Span::call_site())); }
            syn::visit_mut::visit_type_reference_mut(self, r)
        }
    }
    V.visit_type_mut(t)
}

fn emit_type(m: &mut ModuleSrc, name: String, g: syn::Generics, toks: proc_macro2::TokenStream, clone: bool, copy: bool) {
    let mut s = printer::print(lower::retype(toks));
    if copy {
        s = format!("#[derive(Clone, Copy)]\n{}", s);
    } else if clone {
        let (ig, tg, wc) = g.split_for_impl();
        m.clones.push(format!(
            "#[cfg(not(c8exec))]\nimpl{} Clone for {}{} {} {{\n#[verifier::external_body]\nfn clone(&self) -> (r: Self) ensures r == *self {{ unimplemented!() }}\n}}\n",
            ig.to_token_stream(), name, tg.to_token_stream(), wc.to_token_stream()));
        s = format!("#[cfg_attr(c8exec, derive(Clone))]\n{}", s);
    }
    m.types.push(s);
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() == 3 && a[1] == "names" { println!("{}", serde_json::to_string_pretty(&align::names(&modules::load(Path::new(&a[2]), &serde_json::Value::Null).0)).unwrap()); return; }
    if a.len() > 1 && a[1] == "deps" { deps::run(&a[2..]); return; }
    if a.len() < 5 { die("usage: c8x SRC SPECDIR OUT REPORT [--vacuity] [--degrade KEY]... [--drop KEY]..."); }
    let vacuity = a[5..].iter().any(|x| x == "--vacuity");
    let degrade: BTreeSet<String> = a[5..].windows(2).filter(|w| w[0] == "--degrade").map(|w| w[1].clone()).collect();
    let src = Path::new(&a[1]);
    let mut spec = Contracts::load(Path::new(&a[2]));
    let base: serde_json::Value = fs::read_to_string(Path::new(&a[2]).join("names.json")).ok().and_then(|t| serde_json::from_str(&t).ok()).unwrap_or_default();
    let (mut files, moved) = modules::load(src, &base);
    let mut renamed = align::align(&mut files, &base);
    renamed.extend(moved);
    let changed = align::changed(&files, &base);
    // a contract that does not fit its function's signature any more: the function counts as a helper of its callers
    let mut dropped: BTreeMap<String, FnSpec> = BTreeMap::new();
    let asked: Vec<String> = a[5..].windows(2).filter(|w| w[0] == "--drop").map(|w| w[1].clone()).collect();
    for k in align::resigned(&files, &base).into_iter().chain(asked) { if !degrade.contains(&k) { if let Some(s) = spec.fns.remove(&k) { dropped.insert(k, s); } } }
    let spec = spec;
    let mut tentative: BTreeSet<String> = BTreeSet::new();
    let mut taken: BTreeSet<String> = BTreeSet::new();
    let mods: Vec<ModuleSrc> = files.into_iter().map(|(n, f)| gather(&n, f)).collect();

    // All functions by key; those without a contract are inlined where they are called.
    let mut all: BTreeMap<String, FnInfo> = BTreeMap::new();
    for m in &mods { for f in &m.fns { all.insert(f.key.clone(), f.clone()); } }
    let statics: BTreeMap<String, syn::Expr> = mods.iter().flat_map(|m| m.statics.clone()).collect();

    let mut problems: Vec<serde_json::Value> = vec![];
    let mut fn_report: Vec<serde_json::Value> = vec![];
    let mut out = String::new();
    out.push_str("// GENERATED by c8x from /repo/src on every run. Do not edit.\n#![allow(unused_imports, unused_variables, unused_mut, dead_code, unused_assignments, non_camel_case_types, non_snake_case, unused_parens, unused_braces, unreachable_code, unused_labels)]\n");
    out.push_str("use vstd::prelude::*;\n");
    out.push_str(&spec.prelude);
    out.push_str("\npub mod assembler {\n");
    let mut call_edges: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
    let mut regex_out: Vec<regexes::Generated> = vec![];
    for m in &mods {
        let is_main = m.name == "main_rs";
        if is_main && !spec.has_module("main_rs") { continue; }
        out.push_str(&format!("pub mod {} {{\nuse vstd::prelude::*;\nuse crate::prelude::*;\nuse crate::spec::*;\nuse std::ops::Range;\n", m.name));
        for u in &m.uses { out.push_str(u); out.push('\n'); }
        out.push_str("verus! {\n");
        if let Some(b) = spec.module_uses.get(&m.name) { out.push_str(b); }
        for t in &m.types { out.push_str(t); out.push('\n'); }
        for t in &m.clones { out.push_str(t); }
        for t in &m.consts { out.push_str(t); out.push('\n'); }
        if let Some(b) = spec.module_text.get(&m.name) { out.push_str(b); out.push('\n'); }
        for f in &m.fns {
            let fs = match spec.fns.get(&f.key) { Some(s) => s, None => continue };
            let mut lw = lower::Lower::new(f, &all, &spec, &statics);
            let res = if degrade.contains(&f.key) { Err("outside the verifier's reach".to_string()) } else { lw.run(f, fs) };
            // what the proof of an inlined function needed, its caller needs now
            let from: Vec<String> = lw.inlined.iter().filter(|k| dropped.contains_key(*k)).cloned().collect();
            let mut fs = fs.clone();
            let mut res = res;
            if !fs.optional.is_empty() && res.is_ok() && lw.notes.iter().any(|n| n.starts_with("loop anchors lost")) {
                let short = fs.without_optional();
                let mut l2 = lower::Lower::new(f, &all, &spec, &statics);
                let r2 = l2.run(f, &short);
                if r2.is_ok() && l2.notes.is_empty() { fs = short; lw = l2; res = r2; }
            }
            if let (true, [k]) = (res.is_ok(), &from[..]) {
                if fs.loops.is_empty() && !dropped[k].loops.is_empty() {
                    fs.loops = dropped[k].loops.clone();
                    for (p, t) in &dropped[k].at { if p != "entry" && p != "tail" { fs.at.insert(p.clone(), t.clone()); } }
                    lw = lower::Lower::new(f, &all, &spec, &statics);
                    res = lw.run(f, &fs);
                }
            }
            let fs = &fs;
            // a function whose annotations no longer fit is not proved in this run: its contract is assumed
            let res = match res { Ok(_) if !lw.notes.is_empty() => Err(lw.notes.join("; ")), r => r };
            match res {
                Ok(mut text) => {
                    if !from.is_empty() { tentative.insert(f.key.clone()); taken.extend(from); }
                    for l in &lw.lifted { text.push_str(l); }
                    if vacuity { text = vacuous(&text); }
                    let start = out.matches('\n').count() + 1;
                    out.push_str(&text);
                    let end = out.matches('\n').count() + 1;
                    fn_report.push(serde_json::json!({"fn": f.key, "props": fs.props, "lines": [start, end], "inlined": lw.inlined, "loops": lw.loops, "rewrites": lw.rewrites}));
                }
                Err(e) => {
                    problems.push(serde_json::json!({"fn": f.key, "props": fs.props, "problem": e}));
                    if let Ok(text) = lw.assumed(f, fs) { out.push_str(&text); }
                }
            }
            call_edges.insert(f.key.clone(), lw.calls.clone());
            regex_out.append(&mut lw.regexes);
        }
        for g in regex_out.drain(..) {
            out.push_str(&g.text);
        }
        out.push_str("} // verus!\n}\n");
    }
    out.push_str("}\n");
    out.push_str(&spec.tail);
    out.push_str("\n#[cfg(not(c8exec))]\nfn main() {}\n#[cfg(c8exec)]\nfn main() { let mut w = prelude::World::x_new(); assembler_main(&mut w) }\n#[cfg(c8exec)]\nuse assembler::main_rs::main_entry as assembler_main;\n");
    for (k, s) in &dropped { if !taken.contains(k) { problems.push(serde_json::json!({"fn": k, "props": s.props, "problem": "the contract does not fit the function's signature"})); } }
    // contracts whose function no longer exists
    for k in spec.fns.keys() {
        if !all.contains_key(k) { problems.push(serde_json::json!({"fn": k, "props": spec.fns[k].props, "problem": "contracted function not found in the source"})); }
    }
    // recursion check over the extracted call graph (stack use is bounded when there is no cycle)
    let cyc = find_cycle(&call_edges);
    let mut rep = Report::new();
    rep.insert("functions".into(), fn_report.into());
    rep.insert("problems".into(), problems.into());
    rep.insert("tentative".into(), serde_json::json!(tentative));
    rep.insert("dropped".into(), serde_json::json!(dropped.keys().collect::<Vec<_>>()));
    rep.insert("changed".into(), serde_json::json!(changed));
    rep.insert("renamed".into(), serde_json::json!(renamed));
    rep.insert("recursion".into(), serde_json::json!(cyc));
    rep.insert("uncontracted".into(), serde_json::json!(all.keys().filter(|k| !spec.fns.contains_key(*k)).collect::<Vec<_>>()));
    fs::write(&a[3], out).unwrap();
    fs::write(&a[4], serde_json::to_string_pretty(&serde_json::Value::Object(rep)).unwrap()).unwrap();
}

/// `assert(false)` as the first obligation of the body: it has to fail.
fn vacuous(text: &str) -> String {
    let i = text.find("//@BODY\n").map(|i| i + 8).unwrap();
    let j = i + text[i..].find('{').unwrap() + 1;
    format!("{}\nproof {{ assert(false); }}\n{}", &text[..j], &text[j..])
}

fn find_cycle(g: &BTreeMap<String, BTreeSet<String>>) -> Option<Vec<String>> {
    fn go(n: &str, g: &BTreeMap<String, BTreeSet<String>>, st: &mut Vec<String>, done: &mut BTreeSet<String>) -> Option<Vec<String>> {
        if let Some(i) = st.iter().position(|x| x == n) { return Some(st[i..].to_vec()); }
        if done.contains(n) { return None; }
        st.push(n.to_string());
        if let Some(ss) = g.get(n) { for s in ss { if let Some(c) = go(s, g, st, done) { return Some(c); } } }
        st.pop();
        done.insert(n.to_string());
        None
    }
    let mut done = BTreeSet::new();
    for k in g.keys() { if let Some(c) = go(k, g, &mut vec![], &mut done) { return Some(c); } }
    None
}

#[allow(dead_code)]
fn unused(_: &FnSpec) {}
