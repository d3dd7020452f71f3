//! `c8x deps`: the contracts the prelude assumes for the crates twelve_bit and ihex, proved from
//! the sources of those crates (the ones cargo builds with). The contract text is the prelude's
//! own: every `{ unimplemented!() }` between the markers is replaced by the dependency's body.
use crate::contracts::{Contracts, FnSpec};
use crate::{lower, printer, FnInfo};
use proc_macro2::{TokenStream, TokenTree};
use quote::{quote, ToTokens};
use std::collections::BTreeMap;
use std::path::Path;
use syn::parse::Parser as _;
use syn::*;

type Res<T> = std::result::Result<T, String>;

/// macro_rules with one arm of comma-separated parameters
struct Rule { params: Vec<String>, body: TokenStream }

fn rule(m: &ItemMacro) -> Option<Rule> {
    let ts: Vec<TokenTree> = m.mac.tokens.clone().into_iter().collect();
    let (p, b) = match (&ts[0], ts.get(3)?) { (TokenTree::Group(p), TokenTree::Group(b)) => (p.stream(), b.stream()), _ => return None };
    if ts.len() > 5 { return None; }
    let p: Vec<TokenTree> = p.into_iter().collect();
    let mut params = vec![];
    for w in p.windows(2) { if let (TokenTree::Punct(d), TokenTree::Ident(i)) = (&w[0], &w[1]) { if d.as_char() == '$' { params.push(i.to_string()) } } }
    Some(Rule { params, body: b })
}
fn put(ts: TokenStream, map: &BTreeMap<String, TokenStream>) -> TokenStream {
    let mut out = TokenStream::new();
    let mut it = ts.into_iter().peekable();
    while let Some(t) = it.next() {
        match t {
            TokenTree::Punct(p) if p.as_char() == '$' => match it.next() {
                Some(TokenTree::Ident(i)) if map.contains_key(&i.to_string()) => out.extend(map[&i.to_string()].clone()),
                Some(x) => { out.extend([TokenTree::Punct(p), x]) }
                None => {}
            },
            TokenTree::Group(g) => out.extend([TokenTree::Group(proc_macro2::Group::new(g.delimiter(), put(g.stream(), map)))]),
            t => out.extend([t]),
        }
    }
    out
}
fn split(ts: TokenStream) -> Vec<TokenStream> {
    let mut v = vec![TokenStream::new()];
    for t in ts { match &t { TokenTree::Punct(p) if p.as_char() == ',' => v.push(TokenStream::new()), _ => v.last_mut().unwrap().extend([t]) } }
    if v.last().unwrap().is_empty() { v.pop(); }
    v
}
/// The items of a file with its own macros expanded.
fn expand(items: Vec<Item>, rules: &mut BTreeMap<String, Rule>, out: &mut Vec<Item>) {
    for i in items {
        match i {
            Item::Macro(m) => {
                if let Some(n) = &m.ident { if let Some(r) = rule(&m) { rules.insert(n.to_string(), r); } continue; }
                let n = m.mac.path.segments.last().unwrap().ident.to_string();
                if let Some(r) = rules.get(&n) {
                    let args = split(m.mac.tokens.clone());
                    let map = r.params.iter().cloned().zip(args).collect();
                    if let Ok(f) = syn::parse2::<File>(put(r.body.clone(), &map)) { expand(f.items, rules, out) }
                }
            }
            Item::Mod(m) if crate::is_cfg_test(&m.attrs) => {}
            i => out.push(i),
        }
    }
}

struct Dep { items: Vec<Item>, rules: BTreeMap<String, Rule> }
impl Dep {
    fn load(p: &Path) -> Dep {
        let mut rules = BTreeMap::new();
        let mut items = vec![];
        expand(crate::read_module(p).items, &mut rules, &mut items);
        Dep { items, rules }
    }
    /// The function `name` of `impl TR for TY` (or `impl TY`).
    fn find(&self, tr: Option<&str>, ty: &str, name: &str) -> Option<(Signature, Block)> {
        let s = |t: TokenStream| t.to_string().replace(' ', "");
        for i in &self.items {
            if let Item::Impl(im) = i {
                let t = im.trait_.as_ref().map(|(_, p, _)| s(p.to_token_stream()));
                if t.as_deref() != tr || s(im.self_ty.to_token_stream()) != ty { continue; }
                for f in &im.items { if let ImplItem::Fn(f) = f { if f.sig.ident == name { return Some((f.sig.clone(), f.block.clone())); } } }
            }
        }
        // a provided method of the trait
        let base = tr?.split('<').next()?.to_string();
        for i in &self.items {
            if let Item::Trait(t) = i { if t.ident == base { for f in &t.items { if let TraitItem::Fn(f) = f { if f.sig.ident == name { if let Some(b) = &f.default { return Some((f.sig.clone(), b.clone())); } } } } } }
        }
        None
    }
    fn konst(&self, n: &str) -> Option<Expr> { self.items.iter().find_map(|i| match i { Item::Const(c) if c.ident == n => Some((*c.expr).clone()), _ => None }) }
    fn derives(&self, ty: &str, what: &str) -> bool { self.items.iter().any(|i| match i { Item::Struct(s) if s.ident == ty => crate::has_derive(&s.attrs, what), _ => false }) }
    fn impls_from(&self, arg: &str) -> Vec<(String, Signature, Block)> {
        let mut v = vec![];
        for i in &self.items { if let Item::Impl(im) = i { if let Some((_, p, _)) = &im.trait_ { if p.to_token_stream().to_string().replace(' ', "") == format!("From<{}>", arg) { for f in &im.items { if let ImplItem::Fn(f) = f { v.push((im.self_ty.to_token_stream().to_string(), f.sig.clone(), f.block.clone())) } } } } } }
        v
    }
}

/// The lowered body of a dependency function, with the given parameter names.
fn body(sig: Signature, block: Block, params: Vec<String>, selfty: Option<&str>) -> Res<String> {
    let f = FnInfo { key: format!("dep::{}", sig.ident), module: "dep".into(), self_ty: selfty.map(|s| s.to_string()), sig, block, impl_generics: None, impl_self: None, trait_name: None };
    let all = BTreeMap::new();
    let spec = Contracts::default();
    let mut lw = lower::Lower::new(&f, &all, &spec, &BTreeMap::new());
    let fs = FnSpec { params: Some(params), ..Default::default() };
    let t = lw.body(&f, &fs)?.1;
    if lw.notes.is_empty() { Ok(t) } else { Err(lw.notes.join("; ")) }
}

/// `fn name(self, o: U12, ...)` -> (name, [("self", ..), ("o", "U12")])
fn head(text: &str) -> Option<(String, Vec<(String, String)>)> {
    let i = text.find("fn ")?;
    let t = &text[i + 3..];
    let p = t.find('(')?;
    let q = t.find(')')?;
    let args = t[p + 1..q].split(',').map(|a| a.trim()).filter(|a| !a.is_empty()).map(|a| match a.find(':') { Some(k) => (a[..k].trim().to_string(), a[k + 1..].trim().to_string()), None => (a.to_string(), "Self".to_string()) }).collect();
    Some((t[..p].trim().to_string(), args))
}

const EXT: &str = "#[verifier::external_body]";
const STUB: &str = "{ unimplemented!() }";

/// The prelude with every `real!(..)` taken out.
fn stubbed(t: &str) -> String {
    let mut out = String::new();
    let mut rest = t;
    while let Some(i) = rest.find("{ real!(") {
        out.push_str(&rest[..i]);
        out.push_str(STUB);
        let mut depth = 0;
        let mut end = i;
        for (k, c) in rest[i..].char_indices() {
            match c { '{' | '(' => depth += 1, '}' | ')' => { depth -= 1; if depth == 0 { end = i + k + 1; break; } } _ => {} }
        }
        rest = &rest[end..];
    }
    out.push_str(rest);
    out
}

/// The U12 section with the dependency's bodies.
pub fn u12_section(sec: &str, dep: &Dep_, done: &mut Vec<String>, missing: &mut Vec<String>) -> String {
    let mut s = sec.replace("#[verifier::external_body]\npub struct U12 { v: u16 }", "pub struct U12(u16);\nimpl U12 { #[verifier::type_invariant] spec fn inv(self) -> bool { self.0 <= 4095 } }")
        .replace("uninterp spec fn view(&self) -> int;", "closed spec fn view(&self) -> int { self.0 as int }")
        .replace("pub uninterp spec fn u12(n: int) -> U12;", "pub closed spec fn u12(n: int) -> U12 { U12(n as u16) }")
        .replace("pub broadcast axiom fn axiom_u12_range(x: U12) ensures 0 <= #[trigger] x@ <= 4095, u12(x@) == x;", "")
        .replace("pub broadcast axiom fn axiom_u12_make(n: int) ensures 0 <= n <= 4095 ==> (#[trigger] u12(n))@ == n;", "pub broadcast proof fn axiom_u12_make(n: int) ensures 0 <= n <= 4095 ==> (#[trigger] u12(n))@ == n { }")
        .replace("group_u12 { axiom_u12_range, axiom_u12_make }", "group_u12 { axiom_u12_make }");
    let mut out = String::new();
    for i in &dep.0.items { if let Item::Const(c) = i { let mut c = c.clone(); c.attrs.clear(); c.vis = Visibility::Inherited; out.push_str(&format!("{}\n", c.to_token_stream())); } }
    let mut header = String::new();
    while let Some(i) = s.find(EXT) {
        let j = match s[i..].find(STUB) { Some(j) => i + j, None => break };
        for l in s[..i].lines() { if l.starts_with("impl") { header = l.split('{').next().unwrap().trim().to_string() } else if l.starts_with("pub fn") || l.starts_with('}') { header.clear() } }
        out.push_str(&s[..i]);
        let sig = s[i + EXT.len()..j].to_string();
        let (name, args) = head(&sig).unwrap();
        let h = header.strip_prefix("impl ").unwrap_or("").replace("core::ops::", "");
        let (tr, ty) = match h.find(" for ") { Some(k) => (Some(h[..k].trim().to_string()), h[k + 5..].trim().to_string()), None => (None, h.trim().to_string()) };
        let params: Vec<String> = args.iter().map(|a| a.0.clone()).filter(|a| a != "self" && a != "&self").collect();
        let key = if h.is_empty() { name.clone() } else { format!("<{}>::{}", h, name) };
        let b: Res<String> = match (h.as_str(), name.as_str()) {
            ("", "v_u12_max") | ("", "v_u12_min") => dep.0.konst(if name.ends_with("max") { "MAX" } else { "MIN" }).map(|e| format!("{{ {} }}", quote!(#e))).ok_or("constant not found".into()),
            ("", "v_u12_lit") => dep.0.rules.get("u12").ok_or("macro not found".to_string()).and_then(|r| {
                let arg: TokenStream = params[0].parse().unwrap();
                let map = [(r.params[0].clone(), arg)].into_iter().collect();
                let t = put(r.body.clone(), &map);
                let blk = Block::parse_within.parse2(t).map_err(|e| e.to_string())?;
                body(parse_quote!(fn lit(n: u16) -> U12), Block { brace_token: Default::default(), stmts: blk }, params.clone(), None)
            }),
            ("", "v_u12_from") => dep.0.find(Some("From<u8>"), "U12", "from").ok_or("not found".into()).and_then(|(g, b)| body(g, b, params.clone(), Some("U12"))),
            ("", "v_u12_default") => dep.0.find(Some("Default"), "U12", "default").ok_or("not found".into()).and_then(|(g, b)| body(g, b, params.clone(), Some("U12"))),
            ("Clone for U12", _) if dep.0.derives("U12", "Clone") && dep.0.derives("U12", "Copy") => Ok("{ *self }".into()),
            ("PartialEq for U12", _) if dep.0.derives("U12", "PartialEq") => Ok("{ self.0 == o.0 }".into()),
            ("PartialOrd for U12", _) if dep.0.derives("U12", "PartialOrd") => Ok("{ self.0.partial_cmp(&o.0) }".into()),
            _ => dep.0.find(tr.as_deref(), &ty, &name).ok_or("not found".into()).and_then(|(g, b)| body(g, b, params.clone(), Some(&ty))),
        };
        match b {
            Ok(b) => {
                // what the type guarantees about its values
                let mut inv = String::from("broadcast use group_u12, group_u12_bits;");
                for (n, t) in &args {
                    let n = n.trim_start_matches('&');
                    let t = if t == "Self" { ty.as_str() } else { t.as_str() };
                    if t == "U12" { inv.push_str(&format!(" use_type_invariant(&{});", n)) } else if t == "&U12" || n == "self" && t == "&U12" { inv.push_str(&format!(" use_type_invariant({});", n)) }
                }
                let k = b.find('{').unwrap();
                out.push_str(&format!("//@BEGIN {}\n{}{}{{ proof {{ {} }} {}\n//@END {}\n", key, if name.contains("_mul") { "#[verifier::spinoff_prover]" } else { "" }, sig, inv, &b[k + 1..], key));
                done.push(key);
            }
            Err(e) => { out.push_str(&format!("{}{}{}", EXT, sig, STUB)); missing.push(format!("{}: {}", key, e)); }
        }
        s = s[j + STUB.len()..].to_string();
    }
    out.push_str(&s);
    // u16::from(U12) and the others, against the contract of v_to_u16 and the others
    for (t, g, b) in dep.0.impls_from("U12") {
        let p = match g.inputs.first() { Some(FnArg::Typed(p)) => match &*p.pat { Pat::Ident(i) => i.ident.to_string(), _ => continue }, _ => continue };
        match body(g, b, vec![p.clone()], Some(&t)) {
            Ok(b) => { let k = format!("{}::from(U12)", t); out.push_str(&format!("//@BEGIN {k}\npub fn dep_{t}_from({p}: U12) -> (r: {t}) ensures r == {p}.num() {}\n//@END {k}\n", b.replace("Self", &t))); done.push(k); }
            Err(e) => missing.push(format!("{}::from(U12): {}", t, e)),
        }
    }
    out
}
pub struct Dep_(Dep);

/// The writer of ihex: its functions, under the contracts of <spec dir>/deps.
fn ihex_module(dir: &Path, specdir: &Path, done: &mut Vec<String>, missing: &mut Vec<String>) -> String {
    let mut file = File { shebang: None, attrs: vec![], items: vec![] };
    for n in ["checksum", "record", "writer"] { file.items.extend(crate::read_module(&dir.join("src").join(format!("{}.rs", n))).items); }
    let m = crate::gather("ihex_dep", file);
    let spec = Contracts::load(&specdir.join("deps"));
    let all: BTreeMap<String, FnInfo> = m.fns.iter().map(|f| (f.key.clone(), f.clone())).collect();
    let mut out = String::from("pub mod ihex_dep {\nuse vstd::prelude::*;\nuse crate::prelude::*;\nuse crate::spec::*;\nverus! {\n");
    for t in m.types.iter().chain(&m.clones).chain(&m.consts) { out.push_str(t); out.push('\n'); }
    if let Some(b) = spec.module_text.get("ihex_dep") { out.push_str(b); }
    for f in &m.fns {
        let fs = match spec.fns.get(&f.key) { Some(s) => s, None => continue };
        let mut lw = lower::Lower::new(f, &all, &spec, &BTreeMap::new());
        let r = lw.run(f, fs);
        let r = match r { Ok(_) if !lw.notes.is_empty() => Err(lw.notes.join("; ")), r => r };
        match r {
            Ok(t) => { out.push_str(&t); done.push(f.key.replace("ihex_dep", "ihex")); }
            Err(e) => { missing.push(format!("{}: {}", f.key.replace("ihex_dep", "ihex"), e)); if let Ok(t) = lw.assumed(f, fs) { out.push_str(&t); } }
        }
    }
    for k in spec.fns.keys() { if !all.contains_key(k) { missing.push(format!("{}: not found", k)); } }
    out.push_str("} // verus!\n}\n");
    out
}

pub fn run(a: &[String]) {
    if a.len() < 5 { crate::die("usage: c8x deps TWELVE_BIT IHEX SPECDIR OUT REPORT") }
    let spec = Contracts::load(Path::new(&a[2]));
    let mut done = vec![];
    let mut missing = vec![];
    let mut text = stubbed(&spec.prelude);
    if let (Some(i), Some(j)) = (text.find("//@@X"), text.find("//@@ENDX")) { text.replace_range(i..j + 8, ""); }
    // the parser's view of its scanner belongs to the crate under test
    if let (Some(i), Some(j)) = (text.find("//@@TOKENS"), text.find("//@@ENDTOKENS")) { text.replace_range(i..j, ""); }
    let i = text.find("//@@U12").unwrap_or_else(|| crate::die("no U12 section"));
    let j = i + text[i..].find("//@@END").unwrap();
    let dep = Dep_(Dep::load(&Path::new(&a[0]).join("src/u12.rs")));
    let sec = u12_section(&text[i..j].to_string(), &dep, &mut done, &mut missing);
    text.replace_range(i..j, &sec);
    let ihex = ihex_module(Path::new(&a[1]), Path::new(&a[2]), &mut done, &mut missing);
    for (from, to) in [("pub enum Record {", "pub use crate::ihex_dep::Record;"), ("pub struct WriterError {", "pub use crate::ihex_dep::WriterError;")] {
        let i = text.find(from).unwrap_or_else(|| crate::die(from));
        let j = i + text[i..].find('\n').unwrap();
        text.replace_range(i..j, to);
    }
    let i = text.find("pub fn v_ihex_create").unwrap();
    let j = i + text[i..].find(STUB).unwrap();
    text.replace_range(j..j + STUB.len(), "{ crate::ihex_dep::create_object_file_representation(rs) }");
    let e = text[..i].rfind(EXT).unwrap();
    text.replace_range(e..e + EXT.len(), "");
    done.push("v_ihex_create".into());
    let mut out = String::from("// GENERATED by c8x deps from the sources of the dependencies on every run. Do not edit.\n#![allow(unused_imports, unused_variables, unused_mut, dead_code, unused_assignments, non_camel_case_types, non_snake_case, unused_parens, unused_braces, unreachable_code, unused_labels)]\nuse vstd::prelude::*;\n");
    out.push_str(&text);
    out.push_str(&ihex);
    out.push_str(&spec.laws);
    out.push_str("\nfn main() {}\n");
    let _ = printer::print;
    std::fs::write(&a[3], out).unwrap();
    std::fs::write(&a[4], serde_json::to_string_pretty(&serde_json::json!({"proved": done, "assumed": missing})).unwrap()).unwrap();
}
