//! The files of the crate, under the module names the contracts know.
//!
//! The modules are those `main.rs` and `assembler/mod.rs` declare. A module file that was renamed gets its old name
//! back, a new module that has taken over functions of a known one is read as a part of it, and a function
//! that moved to another known module is moved back. Only items and the paths that name them are moved: the bodies
//! stay, and a move that does not fit leaves a crate the verifier does not accept, never one it wrongly accepts.
use crate::align::Mods;
use proc_macro2::{Ident, Span, TokenStream, TokenTree};
use quote::ToTokens;
use serde_json::Value;
use std::collections::BTreeSet;
use std::path::{Path, PathBuf};
use syn::*;

pub const KNOWN: [&str; 10] = ["source_file_location", "token", "scanner", "parser", "directive", "opcode", "instruction", "data_range", "assembler", "ihex_writer"];

fn declared(f: &File) -> Vec<String> {
    f.items.iter().filter_map(|i| match i { Item::Mod(m) if m.content.is_none() && !crate::is_cfg_test(&m.attrs) => Some(m.ident.to_string()), _ => None }).collect()
}
fn file_of(dir: &Path, n: &str) -> Option<PathBuf> {
    [dir.join(format!("{}.rs", n)), dir.join(n).join("mod.rs")].into_iter().find(|p| p.exists())
}
fn id(s: &str) -> Ident { Ident::new(s, Span::call_site()) }

/// `from::` becomes `to::`, or nothing (with what leads to it) when `to` is None.
fn paths(t: TokenStream, from: &str, to: Option<&str>) -> TokenStream {
    let v: Vec<TokenTree> = t.into_iter().collect();
    let colon = |k: usize| matches!(v.get(k), Some(TokenTree::Punct(p)) if p.as_char() == ':');
    let mut o: Vec<TokenTree> = vec![];
    let mut k = 0;
    while k < v.len() {
        match &v[k] {
            TokenTree::Ident(i) if i == from && colon(k + 1) && colon(k + 2) => match to {
                Some(n) => { o.push(TokenTree::Ident(id(n))); k += 1; }
                None => {
                    loop {
                        let n = o.len();
                        let cc = n >= 2 && [n - 1, n - 2].iter().all(|j| matches!(&o[*j], TokenTree::Punct(p) if p.as_char() == ':'));
                        if !cc { break }
                        if n >= 3 && matches!(&o[n - 3], TokenTree::Ident(i) if ["super", "self", "crate", "assembler"].iter().any(|w| i == w)) { o.truncate(n - 3) } else { o.truncate(n - 2); break }
                    }
                    k += 3;
                }
            },
            TokenTree::Group(g) => { let mut h = proc_macro2::Group::new(g.delimiter(), paths(g.stream(), from, to)); h.set_span(g.span()); o.push(TokenTree::Group(h)); k += 1; }
            x => { o.push(x.clone()); k += 1; }
        }
    }
    o.into_iter().collect()
}
/// `l::name` becomes `k::name`, and just `name` within k.
fn one(t: TokenStream, l: &str, name: &str, k: Option<&str>) -> TokenStream {
    let v: Vec<TokenTree> = t.into_iter().collect();
    let mut o: Vec<TokenTree> = vec![];
    let is = |j: usize, w: &str| matches!(v.get(j), Some(TokenTree::Ident(i)) if i == w);
    let mut j = 0;
    while j < v.len() {
        if is(j, l) && is(j + 3, name) && v[j + 1].to_string() == ":" {
            match k { Some(k) => { o.push(TokenTree::Ident(id(k))); j += 1 } None => j += 3 }
            continue;
        }
        o.push(match &v[j] { TokenTree::Group(g) => { let mut h = proc_macro2::Group::new(g.delimiter(), one(g.stream(), l, name, k)); h.set_span(g.span()); TokenTree::Group(h) } x => x.clone() });
        j += 1;
    }
    o.into_iter().collect()
}
fn in_use(t: &mut UseTree, from: &str, to: &str) {
    match t {
        UseTree::Path(p) => { if p.ident == from { p.ident = id(to) } in_use(&mut p.tree, from, to) }
        UseTree::Name(n) => if n.ident == from { n.ident = id(to) },
        UseTree::Rename(n) => if n.ident == from { n.ident = id(to) },
        UseTree::Group(g) => for x in g.items.iter_mut() { in_use(x, from, to) },
        UseTree::Glob(_) => {}
    }
}
fn rewrite(f: &mut File, from: &str, to: &str, strip: bool) {
    for it in f.items.iter_mut() {
        if let Item::Use(u) = it { in_use(&mut u.tree, from, to); continue }
        if let Ok(n) = parse2::<Item>(paths(it.to_token_stream(), from, if strip { None } else { Some(to) })) { *it = n }
    }
}

/// (owner, name) of the functions and types an item defines.
fn defines(it: &Item) -> Vec<(String, String)> {
    match it {
        Item::Fn(f) if !crate::is_cfg_test(&f.attrs) => vec![(String::new(), f.sig.ident.to_string())],
        Item::Struct(s) => vec![("type".into(), s.ident.to_string())],
        Item::Enum(s) => vec![("type".into(), s.ident.to_string())],
        Item::Type(s) => vec![("type".into(), s.ident.to_string())],
        Item::Const(s) => vec![("const".into(), s.ident.to_string())],
        Item::Impl(im) if !crate::is_cfg_test(&im.attrs) => im.items.iter().filter_map(|x| match x { ImplItem::Fn(f) => Some((crate::tyname(&im.self_ty), f.sig.ident.to_string())), _ => None }).collect(),
        _ => vec![],
    }
}
fn all(f: &File) -> BTreeSet<(String, String)> { f.items.iter().flat_map(defines).collect() }

fn merge(mods: &mut Mods, from: &str, to: &str) -> bool {
    let (i, k) = match (mods.iter().position(|m| m.0 == from), mods.iter().position(|m| m.0 == to)) { (Some(i), Some(k)) => (i, k), _ => return false };
    let (a, b) = (all(&mods[i].1), all(&mods[k].1));
    if a.iter().any(|x| x.0 != "fmt" && b.contains(x)) { return false; }
    for (n, f) in mods.iter_mut() { let strip = n == to || n == from; rewrite(f, from, to, strip); if strip && to != "assembler" { rewrite(f, to, to, true) } }
    let (_, f) = mods.remove(i);
    let k = mods.iter().position(|m| m.0 == to).unwrap();
    mods[k].1.items.extend(f.items);
    true
}

pub fn load(src: &Path, base: &Value) -> (Mods, Vec<String>) {
    let mut moved = vec![];
    let main = crate::read_module(&src.join("main.rs"));
    let dir = src.join("assembler");
    let root = file_of(src, "assembler").unwrap_or_else(|| crate::die("module file missing: assembler/mod.rs"));
    let root = crate::read_module(&root);
    let mut mods: Mods = vec![];
    for n in declared(&root) {
        let p = file_of(&dir, &n).unwrap_or_else(|| crate::die(&format!("module file missing: {}", n)));
        mods.push((n.clone(), crate::read_module(&p)));
    }
    mods.push(("main_rs".to_string(), main.clone()));
    for n in declared(&main) {
        if n == "assembler" { continue }
        if let Some(p) = file_of(src, &n) {
            let mut f = crate::read_module(&p);
            f.items.retain(|i| !matches!(i, Item::Use(u) if matches!(&u.tree, UseTree::Path(p) if p.ident == "super")));
            mods.push((n.clone(), f));
            if merge(&mut mods, &n, "main_rs") { moved.push(format!("module {} read as part of main", n)) }
        }
    }
    for (_, f) in mods.iter_mut() {
        let items = std::mem::take(&mut f.items);
        for it in items {
            match it {
                Item::Use(u) if !crate::is_cfg_test(&u.attrs) => {
                    let mut out = vec![];
                    crate::flatten(&u.tree, String::new(), &mut out);
                    for p in out { if let Ok(x) = parse_str::<Item>(&format!("use {};", p)) { f.items.push(x) } }
                }
                it => f.items.push(it),
            }
        }
    }
    let st = |v: &Value| v.as_str().unwrap_or("").to_string();
    let old: Vec<(String, String, String)> = base["fns"].as_array().into_iter().flatten().map(|x| (st(&x[0]), st(&x[1]), st(&x[2]))).chain(
        base["types"].as_array().into_iter().flatten().map(|x| (st(&x[0]), "type".to_string(), st(&x[1])))).collect();
    let known = |n: &str| KNOWN.contains(&n) || n == "main_rs";
    // renamed modules
    for k in KNOWN {
        if mods.iter().any(|m| m.0 == k) { continue }
        let want: Vec<&(String, String, String)> = old.iter().filter(|o| o.0 == k).collect();
        let hits = |f: &File| { let a = all(f); want.iter().filter(|o| a.contains(&(o.1.clone(), o.2.clone()))).count() };
        let best = mods.iter().filter(|m| !known(&m.0)).map(|m| (hits(&m.1), m.0.clone())).max();
        match best {
            Some((h, e)) if 2 * h > want.len() => {
                for (n, f) in mods.iter_mut() { if *n == e { *n = k.to_string() } rewrite(f, &e, k, false) }
                moved.push(format!("module {} is {}", k, e));
            }
            _ => mods.push((k.to_string(), File { shebang: None, attrs: vec![], items: vec![] })),
        }
    }
    // new modules with functions of known ones
    let extra: Vec<String> = mods.iter().map(|m| m.0.clone()).filter(|n| !known(n)).collect();
    for e in extra {
        let f = match mods.iter().find(|m| m.0 == e) { Some(m) => all(&m.1), None => continue };
        let best = KNOWN.iter().map(|k| {
            let here = all(&mods.iter().find(|m| m.0 == *k).unwrap().1);
            (old.iter().filter(|o| o.0 == *k && f.contains(&(o.1.clone(), o.2.clone())) && !here.contains(&(o.1.clone(), o.2.clone()))).count(), k.to_string())
        }).max();
        if let Some((h, k)) = best { if h > 0 && merge(&mut mods, &e, &k) { moved.push(format!("module {} read as part of {}", e, k)) } }
    }
    // functions that moved from one known module to another
    for (k, owner, name) in &old {
        if !owner.is_empty() || k == "main_rs" { continue }
        let key = (owner.clone(), name.clone());
        if mods.iter().any(|m| m.0 == *k && all(&m.1).contains(&key)) { continue }
        let at: Vec<String> = mods.iter().filter(|m| m.0 != *k && all(&m.1).contains(&key) && !old.iter().any(|o| o.0 == m.0 && o.1 == *owner && o.2 == *name)).map(|m| m.0.clone()).collect();
        if let [l] = &at[..] {
            let from = mods.iter_mut().find(|m| m.0 == *l).unwrap();
            let i = from.1.items.iter().position(|x| defines(x).contains(&key)).unwrap();
            let item = from.1.items.remove(i);
            let uses: Vec<Item> = from.1.items.iter().filter(|x| matches!(x, Item::Use(_))).cloned().collect();
            let (kk, ll, nn) = (id(k), id(l), id(name));
            let in_main = l == "main_rs";
            from.1.items.push(parse_quote!(use assembler::#kk::#nn;));
            // whoever imported it from its new place
            for (n, f) in mods.iter_mut() { if n != k { for it in f.items.iter_mut() { if let Item::Use(u) = it { let mut out = vec![]; crate::flatten(&u.tree, String::new(), &mut out); if out.len() == 1 && out[0].ends_with(&format!("{}::{}", l, name)) { *u = parse_quote!(use assembler::#kk::#nn;) } } } } }
            for (n, f) in mods.iter_mut() { for it in f.items.iter_mut() { if !matches!(it, Item::Use(_)) { if let Ok(x) = parse2::<Item>(one(it.to_token_stream(), l, name, if n == k { None } else { Some(k) })) { *it = x } } } }
            let to = mods.iter_mut().find(|m| m.0 == *k).unwrap();
            to.1.items.retain(|x| !matches!(x, Item::Use(u) if { let mut out = vec![]; crate::flatten(&u.tree, String::new(), &mut out); out.len() == 1 && out[0].ends_with(&format!("{}::{}", l, name)) }));
            let item = parse2::<Item>(paths(item.to_token_stream(), if k == "assembler" { "" } else { k }, None)).unwrap_or(item);
            let mut have: BTreeSet<String> = all(&to.1).into_iter().map(|x| x.1).collect();
            for x in &to.1.items { if let Item::Use(u) = x { let mut out = vec![]; crate::flatten(&u.tree, String::new(), &mut out); have.extend(out.iter().map(|p| leaf(p))) } }
            for u in uses { if let Item::Use(u) = u { let mut out = vec![]; crate::flatten(&u.tree, String::new(), &mut out); for p in out { if !have.contains(&leaf(&p)) || p.ends_with('*') { if let Ok(x) = parse_str::<Item>(&format!("use {};", p)) { to.1.items.push(x) } } } } }
            if !in_main { to.1.items.push(parse_quote!(use assembler::#ll::*;)); }
            to.1.items.push(item);
            moved.push(format!("function {}::{} is in {}", k, name, l));
        }
    }
    // dependency order, as the contracts were written
    mods.sort_by_key(|m| KNOWN.iter().position(|k| *k == m.0).unwrap_or(if m.0 == "main_rs" { 99 } else { 50 }));
    (mods, moved)
}
fn leaf(p: &str) -> String { p.rsplit("::").next().unwrap_or("").rsplit(" as ").next().unwrap_or("").trim().to_string() }
