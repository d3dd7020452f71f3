//! The mechanical rewrites (R1..R14 in DESIGN.md) from the repository's Rust to Verus' Rust.
use crate::contracts::{Contracts, FnSpec};
use crate::fmt::{self, Piece};
use crate::{printer, regexes, FnInfo};
use proc_macro2::{Span, TokenStream, TokenTree};
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::parse::Parser as _;
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::*;

type Res<T> = std::result::Result<T, String>;

/// `lazy_static! { static ref NAME: Ty = EXPR; ... }`
pub fn parse_lazy_static(ts: TokenStream) -> Vec<(String, Expr)> {
    let p = |input: parse::ParseStream| -> syn::Result<Vec<(String, Expr)>> {
        let mut v = vec![];
        while !input.is_empty() {
            let _ = input.call(Attribute::parse_outer)?;
            let _: Visibility = input.parse()?;
            input.parse::<Token![static]>()?;
            input.parse::<Token![ref]>()?;
            let n: Ident = input.parse()?;
            input.parse::<Token![:]>()?;
            let _: Type = input.parse()?;
            input.parse::<Token![=]>()?;
            let e: Expr = input.parse()?;
            input.parse::<Token![;]>()?;
            v.push((n.to_string(), e));
        }
        Ok(v)
    };
    p.parse2(ts).unwrap_or_default()
}

/// Iterator<Item=Token<'a>> bounds become TokenSource<'a>; attributes go.
pub fn fix_generics(g: &mut Generics) {
    let mut f = Retype;
    f.visit_generics_mut(g);
}

pub fn retype(ts: TokenStream) -> TokenStream {
    ts
}

struct Retype;
impl VisitMut for Retype {
    fn visit_type_param_bound_mut(&mut self, b: &mut TypeParamBound) {
        let s = b.to_token_stream().to_string().replace(' ', "");
        if s.starts_with("Iterator<Item=Token<'a>") { *b = parse_quote!(TokenSource<'a>); }
        else if s.starts_with("Fn(&str)") || s.starts_with("FnMut(&str)") { *b = parse_quote!(VLog); }
        else { visit_mut::visit_type_param_bound_mut(self, b) }
    }
    fn visit_type_mut(&mut self, t: &mut Type) {
        let s = t.to_token_stream().to_string().replace(' ', "");
        if s == "Self::Item" { *t = parse_quote!(Token<'a>); return; }
        match s.strip_prefix("std::").unwrap_or(&s) {
            "fmt::Result" => { *t = parse_quote!(Result<(), FmtError>); return; }
            "fmt::Formatter" | "fmt::Formatter<'_>" => { *t = parse_quote!(Formatter); return; }
            "&Fn(&str)" | "&dynFn(&str)" | "&Fn(&str)->()" | "&dynFn(&str)->()" => { *t = parse_quote!(&impl VLog); return; }
            "io::Error" => { *t = parse_quote!(IoError); return; }
            "io::Result<()>" => { *t = parse_quote!(Result<(), IoError>); return; }
            "io::Result<String>" => { *t = parse_quote!(Result<String, IoError>); return; }
            "io::Result<File>" => { *t = parse_quote!(Result<File, IoError>); return; }
            "io::Stdout" => { *t = parse_quote!(Stdout); return; }
            "Box<io::Write>" | "Box<dynio::Write>" | "Box<Write>" | "Box<dynWrite>" => { *t = parse_quote!(Sink); return; }
            _ => {}
        }
        visit_mut::visit_type_mut(self, t)
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind { Opt, Res }

#[derive(Clone)]
enum Adapter { Map(Expr), Inspect(Expr), Filter(Expr), Enumerate }

pub struct Lower<'s> {
    all: &'s BTreeMap<String, FnInfo>,
    spec: &'s Contracts,
    statics: BTreeMap<String, Expr>,
    module: String,
    self_ty: Option<String>,
    fname: String,
    fresh: usize,
    lazies: BTreeMap<String, Vec<Adapter>>,
    refcells: BTreeSet<String>,
    callables: BTreeSet<String>,
    closures: BTreeMap<String, ExprClosure>,
    binds: BTreeMap<String, usize>,
    muts: BTreeSet<String>,
    slices: BTreeSet<String>,
    kinds: BTreeMap<String, Kind>,
    pub lifted: Vec<String>,
    inline_depth: usize,
    want: Option<Type>,
    hand_regex: BTreeMap<String, String>,
    pub notes: Vec<String>,
    pub inlined: Vec<String>,
    pub calls: BTreeSet<String>,
    pub regexes: Vec<regexes::Generated>,
    pub loops: usize,
    pub rewrites: BTreeMap<String, usize>,
}

impl<'s> Lower<'s> {
    pub fn new(f: &FnInfo, all: &'s BTreeMap<String, FnInfo>, spec: &'s Contracts, statics: &BTreeMap<String, Expr>) -> Self {
        Lower { all, spec, statics: statics.clone(), module: f.module.clone(), self_ty: f.self_ty.clone(), fname: f.sig.ident.to_string(), fresh: 0, lazies: BTreeMap::new(), refcells: BTreeSet::new(), callables: BTreeSet::new(), closures: BTreeMap::new(), binds: BTreeMap::new(), muts: BTreeSet::new(), slices: BTreeSet::new(), kinds: BTreeMap::new(), lifted: vec![], inline_depth: 0, want: None,
            hand_regex: BTreeMap::new(), notes: vec![], inlined: vec![], calls: BTreeSet::new(), regexes: vec![], loops: 0, rewrites: BTreeMap::new() }
    }
    fn n(&mut self) -> usize { self.fresh += 1; self.fresh }
    fn rw(&mut self, r: &str) { *self.rewrites.entry(r.to_string()).or_insert(0) += 1; }

    fn canonical_params(&mut self, fs: &FnSpec, sig: &mut Signature, block: &mut Block) -> Res<()> {
        // canonical parameter names
        if let Some(ps) = &fs.params {
            let names: Vec<String> = sig.inputs.iter().filter_map(|a| match a { FnArg::Typed(t) => Some(quote!(#t).to_string().split([':', ' ']).next().unwrap().to_string()), _ => None }).collect();
            let actual: Vec<Option<String>> = sig.inputs.iter().filter_map(|a| match a { FnArg::Typed(t) => Some(match &*t.pat { Pat::Ident(p) => Some(p.ident.to_string()), _ => None }), _ => None }).collect();
            let _ = names;
            if actual.len() != ps.len() { return Err(format!("parameter list changed: expected ({})", ps.join(","))); }
            // in two steps, so that exchanged names do not meet
            let mut tmp = vec![];
            for (k, (a, p)) in actual.iter().zip(ps).enumerate() {
                if let Some(a) = a { if a != p { let t = format!("__q_{}", k); rename_block(block, a, &t); for i in sig.inputs.iter_mut() { if let FnArg::Typed(ty) = i { if let Pat::Ident(pi) = &mut *ty.pat { if pi.ident == a { pi.ident = Ident::new(&t, Span::call_site()) } } } } tmp.push(Some(t)); continue; } }
                tmp.push(a.clone());
            }
            let actual = tmp;
            let mut bound = Bound::default(); bound.visit_block(block);
            for p in ps { if bound.0.contains(p) && !actual.iter().any(|a| a.as_ref() == Some(p)) { let t = format!("__l_{}_{}", p, self.n()); rename_block(block, p, &t); } }
            for (a, p) in actual.iter().zip(ps) {
                match a {
                    Some(a) if a != p => { rename_block(block, a, p); for i in sig.inputs.iter_mut() { if let FnArg::Typed(t) = i { if let Pat::Ident(pi) = &mut *t.pat { if pi.ident == a { pi.ident = Ident::new(p, Span::call_site()) } } } } }
                    Some(_) => {}
                    None => return Err("parameter pattern not a name".into()),
                }
            }
        }
        if let Some(c) = sig.inputs.first_mut() { if let FnArg::Receiver(r) = c { r.attrs.clear() } }
        Ok(())
    }

    pub fn run(&mut self, f: &FnInfo, fs: &FnSpec) -> Res<String> {
        let (sig, text) = self.body(f, fs)?;
        Ok(self.assembled(f, fs, sig, &text))
    }

    /// The rewritten body, annotated, and the signature with canonical parameter names.
    pub fn body(&mut self, f: &FnInfo, fs: &FnSpec) -> Res<(Signature, String)> {
        self.hand_regex = fs.regex.clone();
        let mut sig = f.sig.clone();
        let mut block = f.block.clone();
        NormFmt.visit_block_mut(&mut block);
        let mut words = vec![];
        idents(block.to_token_stream(), &mut words);
        WhileNext { words: &words }.visit_block_mut(&mut block);
        self.canonical_params(fs, &mut sig, &mut block)?;
        self.note_params(&sig);
        // align let-bound names the annotations use
        if !fs.lets.is_empty() {
            let mut have = LetNames::default();
            have.visit_block(&block);
            let have = have.0;
            if !fs.lets.iter().all(|l| have.contains(l)) {
                if have.len() == fs.lets.len() {
                    for (h, l) in have.iter().zip(&fs.lets) { if h != l && !have.contains(l) { rename_block(&mut block, h, l) } }
                } else {
                    // a local no annotation names is not missed
                    let notes: String = fs.loops.values().chain(fs.at.values()).cloned().collect::<Vec<_>>().join(" ");
                    let named = |l: &str| notes.split(|c: char| !(c.is_alphanumeric() || c == '_')).any(|w| w == l);
                    let miss: Vec<_> = fs.lets.iter().filter(|l| !have.contains(*l) && named(l)).cloned().collect();
                    let free: Vec<_> = have.iter().filter(|h| !fs.lets.contains(*h)).cloned().collect();
                    if miss.is_empty() {} else if miss.len() == 1 && free.len() == 1 { rename_block(&mut block, &free[0], &miss[0]) }
                    else { self.notes.push(format!("annotated locals not found: {}", miss.join(","))) }
                }
            }
        }
        if let Some(c) = sig.inputs.first_mut() { if let FnArg::Receiver(r) = c { r.attrs.clear() } }
        self.collect_calls(&block);
        let mut b = Binds::default(); b.visit_signature(&sig); b.visit_block(&block);
        self.binds = b.0; self.muts = b.1;
        self.visit_block_mut(&mut block);
        Retype.visit_block_mut(&mut block);
        if self.has_residue(&block) { self.notes.push("a construct outside the extractor's reach remains".into()); }
        // number the loops
        let mut num = Number { k: 0, kinds: vec![], at: &fs.at, entry: vec![] };
        num.visit_block_mut(&mut block);
        self.loops = num.k;
        let kinds = num.kinds.clone();
        let declared = fs.loops.len();
        if declared != self.loops { self.notes.push(format!("loop anchors lost: {} loops in the code, {} under contract", self.loops, declared)); }
        if fs.at.contains_key("tail") { wrap_tail(&mut block); }
        let mut lits = Lits::default();
        lits.visit_block(&block);
        let body = printer::print(block.to_token_stream());
        let mut text = self.replace(body, fs, &kinds, &lits.0)?;
        // strip outer braces to add the entry hint
        if let Some(h) = fs.at.get("entry") {
            let i = text.find('{').unwrap();
            text.insert_str(i + 1, &format!("\n{}\n", h));
        }
        Ok((sig, text))
    }

    /// The contract without the body, for a function that is not proved in this run.
    pub fn assumed(&mut self, f: &FnInfo, fs: &FnSpec) -> Res<String> {
        let mut sig = f.sig.clone();
        let mut block = f.block.clone();
        self.canonical_params(fs, &mut sig, &mut block)?;
        let mut fs = fs.clone();
        fs.attrs = "#[verifier::external_body]\n".into();
        self.loops = 0;
        Ok(self.assembled(f, &fs, sig, "{ unimplemented!() }\n"))
    }

    fn assembled(&mut self, f: &FnInfo, fs: &FnSpec, mut sig: Signature, text: &str) -> String {
        // signature
        Retype.visit_signature_mut(&mut sig);
        for i in sig.inputs.iter_mut() { if let FnArg::Typed(t) = i { t.attrs.clear() } }
        let shown = f.trait_name.as_deref() == Some("Display");
        let inherent = f.trait_name.is_none() || f.trait_name.as_deref() == Some("Error");
        let ident = if shown { "v_fmt".to_string() } else if f.key == "main_rs::main" { "main_entry".into() } else { rename_method(&sig.ident.to_string()) };
        if f.module == "main_rs" { sig.inputs.insert(0, parse_quote!(__w: &mut World)); }
        let gens = &sig.generics;
        let (ig, _, wc) = gens.split_for_impl();
        let inputs = &sig.inputs;
        let ret = match &sig.output { ReturnType::Default => String::new(), ReturnType::Type(_, t) => format!("-> (r: {})", quote!(#t)) };
        let mut s = String::new();
        let vis = if inherent { "pub " } else { "" };
        let fnhead = format!("{}fn {}{}({}) {} {}\n", vis, ident, ig.to_token_stream(), quote!(#inputs), ret, wc.to_token_stream());
        match (&f.impl_self, inherent) {
            (Some(st), true) => {
                let mut g = f.impl_generics.clone().unwrap();
                Retype.visit_generics_mut(&mut g);
                let (ig, _, wc) = g.split_for_impl();
                s.push_str(&format!("impl{} {} {} {{\n", ig.to_token_stream(), quote!(#st), wc.to_token_stream()));
            }
            (Some(_), false) => { s.push_str(fs.header.as_deref().unwrap_or("compile_error!(\"no header\");")); s.push('\n'); }
            _ => {}
        }
        s.push_str(&format!("//@BEGIN {}\n", f.key));
        if self.loops > 0 && !fs.attrs.contains("loop_isolation") { s.push_str("#[verifier::loop_isolation(false)]\n"); }
        s.push_str(&fs.attrs);
        s.push_str(&fnhead);
        s.push_str(&fs.sig);
        s.push_str("//@BODY\n");
        s.push_str(text);
        s.push_str(&format!("//@END {}\n", f.key));
        if f.impl_self.is_some() { s.push_str("}\n"); }
        s
    }

    fn replace(&mut self, body: String, fs: &FnSpec, kinds: &[LoopKind], lits: &BTreeSet<String>) -> Res<String> {
        let mut out = String::new();
        let lines: Vec<&str> = body.lines().collect();
        for l in lines {
            let t = l.trim();
            if let Some(r) = t.strip_prefix("__loopspec ! (") {
                let k: usize = r.trim_end_matches([';', ')', ' ']).trim().parse().map_err(|_| format!("loopspec {}", t))?;
                // previous output ends with "{": move the specification in front of it
                while out.ends_with(['\n', ' ']) { out.pop(); }
                if !out.ends_with('{') { return Err("loop head layout".into()); }
                out.pop();
                out.push('\n');
                let mut sp = fs.loops.get(&k).cloned().unwrap_or_default();
                match &kinds[k] {
                    LoopKind::Cursor(id) => {
                        let it = format!("__cur_{}", id); let sq = format!("__seq_{}", id);
                        if !sp.contains("invariant") { sp.push_str("invariant\n") }
                        let auto = format!("invariant\n  {it}.wf(), {it}.rem().len() <= {sq}.len(), {it}.rem() =~= {sq}.skip({sq}.len() - {it}.rem().len()),\n");
                        sp = sp.replacen("invariant\n", &auto, 1);
                        if !sp.contains("decreases") { sp.push_str(&format!("\ndecreases {it}.rem().len(),\n")); }
                        sp = sp.replace("$pos", &format!("({sq}.len() - {it}.rem().len())")).replace("$it", &it).replace("$seq", &sq).replace("$acc", &format!("__acc_{}", id)).replace("$id", &id.to_string());
                    }
                    LoopKind::Plain => if sp.contains("$it") || sp.contains("$seq") || sp.contains("$pos") { self.notes.push(format!("loop {} is no longer an iterator loop", k)); return Err("loop kind changed".into()) }
                }
                out.push_str(&sp);
                out.push_str("{\n");
                if let LoopKind::Cursor(id) = &kinds[k] { out.push_str(&format!("proof {{ assert(__cur_{id}.rem()[0] == __seq_{id}[__seq_{id}.len() - __cur_{id}.rem().len()]); }}\n")); }
                continue;
            }
            if let Some(r) = t.strip_prefix("__hint ! (") {
                let k = r.trim_end_matches([';', ')', ' ']).trim().trim_matches('"').to_string();
                let mut h = fs.at.get(&k).cloned().unwrap_or_default();
                if let Some(n) = k.split(' ').nth(1).and_then(|x| x.parse::<usize>().ok()) {
                    if let Some(LoopKind::Cursor(id)) = kinds.get(n) {
                        let it = format!("__cur_{}", id); let sq = format!("__seq_{}", id);
                        h = h.replace("$pos", &format!("({sq}.len() - {it}.rem().len())")).replace("$it", &it).replace("$seq", &sq).replace("$acc", &format!("__acc_{}", id)).replace("$id", &id.to_string());
                    }
                }
                out.push_str(&h);
                continue;
            }
            if let Some(r) = t.strip_prefix("__ghost_seq ! (") {
                let v: Vec<&str> = r.trim_end_matches([';', ')', ' ']).split(',').map(|x| x.trim()).collect();
                out.push_str(&format!("let ghost {} = {}.rem();\n", v[0], v[1]));
                continue;
            }
            out.push_str(l);
            out.push('\n');
        }
        if out.contains("__loopspec") || out.contains("__hint !") || out.contains("__ghost_seq !") { return Err("placeholder left in output".into()); }
        // string literals of the body: their characters
        if !lits.is_empty() {
            let mut h = String::from("\nproof {\n");
            for l in lits { h.push_str(&format!("reveal_strlit({});\n", l)); }
            h.push_str("}\n");
            let i = out.find('{').unwrap();
            out.insert_str(i + 1, &h);
        }
        Ok(out)
    }

    fn has_residue(&self, b: &Block) -> bool {
        struct V(bool);
        impl<'ast> Visit<'ast> for V {
            fn visit_macro(&mut self, m: &'ast Macro) {
                let n = m.path.segments.last().unwrap().ident.to_string();
                if !n.starts_with("__") { self.0 = true; }
            }
        }
        let mut v = V(false);
        v.visit_block(b);
        v.0
    }

    fn collect_calls(&mut self, b: &Block) {
        struct V<'x>(Vec<(Option<String>, String, bool)>, &'x Option<String>);
        impl<'ast, 'x> Visit<'ast> for V<'x> {
            fn visit_expr_call(&mut self, c: &'ast ExprCall) {
                if let Expr::Path(p) = &*c.func {
                    let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    let name = segs.last().unwrap().clone();
                    let q = if segs.len() > 1 { Some(segs[segs.len() - 2].clone()) } else { None };
                    let q = match q.as_deref() { Some("Self") => self.1.clone(), _ => q };
                    self.0.push((q, name, false));
                }
                visit::visit_expr_call(self, c)
            }
            fn visit_expr_method_call(&mut self, c: &'ast ExprMethodCall) {
                let q = match &*c.receiver { Expr::Path(p) if p.path.is_ident("self") => self.1.clone(), _ => None };
                // a std method on something that is neither self nor a field of it is not a call of ours
                let own = q.is_some() || matches!(&*c.receiver, Expr::Field(_)) || !is_std_method(&c.method.to_string());
                if own { self.0.push((q, c.method.to_string(), true)); }
                visit::visit_expr_method_call(self, c)
            }
            fn visit_macro(&mut self, m: &'ast Macro) {
                if let Ok(e) = syn::parse2::<Expr>(m.tokens.clone()) { self.visit_expr(&e_leak(e)); }
                else if let Ok(es) = punctuated::Punctuated::<Expr, Token![,]>::parse_terminated.parse2(m.tokens.clone()) { for e in es { self.visit_expr(&e_leak(e)); } }
            }
        }
        fn e_leak(e: Expr) -> &'static Expr { Box::leak(Box::new(e)) }
        let st = self.self_ty.clone();
        let mut v = V(vec![], &st);
        v.visit_block(b);
        for (q, name, method) in v.0 {
            for (k, f) in self.all {
                if f.sig.ident != name { continue; }
                let ok = match (&q, &f.self_ty) {
                    (Some(q), Some(t)) => q == t,
                    (Some(q), None) => *q == f.module || q == "super" || q == "self",
                    (None, Some(_)) => method && rename_method(&name) == name,
                    (None, None) => !method,
                };
                if ok { self.calls.insert(k.clone()); }
            }
        }
    }

    // ---- inlining of functions without a contract -------------------------------------------
    fn find_uncontracted(&self, q: Option<&str>, name: &str, method: bool) -> Option<FnInfo> {
        let mut c: Vec<&FnInfo> = vec![];
        for (k, f) in self.all {
            if f.sig.ident != name || self.spec.fns.contains_key(k) { continue; }
            let is_m = f.sig.inputs.iter().any(|a| matches!(a, FnArg::Receiver(_)));
            if method && !is_m { continue; }
            let ok = match (q, &f.self_ty) {
                (Some(q), Some(t)) => q == t || q == "Self" && Some(t) == self.self_ty.as_ref(),
                (Some(q), None) => q == f.module || q == "self" || q == "super",
                (None, None) => f.module == self.module,
                (None, Some(_)) => method,
            };
            if ok { c.push(f) }
        }
        if c.len() == 1 { Some(c[0].clone()) } else { None }
    }

    fn inline(&mut self, f: &FnInfo, recv: Option<Expr>, args: Vec<Expr>) -> Option<Expr> {
        if self.inline_depth > 6 { self.notes.push(format!("inlining too deep at {}", f.key)); return None; }
        let mut body = f.block.clone();
        NormFmt.visit_block_mut(&mut body);
        let mut lets: Vec<Stmt> = vec![];
        // hygiene: parameters get fresh names, and so does every local that is also a name of the caller's arguments
        let mut danger: BTreeSet<String> = BTreeSet::new();
        for e in args.iter().chain(recv.iter()) {
            let mut v = Idents::default(); v.visit_expr(e);
            for i in &v.0 { if let Some(c) = self.closures.get(i) { danger.extend(free_names(c)); } }
            danger.extend(v.0);
        }
        let mut fresh: BTreeMap<String, String> = BTreeMap::new();
        for p in f.sig.inputs.iter() {
            if let FnArg::Typed(t) = p { if let Pat::Ident(p) = &*t.pat { let n = p.ident.to_string(); let id = format!("__p_{}_{}", n, self.n()); rename_block(&mut body, &n, &id); fresh.insert(n, id); } }
        }
        let mut bound = Bound::default(); bound.visit_block(&body);
        for n in bound.0 { if danger.contains(&n) && n.starts_with(|c: char| c.is_lowercase() || c == '_') { let id = format!("__l_{}_{}", n, self.n()); rename_block(&mut body, &n, &id); } }
        let mut ai = args.into_iter();
        for p in f.sig.inputs.iter() {
            match p {
                FnArg::Receiver(r) => {
                    let rc = recv.clone().or_else(|| ai.next());
                    let rc = match rc { Some(r) => r, None => return None };
                    let plain = matches!(&rc, Expr::Path(p) if p.path.is_ident("self"));
                    if !plain {
                        if r.reference.is_some() && is_place(&rc) { subst(&mut body, "self", &rc, true); }
                        else {
                            let id = format_ident!("__self_{}", self.n());
                            lets.push(parse_quote!(let #id = #rc;));
                            let e: Expr = parse_quote!(#id);
                            subst(&mut body, "self", &e, false);
                        }
                    }
                }
                FnArg::Typed(t) => {
                    let a = ai.next()?;
                    let name = match &*t.pat { Pat::Ident(p) => p.ident.to_string(), Pat::Wild(_) => continue, _ => return None };
                    let id = fresh[&name].clone();
                    if fn_params(&f.sig).contains(&name) {
                        let inner = match &a { Expr::Reference(r) => (*r.expr).clone(), x => x.clone() };
                        let known = match &inner { Expr::Closure(c) => Some(c.clone()), Expr::Path(p) => p.path.get_ident().and_then(|i| self.closures.get(&i.to_string()).cloned()), _ => None };
                        match known { Some(c) => { self.closures.insert(id.clone(), c); } None => { self.callables.insert(id.clone()); let i = Ident::new(&id, Span::call_site()); lets.push(parse_quote!(let #i = #a;)); } }
                        continue;
                    }
                    match &a {
                        Expr::Reference(r) if r.mutability.is_some() && is_place(&r.expr) => {
                            // `&mut *boxed` as a writer: the box itself is the sink here
                            let writer = t.ty.to_token_stream().to_string().contains("Write");
                            let place = match &*r.expr { Expr::Unary(u) if writer && self.module == "main_rs" => (*u.expr).clone(), x => x.clone() };
                            subst(&mut body, &id, &place, true);
                        }
                        _ => {
                            let id = Ident::new(&id, Span::call_site());
                            let ty = &t.ty;
                            let is_text = { let s = ty.to_token_stream().to_string().replace(' ', ""); s == "&str" || s.starts_with("&'") && s.ends_with("str") };
                            let done = matches!(&a, Expr::Lit(_)) || matches!(&a, Expr::MethodCall(m) if m.method == "v_as_str");
                            let held = match &a { Expr::Reference(r) => is_place(&r.expr), x => is_place(x) };
                            let a: Expr = if is_text && !done && held && self.module == "main_rs" { parse_quote!((#a).v_as_str()) } else { a.clone() };
                            let mutp = matches!(&*t.pat, Pat::Ident(p) if p.mutability.is_some());
                            let simple = !ty.to_token_stream().to_string().contains('\'') && !matches!(&**ty, Type::ImplTrait(_)) && f.sig.generics.type_params().next().is_none();
                            lets.push(match (mutp, simple) { (true, true) => parse_quote!(let mut #id : #ty = #a;), (true, false) => parse_quote!(let mut #id = #a;), (false, true) => parse_quote!(let #id : #ty = #a;), _ => parse_quote!(let #id = #a;) });
                        }
                    }
                }
            }
        }
        // macros that return early must be visible to the return elimination
        ExpandTry.visit_block_mut(&mut body);
        let body = match elim_returns(body.stmts) { Ok(b) => b, Err(e) => { self.notes.push(format!("cannot inline {}: {}", f.key, e)); return None; } };
        self.inlined.push(f.key.clone());
        self.rw("R14 inline uncontracted helper");
        let mut st = lets;
        st.extend(body);
        let mut blk = Block { brace_token: Default::default(), stmts: st };
        // give the block its declared type where it is a plain type
        self.inline_depth += 1;
        let saved = (self.module.clone(), self.self_ty.clone());
        self.module = f.module.clone();
        if f.self_ty.is_some() { self.self_ty = f.self_ty.clone(); }
        self.visit_block_mut(&mut blk);
        self.module = saved.0; self.self_ty = saved.1;
        self.inline_depth -= 1;
        Some(parse_quote!(#blk))
    }

    // ---- iterator chains ---------------------------------------------------------------------
    fn is_iter(&self, e: &Expr) -> bool {
        match e {
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                if matches!(n.as_str(), "v_iter" | "v_chars" | "v_chunks" | "v_into" | "v_bytes" | "v_skip" | "v_take" | "v_rev") { return true; }
                matches!(n.as_str(), "map" | "inspect" | "filter" | "enumerate" | "peekable") && self.is_iter(&m.receiver)
            }
            Expr::Paren(p) => self.is_iter(&p.expr),
            Expr::Range(_) => true,
            Expr::Path(p) => p.path.get_ident().map(|i| self.lazies.contains_key(&i.to_string())).unwrap_or(false),
            _ => false,
        }
    }
    fn flatten(&self, e: &Expr) -> (Expr, Vec<Adapter>) {
        match e {
            Expr::Paren(p) => self.flatten(&p.expr),
            Expr::Range(r) => {
                let a = r.start.clone(); let b = r.end.clone();
                let f = if matches!(r.limits, RangeLimits::Closed(_)) { format_ident!("v_range_incl") } else { format_ident!("v_range") };
                (parse_quote!(#f(#a, #b)), vec![])
            }
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                let ad = match n.as_str() { "map" => Some(Adapter::Map(m.args[0].clone())), "inspect" => Some(Adapter::Inspect(m.args[0].clone())), "filter" => Some(Adapter::Filter(m.args[0].clone())), "enumerate" => Some(Adapter::Enumerate), _ => None };
                if n == "peekable" { return self.flatten(&m.receiver); }
                if let Some(ad) = ad { let (b, mut v) = self.flatten(&m.receiver); v.push(ad); (b, v) } else { (e.clone(), vec![]) }
            }
            Expr::Path(p) => match p.path.get_ident().and_then(|i| self.lazies.get(&i.to_string())) { Some(v) => (e.clone(), v.clone()), None => (e.clone(), vec![]) },
            _ => (e.clone(), vec![]),
        }
    }
    fn apply(&mut self, f: &Expr, arg: Expr) -> Expr {
        match f {
            Expr::Closure(c) => {
                let body = &c.body;
                let mut it = c.inputs.iter();
                match it.next() {
                    None => parse_quote!({ #body }),
                    Some(p) => { let st = let_pat(p.clone(), arg); parse_quote!({ #(#st)* #body }) }
                }
            }
            Expr::Path(_) => parse_quote!(#f(#arg)),
            _ => { self.notes.push("combinator argument is not a closure".into()); parse_quote!(#f(#arg)) }
        }
    }
    /// statements running the adapters on `x`, and the name of the final value
    fn adapters(&mut self, ads: &[Adapter], first: Ident, out: &mut Vec<Stmt>, cur: &Ident) -> Ident {
        let mut x = first;
        for a in ads {
            match a {
                Adapter::Map(f) => { let y = format_ident!("__x_{}", self.n()); let e = self.apply(f, parse_quote!(#x)); out.push(parse_quote!(let #y = #e;)); x = y; }
                Adapter::Inspect(f) => {
                    let e = match f { Expr::Closure(c) => match c.inputs.first() { Some(Pat::Reference(r)) => { let p = (*r.pat).clone(); let b = &c.body; let st = let_pat(p, parse_quote!(#x)); parse_quote!({ #(#st)* #b }) } _ => self.apply(f, parse_quote!(&#x)) }, _ => self.apply(f, parse_quote!(&#x)) };
                    out.push(Stmt::Expr(e, Some(Default::default())));
                }
                Adapter::Filter(f) => { let e = self.apply(f, parse_quote!(&#x)); out.push(parse_quote!(if !#e { continue; })); }
                Adapter::Enumerate => { let y = format_ident!("__x_{}", self.n()); out.push(parse_quote!(let #y = (#cur.taken() - 1, #x);)); x = y; }
            }
        }
        x
    }
    fn loop_over(&mut self, src: &Expr, pre: Vec<Stmt>, body: impl FnOnce(&mut Self, Ident) -> Vec<Stmt>, fin: Option<Expr>, id: usize) -> Expr {
        let (base, ads) = self.flatten(src);
        let cur = format_ident!("__cur_{}", id);
        let seq = format_ident!("__seq_{}", id);
        let known = matches!(&base, Expr::MethodCall(m) if matches!(m.method.to_string().as_str(), "v_iter"|"v_chars"|"v_chunks"|"v_into"|"v_bytes"|"v_skip"|"v_take"|"v_rev")) || matches!(&base, Expr::Call(c) if quote!(#c).to_string().starts_with("v_range"));
        let is_var = matches!(&base, Expr::Path(p) if p.path.get_ident().map(|i| self.lazies.contains_key(&i.to_string())).unwrap_or(false));
        let base: Expr = if known || is_var { base } else { parse_quote!((#base).v_into()) };
        let x0 = format_ident!("__x_{}", self.n());
        let mut st: Vec<Stmt> = vec![parse_quote!(let #x0 = #cur.take_next();)];
        let x = self.adapters(&ads, x0, &mut st, &cur);
        st.extend(body(self, x));
        parse_quote!({ #(#pre)* let mut #cur = #base; __ghost_seq!(#seq, #cur); while #cur.has_next() { #(#st)* } #fin })
    }
}

fn is_place(e: &Expr) -> bool {
    match e { Expr::Path(_) => true, Expr::Field(f) => is_place(&f.base), Expr::Paren(p) => is_place(&p.expr), Expr::Unary(u) => matches!(u.op, UnOp::Deref(_)) && is_place(&u.expr), _ => false }
}

/// `let PAT = E;` with `&` patterns turned into derefs
fn let_pat(p: Pat, e: Expr) -> Vec<Stmt> {
    let p = match p { Pat::Type(t) => *t.pat, p => p };
    match p {
        Pat::Reference(r) => { let q = *r.pat; let_pat(q, parse_quote!(*#e)) }
        Pat::Ident(i) if i.by_ref.is_some() && i.mutability.is_none() && i.subpat.is_none() => { let n = i.ident; vec![parse_quote!(let #n = &#e;)] }
        p => {
            let (q, d) = strip(p);
            let mut v: Vec<Stmt> = vec![parse_quote!(let #q = #e;)];
            for i in d { v.push(parse_quote!(let #i = *#i;)); }
            v
        }
    }
}

/// Remove `&` (and `ref` below it) from a pattern; returns the by-value names bound below a `&`.
fn strip(mut p: Pat) -> (Pat, Vec<Ident>) {
    fn go(p: &mut Pat, under: bool, d: &mut Vec<Ident>) {
        match p {
            Pat::Reference(r) => { let mut q = (*r.pat).clone(); go(&mut q, true, d); *p = q; }
            Pat::Ident(i) => {
                if matches!(&i.subpat, Some((_, s)) if matches!(&**s, Pat::Wild(_))) { i.subpat = None; }
                if let Some((_, s)) = &mut i.subpat { go(s, under, d) }
                let upper = i.ident.to_string().chars().next().unwrap().is_uppercase();
                if under && !upper { if i.by_ref.is_some() { i.by_ref = None; } else { d.push(i.ident.clone()) } }
            }
            Pat::Tuple(t) => for q in t.elems.iter_mut() { go(q, under, d) },
            Pat::TupleStruct(t) => for q in t.elems.iter_mut() { go(q, under, d) },
            Pat::Struct(t) => for q in t.fields.iter_mut() { go(&mut q.pat, under, d) },
            Pat::Or(t) => { for (n, q) in t.cases.iter_mut().enumerate() { let mut dd = vec![]; go(q, under, &mut dd); if n == 0 { d.extend(dd) } } }
            Pat::Paren(t) => go(&mut t.pat, under, d),
            Pat::Slice(t) => for q in t.elems.iter_mut() { go(q, under, d) },
            _ => {}
        }
    }
    let mut d = vec![];
    go(&mut p, false, &mut d);
    (p, d)
}

/// A search in a text: the pattern is a character or a text, not a predicate.
fn text_search(n: &str, args: &syn::punctuated::Punctuated<Expr, Token![,]>) -> bool {
    let lit = |e: &Expr| matches!(e, Expr::Lit(l) if matches!(l.lit, Lit::Str(_) | Lit::Char(_)));
    let plain = |e: &Expr| lit(e) || matches!(e, Expr::Path(p) if p.path.segments.len() == 1);
    match n {
        "trim_start" | "trim_end" | "trim_left" | "trim_right" => args.is_empty(),
        "trim_left_matches" | "trim_right_matches" | "trim_start_matches" | "trim_end_matches" | "strip_prefix" | "strip_suffix" | "rfind" => args.len() == 1 && plain(&args[0]),
        "trim_matches" => args.len() == 1 && matches!(&args[0], Expr::Lit(l) if matches!(l.lit, Lit::Char(_))),
        "contains" | "find" => args.len() == 1 && lit(&args[0]),
        "replace" => args.len() == 2 && lit(&args[0]),
        _ => false,
    }
}
pub fn rename_method(n: &str) -> String {
    match n {
        "len" | "is_empty" | "extend" | "unwrap" | "expect" | "to_lowercase" | "to_uppercase" | "to_ascii_lowercase" | "to_ascii_uppercase" | "eq_ignore_ascii_case" | "starts_with" | "ends_with" | "chars" | "len_utf8" | "as_bytes" | "iter" | "chunks" | "to_string" | "join" | "write_str" | "write_all" | "read_to_string" | "bytes" | "is_ascii_digit" | "is_ascii_hexdigit" | "is_ascii_alphabetic" | "is_ascii_alphanumeric" | "is_ascii" | "is_ascii_uppercase" | "is_ascii_lowercase" | "is_ascii_whitespace" | "is_ascii_punctuation" | "is_ascii_control" | "is_ascii_graphic" | "is_control" | "is_alphabetic" | "is_alphanumeric" | "is_numeric" | "is_digit" | "is_whitespace" | "to_vec" | "trim" | "is_char_boundary" | "min" | "max" | "cloned" | "copied" | "to_digit" | "unwrap_or_default" | "into_bytes" | "extend_from_slice" => if n == "expect" { "v_unwrap".into() } else { format!("v_{}", n) },
        "into_iter" => "v_into".into(),
        _ => n.to_string(),
    }
}

struct NormFmt;
impl VisitMut for NormFmt { fn visit_macro_mut(&mut self, m: &mut Macro) { fmt::normalise(m) } }

fn idents(t: TokenStream, o: &mut Vec<String>) {
    for x in t { match x { TokenTree::Ident(i) => o.push(i.to_string()), TokenTree::Group(g) => idents(g.stream(), o), _ => {} } }
}
/// `while let Some(p) = it.next() { .. }` over an iterator that is used nowhere else is `for p in it { .. }`.
struct WhileNext<'x> { words: &'x [String] }
impl<'x> VisitMut for WhileNext<'x> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let new: Option<Expr> = if let Expr::While(w) = e { if let Expr::Let(l) = &*w.cond { match (&*l.pat, &*l.expr) {
            (Pat::TupleStruct(t), Expr::MethodCall(m)) if t.path.is_ident("Some") && t.elems.len() == 1 && m.method == "next" && m.args.is_empty() => match &*m.receiver {
                Expr::Path(p) if p.path.get_ident().map(|i| self.words.iter().filter(|w| i == w.as_str()).count() == 2).unwrap_or(false) => {
                    let (pat, it, body, label) = (&t.elems[0], &m.receiver, &w.body, &w.label);
                    Some(parse_quote!(#label for #pat in #it #body))
                }
                _ => None,
            },
            _ => None,
        } } else { None } } else { None };
        if let Some(n) = new { *e = n }
    }
}

struct ExpandTry;
impl VisitMut for ExpandTry {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Macro(m) = e {
            if m.mac.path.segments.last().unwrap().ident == "r#try" || m.mac.path.segments.last().unwrap().ident == "try" {
                if let Ok(inner) = syn::parse2::<Expr>(m.mac.tokens.clone()) { *e = try_expr(inner); }
            }
        }
        if let Expr::Try(t) = e { let inner = (*t.expr).clone(); *e = try_expr(inner); }
        visit_mut::visit_expr_mut(self, e)
    }
}
fn try_expr(inner: Expr) -> Expr { parse_quote!(match #inner { Ok(__ok) => __ok, Err(__err) => return Err(__err), }) }

// ---- alpha renaming / substitution -----------------------------------------------------------
struct Rename<'x> { from: &'x str, to: Ident }
impl<'x> VisitMut for Rename<'x> {
    fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) { if p.ident == self.from { p.ident = self.to.clone() } visit_mut::visit_pat_ident_mut(self, p) }
    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) { if p.path.is_ident(self.from) { let i = self.to.clone(); p.path = parse_quote!(#i) } }
    fn visit_field_value_mut(&mut self, f: &mut FieldValue) {
        if f.colon_token.is_none() { if let Expr::Path(p) = &f.expr { if p.path.is_ident(self.from) { f.colon_token = Some(Default::default()); } } }
        visit_mut::visit_field_value_mut(self, f)
    }
    fn visit_field_pat_mut(&mut self, f: &mut FieldPat) {
        if f.colon_token.is_none() { if let Pat::Ident(p) = &*f.pat { if p.ident == self.from { f.colon_token = Some(Default::default()); } } }
        visit_mut::visit_field_pat_mut(self, f)
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) { m.tokens = rename_tokens(m.tokens.clone(), self.from, &self.to); }
}
fn rename_tokens(ts: TokenStream, from: &str, to: &Ident) -> TokenStream {
    let mut prev_dot = false;
    ts.into_iter().map(|t| {
        let r = match t {
            TokenTree::Ident(i) if i == from && !prev_dot => TokenTree::Ident(to.clone()),
            TokenTree::Group(g) => { let mut n = proc_macro2::Group::new(g.delimiter(), rename_tokens(g.stream(), from, to)); n.set_span(g.span()); TokenTree::Group(n) }
            t => t,
        };
        prev_dot = matches!(&r, TokenTree::Punct(p) if p.as_char() == '.');
        r
    }).collect()
}
fn rename_block(b: &mut Block, from: &str, to: &str) { Rename { from, to: Ident::new(to, Span::call_site()) }.visit_block_mut(b) }

struct Subst<'x> { from: &'x str, to: &'x Expr, byref: bool }
impl<'x> VisitMut for Subst<'x> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Unary(u) = e { if matches!(u.op, UnOp::Deref(_)) { if let Expr::Path(p) = &*u.expr { if p.path.is_ident(self.from) && self.byref { *e = self.to.clone(); return; } } } }
        // autoref positions: receiver of a method call or a field access
        match e {
            Expr::MethodCall(m) => { if let Expr::Path(p) = &*m.receiver { if p.path.is_ident(self.from) { *m.receiver = self.to.clone(); for a in m.args.iter_mut() { self.visit_expr_mut(a) } return; } } }
            Expr::Field(f) => { if let Expr::Path(p) = &*f.base { if p.path.is_ident(self.from) { *f.base = self.to.clone(); return; } } }
            Expr::Index(f) => { if let Expr::Path(p) = &*f.expr { if p.path.is_ident(self.from) { *f.expr = self.to.clone(); self.visit_expr_mut(&mut f.index); return; } } }
            _ => {}
        }
        if let Expr::Path(p) = e { if p.path.is_ident(self.from) { let t = self.to; *e = if self.byref { if self.from == "self" { parse_quote!(#t) } else { parse_quote!(&mut #t) } } else { parse_quote!(#t) }; return; } }
        visit_mut::visit_expr_mut(self, e)
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        let p = punctuated::Punctuated::<Expr, Token![,]>::parse_terminated;
        if let Ok(mut es) = p.parse2(m.tokens.clone()) { for e in es.iter_mut() { self.visit_expr_mut(e) } m.tokens = es.to_token_stream(); }
    }
}
fn subst(b: &mut Block, from: &str, to: &Expr, byref: bool) { let p: Expr; let to = if matches!(to, Expr::Unary(_)) { p = parse_quote!((#to)); &p } else { to }; Subst { from, to, byref }.visit_block_mut(b) }

#[derive(Default)]
struct Bound(BTreeSet<String>);
impl<'ast> Visit<'ast> for Bound { fn visit_pat_ident(&mut self, p: &'ast PatIdent) { self.0.insert(p.ident.to_string()); visit::visit_pat_ident(self, p) } }
/// How often each name is bound.
#[derive(Default)]
struct Binds(BTreeMap<String, usize>, BTreeSet<String>);
impl<'ast> Visit<'ast> for Binds { fn visit_pat_ident(&mut self, p: &'ast PatIdent) { if p.mutability.is_some() { self.1.insert(p.ident.to_string()); } *self.0.entry(p.ident.to_string()).or_insert(0) += 1; visit::visit_pat_ident(self, p) } }
/// The plain names of an expression.
#[derive(Default)]
struct Idents(BTreeSet<String>);
impl<'ast> Visit<'ast> for Idents {
    fn visit_expr_path(&mut self, p: &'ast ExprPath) { if let Some(i) = p.path.get_ident() { self.0.insert(i.to_string()); } }
    fn visit_macro(&mut self, m: &'ast Macro) { fn go(t: proc_macro2::TokenStream, o: &mut BTreeSet<String>) { for x in t { match x { proc_macro2::TokenTree::Ident(i) => { o.insert(i.to_string()); } proc_macro2::TokenTree::Group(g) => go(g.stream(), o), _ => {} } } } go(m.tokens.clone(), &mut self.0) }
}

#[derive(Default)]
struct LetNames(Vec<String>);
impl<'ast> Visit<'ast> for LetNames {
    fn visit_local(&mut self, l: &'ast Local) {
        struct P<'y>(&'y mut Vec<String>);
        impl<'ast, 'y> Visit<'ast> for P<'y> { fn visit_pat_ident(&mut self, p: &'ast PatIdent) { self.0.push(p.ident.to_string()); visit::visit_pat_ident(self, p) } }
        P(&mut self.0).visit_pat(&l.pat);
        visit::visit_local(self, l)
    }
}

#[derive(Default)]
struct Lits(BTreeSet<String>);
impl<'ast> Visit<'ast> for Lits {
    fn visit_lit_str(&mut self, l: &'ast LitStr) { self.0.insert(l.to_token_stream().to_string()); }
    fn visit_macro(&mut self, _m: &'ast Macro) {}
}

// ---- return elimination (for inlining) ----------------------------------------------------------
fn has_return<T: Fn(&mut RetV)>(f: T) -> bool { let mut v = RetV(false); f(&mut v); v.0 }
struct RetV(bool);
impl<'ast> Visit<'ast> for RetV {
    fn visit_expr_return(&mut self, _: &'ast ExprReturn) { self.0 = true; }
    fn visit_expr_closure(&mut self, _: &'ast ExprClosure) {}
}
fn expr_returns(e: &Expr) -> bool { has_return(|v| v.visit_expr(e)) }
fn always_returns(e: &Expr) -> bool {
    match e {
        Expr::Return(_) => true,
        Expr::Block(b) => b.block.stmts.last().map(|s| match s { Stmt::Expr(e, _) => always_returns(e), _ => false }).unwrap_or(false),
        Expr::If(i) => i.else_branch.as_ref().map(|(_, e)| always_returns(e)).unwrap_or(false) && i.then_branch.stmts.last().map(|s| match s { Stmt::Expr(e, _) => always_returns(e), _ => false }).unwrap_or(false),
        Expr::Match(m) => m.arms.iter().all(|a| always_returns(&a.body)),
        _ => false,
    }
}
/// Statement list -> statement list ending in the function's value, without `return`.
fn elim_returns(stmts: Vec<Stmt>) -> Res<Vec<Stmt>> {
    let mut out = vec![];
    let mut it = stmts.into_iter();
    while let Some(s) = it.next() {
        match s {
            Stmt::Expr(Expr::Return(r), _) => {
                let e: Expr = r.expr.map(|e| *e).unwrap_or(parse_quote!(()));
                if expr_returns(&e) { let v = elim_expr(e, vec![])?; out.push(Stmt::Expr(v, None)); } else { out.push(Stmt::Expr(e, None)); }
                return Ok(out);
            }
            Stmt::Expr(e, semi) if expr_returns(&e) => {
                let mut rest: Vec<Stmt> = it.collect();
                if semi.is_some() && rest.is_empty() { rest.push(Stmt::Expr(parse_quote!(()), None)); }
                let v = elim_expr(e, rest)?;
                out.push(Stmt::Expr(v, None));
                return Ok(out);
            }
            Stmt::Local(l) if l.init.as_ref().map(|i| expr_returns(&i.expr)).unwrap_or(false) => {
                let rest: Vec<Stmt> = it.collect();
                let init = l.init.unwrap();
                if init.diverge.is_some() { return Err("let-else".into()); }
                let pat = l.pat;
                if leaves(&init.expr) > 1 && rest.len() > 12 { return Err("continuation duplicated".into()); }
                out.push(Stmt::Expr(elim_let(&pat, *init.expr, &rest)?, None));
                return Ok(out);
            }
            s => out.push(s),
        }
    }
    Ok(out)
}
/// The ways through an expression that do not return.
fn leaves(e: &Expr) -> usize {
    if always_returns(e) { return 0; }
    if !expr_returns(e) { return 1; }
    match e {
        Expr::Match(m) => m.arms.iter().map(|a| leaves(&a.body)).sum(),
        Expr::If(i) => (match i.then_branch.stmts.last() { Some(Stmt::Expr(e, None)) => leaves(e), _ => 1 }) + i.else_branch.as_ref().map(|(_, e)| leaves(e)).unwrap_or(1),
        Expr::Block(b) => match b.block.stmts.last() { Some(Stmt::Expr(e, None)) => leaves(e), _ => 1 },
        _ => 1,
    }
}
/// `let PAT = e; rest` where `e` may return: the rest goes into the branches that go on.
fn elim_let(pat: &Pat, e: Expr, rest: &[Stmt]) -> Res<Expr> {
    if always_returns(&e) { return elim_expr(e, vec![]); }
    if !expr_returns(&e) { let mut st: Vec<Stmt> = vec![parse_quote!(let #pat = #e;)]; st.extend(elim_returns(rest.to_vec())?); return Ok(parse_quote!({ #(#st)* })); }
    match e {
        Expr::Paren(p) => elim_let(pat, *p.expr, rest),
        Expr::Match(m) => {
            if expr_returns(&m.expr) { return Err("return inside a scrutinee".into()); }
            let mut arms = vec![];
            for mut a in m.arms { *a.body = elim_let(pat, (*a.body).clone(), rest)?; a.comma = Some(Default::default()); arms.push(a); }
            let sc = &m.expr;
            Ok(parse_quote!(match #sc { #(#arms)* }))
        }
        Expr::If(i) => {
            let c = &i.cond;
            if expr_returns(c) { return Err("return in a condition".into()); }
            let tb = i.then_branch;
            let t = elim_let(pat, parse_quote!(#tb), rest)?;
            let el = match i.else_branch { Some((_, e)) => elim_let(pat, *e, rest)?, None => return Err("return inside a let initializer".into()) };
            Ok(parse_quote!(if #c { #t } else { #el }))
        }
        Expr::Block(b) => {
            let mut st = b.block.stmts;
            match st.pop() {
                Some(Stmt::Expr(last, None)) => {
                    // names of the block stay visible in the rest: only where nothing is bound in it
                    if st.iter().any(|s| matches!(s, Stmt::Local(_))) { return Err("return inside a let block".into()); }
                    let l = elim_let(pat, last, rest)?;
                    if st.iter().any(|s| stmts_return(std::slice::from_ref(s)) || matches!(s, Stmt::Expr(e, _) if expr_returns(e))) { st.push(Stmt::Expr(l, None)); let v = elim_returns(st)?; return Ok(parse_quote!({ #(#v)* })); }
                    Ok(parse_quote!({ #(#st)* #l }))
                }
                _ => Err("return inside a let block".into()),
            }
        }
        _ => Err("return inside a let initializer".into()),
    }
}
fn elim_expr(e: Expr, rest: Vec<Stmt>) -> Res<Expr> {
    match e {
        Expr::Return(r) => { let e: Expr = r.expr.map(|e| *e).unwrap_or(parse_quote!(())); if expr_returns(&e) { elim_expr(e, vec![]) } else { Ok(e) } }
        Expr::Block(b) => { let mut s = b.block.stmts; s.extend(rest); let v = elim_returns(s)?; Ok(parse_quote!({ #(#v)* })) }
        Expr::If(i) => {
            let c = &i.cond;
            if expr_returns(c) { return Err("return in a condition".into()); }
            let mut t = i.then_branch.stmts; if !stmts_return(&t) { t.extend(rest.clone()); }
            let t = elim_returns(t)?;
            let el: Vec<Stmt> = match i.else_branch { None => elim_returns(rest)?, Some((_, e)) => vec![Stmt::Expr(elim_expr(*e, rest)?, None)] };
            Ok(parse_quote!(if #c { #(#t)* } else { #(#el)* }))
        }
        Expr::Match(m) => {
            if expr_returns(&m.expr) { return Err("return inside a scrutinee".into()); }
            let sc = &m.expr;
            let mut arms = vec![];
            for mut a in m.arms {
                let b = *a.body;
                let nb = if always_returns(&b) { elim_expr(b, vec![])? } else if rest.is_empty() { if expr_returns(&b) { elim_expr(b, vec![])? } else { b } } else {
                    let mut st: Vec<Stmt> = match b { Expr::Block(bb) => bb.block.stmts, b => vec![Stmt::Expr(b, Some(Default::default()))] };
                    st.extend(rest.clone());
                    let v = elim_returns(st)?;
                    parse_quote!({ #(#v)* })
                };
                *a.body = nb;
                a.body = a.body;
                a.comma = Some(Default::default());
                arms.push(a);
            }
            Ok(parse_quote!(match #sc { #(#arms)* }))
        }
        Expr::Call(mut c) if rest.is_empty() && c.args.len() == 1 => {
            // Ok(match ... { return })
            let a = c.args.pop().unwrap().into_value();
            match a {
                Expr::Match(m) => {
                    let f = &c.func; let sc = &m.expr; let mut arms = vec![];
                    for mut ar in m.arms { let b = *ar.body; *ar.body = if always_returns(&b) { elim_expr(b, vec![])? } else { parse_quote!(#f(#b)) }; ar.comma = Some(Default::default()); arms.push(ar); }
                    Ok(parse_quote!(match #sc { #(#arms)* }))
                }
                _ => Err("return inside a call".into()),
            }
        }
        e => if expr_returns(&e) { Err("return inside an expression or loop".into()) } else if rest.is_empty() { Ok(e) } else { let v = elim_returns(rest)?; Ok(parse_quote!({ #e; #(#v)* })) }
    }
}
fn stmts_return(s: &[Stmt]) -> bool { s.last().map(|s| match s { Stmt::Expr(e, _) => always_returns(e), _ => false }).unwrap_or(false) }

// ---- loop numbering -----------------------------------------------------------------------------
#[derive(Clone, Debug)]
pub enum LoopKind { Cursor(usize), Plain }
struct Number<'x> { k: usize, kinds: Vec<LoopKind>, at: &'x BTreeMap<String, String>, entry: Vec<()> }
impl<'x> Number<'x> {
    fn deco(&mut self, body: &mut Block, k: usize) {
        let mut st: Vec<Stmt> = vec![];
        let lit = LitInt::new(&k.to_string(), Span::call_site());
        st.push(parse_quote!(__loopspec!(#lit);));
        let s = format!("loopstart {}", k);
        if self.at.contains_key(&s) { st.push(parse_quote!(__hint!(#s);)); }
        st.append(&mut body.stmts);
        let s = format!("loopend {}", k);
        if self.at.contains_key(&s) {
            // statement position: the last expression statement gets a semicolon
            if let Some(Stmt::Expr(_, semi)) = st.last_mut() { if semi.is_none() { *semi = Some(Default::default()); } }
            st.push(parse_quote!(__hint!(#s);));
        }
        body.stmts = st;
    }
    fn after(&self, k: usize) -> Option<Stmt> { let s = format!("afterloop {}", k); if self.at.contains_key(&s) { Some(parse_quote!(__hint!(#s);)) } else { None } }
}
impl<'x> VisitMut for Number<'x> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let stmts = std::mem::take(&mut b.stmts);
        for mut s in stmts {
            let is_loop = matches!(&s, Stmt::Expr(Expr::While(_), _) | Stmt::Expr(Expr::Loop(_), _));
            let k0 = self.k;
            // "beforeloop": hints placed in front of the k-th loop
            self.visit_stmt_mut(&mut s);
            if is_loop { let k = format!("beforeloop {}", k0); if self.at.contains_key(&k) { b.stmts.push(parse_quote!(__hint!(#k);)); } }
            b.stmts.push(s);
            if is_loop { if let Some(h) = self.after(k0) { b.stmts.push(h) } }
        }
        let _ = &self.entry;
    }
    fn visit_expr_while_mut(&mut self, w: &mut ExprWhile) {
        let k = self.k; self.k += 1;
        let c = w.cond.to_token_stream().to_string().replace(' ', "");
        let kind = c.strip_prefix("__cur_").and_then(|r| r.strip_suffix(".has_next()")).and_then(|r| r.parse().ok()).map(LoopKind::Cursor).unwrap_or(LoopKind::Plain);
        self.kinds.push(kind);
        self.visit_expr_mut(&mut w.cond);
        self.visit_block_mut(&mut w.body);
        self.deco(&mut w.body, k);
    }
    fn visit_expr_loop_mut(&mut self, w: &mut ExprLoop) {
        let k = self.k; self.k += 1;
        self.kinds.push(LoopKind::Plain);
        self.visit_block_mut(&mut w.body);
        self.deco(&mut w.body, k);
    }
}

fn wrap_tail(b: &mut Block) {
    if let Some(Stmt::Expr(_, None)) = b.stmts.last() {
        if let Some(Stmt::Expr(e, None)) = b.stmts.pop() {
            b.stmts.push(parse_quote!(let __ret = #e;));
            b.stmts.push(parse_quote!(__hint!("tail");));
            b.stmts.push(Stmt::Expr(parse_quote!(__ret), None));
        }
    } else { b.stmts.push(parse_quote!(__hint!("tail");)); }
}

fn parse_args(ts: &TokenStream) -> Option<Vec<Expr>> {
    let p = punctuated::Punctuated::<Expr, Token![,]>::parse_terminated;
    p.parse2(ts.clone()).ok().map(|p| p.into_iter().collect())
}

// ---- the rewriting visitor ----------------------------------------------------------------------
impl<'s> VisitMut for Lower<'s> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let stmts = std::mem::take(&mut b.stmts);
        let mut out: Vec<Stmt> = vec![];
        for s in stmts {
            // a constant of the block is a value of the block, unless a pattern names it
            let s = match s {
                Stmt::Item(Item::Const(c)) if !self.binds.contains_key(&c.ident.to_string()) => { let (i, t, e) = (c.ident, c.ty, c.expr); self.rw("R6 local constant"); parse_quote!(let #i: #t = #e;) }
                s => s,
            };
            match s {
                Stmt::Item(_) => { self.notes.push("item inside a function".into()); }
                Stmt::Macro(m) => {
                    let n = m.mac.path.segments.last().unwrap().ident.to_string();
                    if n == "lazy_static" { for (k, e) in parse_lazy_static(m.mac.tokens.clone()) { self.statics.insert(k, e); } self.rw("R5 lazy_static inlined"); continue; }
                    if n.starts_with("__") { out.push(Stmt::Macro(m)); continue; }
                    let semi = m.semi_token;
                    let mut e = Expr::Macro(ExprMacro { attrs: vec![], mac: m.mac });
                    self.visit_expr_mut(&mut e);
                    let semi = semi.or_else(|| if out.len() > usize::MAX { None } else { None });
                    out.push(Stmt::Expr(e, semi));
                }
                Stmt::Local(mut l) => {
                    l.attrs.clear();
                    if let Some(init) = &mut l.init {
                        self.want = match (&l.pat, &*init.expr) { (Pat::Type(t), Expr::MethodCall(m)) if m.method == "fold" => Some((*t.ty).clone()), _ => None };
                        self.visit_expr_mut(&mut init.expr);
                        self.want = None;
                        if let Some((_, d)) = &mut init.diverge { self.visit_expr_mut(d); }
                    }
                    if let (Pat::Ident(p), Some(init)) = (&l.pat, &l.init) {
                        if let Expr::Closure(c) = &*init.expr {
                            self.rw("R14 local closure inlined at its calls");
                            let n = p.ident.to_string();
                            let moves = c.capture.is_some();
                            for x in free_names(c) {
                                if self.binds.get(&x).cloned().unwrap_or(0) > 1 || moves && self.muts.contains(&x) { self.notes.push(format!("closure {} captures {}, which is bound or changed more than once", n, x)); }
                            }
                            self.closures.insert(n, c.clone());
                            continue;
                        }
                    }
                    let pname = match &l.pat { Pat::Ident(p) => Some(p.ident.to_string()), Pat::Type(t) => match &*t.pat { Pat::Ident(p) => Some(p.ident.to_string()), _ => None }, _ => None };
                    if let (Some(n), Some(init)) = (&pname, &l.init) {
                        let k = match &l.pat { Pat::Type(t) => kind_of_type(&t.ty), _ => None }.or_else(|| self.kind_of(&init.expr));
                        match k { Some(k) => { self.kinds.insert(n.clone(), k); } None => { self.kinds.remove(n); } }
                    }
                    if let (Some(n), Some(init)) = (&pname, &mut l.init) {
                        // RefCell local
                        let s = init.expr.to_token_stream().to_string().replace(' ', "");
                        if s.starts_with("RefCell::new(") || s.starts_with("Cell::new(") {
                            if let Expr::Call(c) = &*init.expr { let a = c.args[0].clone(); *init.expr = a; }
                            self.refcells.insert(n.clone());
                            self.rw("R11 RefCell local to mutable local");
                            let id = Ident::new(n, Span::call_site());
                            l.pat = parse_quote!(mut #id);
                        } else if self.is_iter(&init.expr) && !matches!(&*init.expr, Expr::Range(_)) {
                            let (base, ads) = self.flatten(&init.expr);
                            *init.expr = base;
                            self.lazies.insert(n.clone(), ads);
                            self.rw("R10 lazy iterator variable");
                            let id = Ident::new(n, Span::call_site());
                            l.pat = parse_quote!(mut #id);
                        }
                    }
                    // & patterns in let
                    let (p, d) = match l.pat.clone() {
                        Pat::Reference(r) => { if let Some(i) = &mut l.init { let e = i.expr.clone(); *i.expr = parse_quote!(*#e); } strip(*r.pat) }
                        p => strip(p),
                    };
                    l.pat = p;
                    out.push(Stmt::Local(l));
                    for i in d { out.push(parse_quote!(let #i = *#i;)); }
                }
                Stmt::Expr(mut e, semi) => {
                    self.visit_expr_mut(&mut e);
                    // hoist `&mut <rvalue>` arguments
                    if let Expr::MethodCall(m) = &mut e {
                        for a in m.args.iter_mut() {
                            if let Expr::Reference(r) = a { if r.mutability.is_some() && !is_place(&r.expr) {
                                let t = format_ident!("__tmp_{}", self.n());
                                let v = &r.expr;
                                out.push(parse_quote!(let mut #t = #v;));
                                *a = parse_quote!(&mut #t);
                                self.rw("R12 hoist &mut temporary");
                            } }
                        }
                    }
                    out.push(Stmt::Expr(e, semi));
                }
            }
        }
        b.stmts = out;
    }

    fn visit_arm_mut(&mut self, a: &mut Arm) {
        a.attrs.clear();
        let (p, d) = strip(a.pat.clone());
        if !d.is_empty() { self.rw("R2 & pattern stripped"); }
        a.pat = p;
        if let Some((_, g)) = &mut a.guard { self.visit_expr_mut(g); }
        self.visit_expr_mut(&mut a.body);
        if !d.is_empty() {
            if let Some((_, g)) = &mut a.guard { let ge = g.clone(); let used: Vec<_> = d.iter().filter(|i| uses(&ge, i)).collect(); if !used.is_empty() { **g = parse_quote!({ #(let #used = *#used;)* #ge }); } }
            let b = a.body.clone();
            *a.body = parse_quote!({ #(let #d = *#d;)* #b });
        }
        a.comma = Some(Default::default());
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // --- before the children
        match e {
            Expr::Macro(m) => {
                let n = m.mac.path.segments.last().unwrap().ident.to_string();
                let ts = m.mac.tokens.clone();
                let new: Option<Expr> = match n.as_str() {
                    "r#try" | "try" => syn::parse2::<Expr>(ts).ok().map(|i| { self.rw("R1 try!"); try_expr(i) }),
                    // a debug build and a release build are both meant: the condition is evaluated or not
                    "debug_assert" => parse_args(&ts).map(|a| { let c = &a[0]; self.rw("R7 assert!"); parse_quote!(if v_debug_build() { v_assert(#c) }) }),
                    "debug_assert_eq" => parse_args(&ts).map(|a| { let (x, y) = (&a[0], &a[1]); parse_quote!(if v_debug_build() { v_assert(#x == #y) }) }),
                    "debug_assert_ne" => parse_args(&ts).map(|a| { let (x, y) = (&a[0], &a[1]); parse_quote!(if v_debug_build() { v_assert(#x != #y) }) }),
                    "cfg" if ts.to_string() == "debug_assertions" => Some(parse_quote!(v_debug_build())),
                    "assert" => parse_args(&ts).map(|a| { let c = &a[0]; self.rw("R7 assert!"); parse_quote!(v_assert(#c)) }),
                    "assert_eq" => parse_args(&ts).map(|a| { let (x, y) = (&a[0], &a[1]); parse_quote!(v_assert(#x == #y)) }),
                    "assert_ne" => parse_args(&ts).map(|a| { let (x, y) = (&a[0], &a[1]); parse_quote!(v_assert(#x != #y)) }),
                    "panic" | "unreachable" | "unimplemented" | "todo" => Some(parse_quote!(v_panic())),
                    "format" | "format_args" | "write" | "writeln" | "print" | "println" | "eprint" | "eprintln" => self.formatted(&n, ts),
                    "env" | "concat" | "stringify" | "file" => Some(parse_quote!(v_const_text())),
                    "u12" => parse_args(&ts).map(|a| { let x = &a[0]; self.rw("R6 u12!"); parse_quote!(v_u12_lit(#x)) }),
                    "vec" => parse_args(&ts).map(|a| { self.rw("R6 vec!"); let v = format_ident!("__v_{}", self.n()); parse_quote!({ let mut #v = Vec::new(); #(#v.push(#a);)* #v }) }),
                    "matches" => {
                        let p = |i: parse::ParseStream| -> syn::Result<(Expr, Pat, Option<Expr>)> { let e: Expr = i.parse()?; i.parse::<Token![,]>()?; let p = Pat::parse_multi_with_leading_vert(i)?; let g = if i.peek(Token![if]) { i.parse::<Token![if]>()?; Some(i.parse::<Expr>()?) } else { None }; let _: Option<Token![,]> = i.parse()?; Ok((e, p, g)) };
                        p.parse2(ts).ok().map(|(e, p, g)| { let g = g.map(|g| quote!(if #g)); parse_quote!(match #e { #p #g => true, _ => false, }) })
                    }
                    _ => None,
                };
                if let Some(x) = new { *e = x; self.visit_expr_mut(e); return; }
                return;
            }
            Expr::While(w) => {
                if let Expr::Let(l) = &*w.cond {
                    self.rw("R9 while let to loop/match");
                    let (p, x, b) = (&l.pat, &l.expr, &w.body);
                    *e = parse_quote!(loop { match #x { #p => #b, _ => break, } });
                    self.visit_expr_mut(e);
                    return;
                }
                let cs = w.cond.to_token_stream().to_string().replace(' ', "");
                if cs.contains("try!") || cs.contains('?') || expr_returns(&w.cond) {
                    self.rw("R9 while with an early exit in its condition to loop");
                    let (c, b) = (&w.cond, &w.body);
                    let b = &b.stmts;
                    *e = parse_quote!(loop { if !(#c) { break; } #(#b)* });
                    self.visit_expr_mut(e);
                    return;
                }
            }
            Expr::If(i) => {
                if let Expr::Let(l) = &mut *i.cond {
                    let (p, d) = strip((*l.pat).clone());
                    *l.pat = p;
                    if !d.is_empty() { self.rw("R2 & pattern stripped"); let mut st: Vec<Stmt> = d.iter().map(|x| -> Stmt { parse_quote!(let #x = *#x;) }).collect(); st.append(&mut i.then_branch.stmts); i.then_branch.stmts = st; }
                }
            }
            Expr::Closure(_) => {}
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
        // --- after the children
        let new: Option<Expr> = match e {
            Expr::ForLoop(f) => {
                self.rw("R9 for to while over a cursor");
                let id = self.n();
                let pat = (*f.pat).clone();
                let body = f.body.clone();
                let src = (*f.expr).clone();
                Some(self.loop_over(&src, vec![], move |_, x| { let mut st = let_pat(pat, parse_quote!(#x)); st.extend(body.stmts); st }, None, id))
            }
            Expr::Match(m) => {
                let slice = match &*m.expr { Expr::Index(i) => matches!(&*i.expr, Expr::Path(p) if p.path.get_ident().map(|x| self.slices.contains(&x.to_string())).unwrap_or(false)), _ => false };
                let by_ref = m.arms.iter().any(|a| a.pat.to_token_stream().to_string().split_whitespace().any(|w| w == "ref"));
                if slice && !by_ref { self.rw("R2 element of a slice matched by value"); let x = (*m.expr).clone(); *m.expr = parse_quote!({ let __m = #x; __m }); }
                None
            }
            Expr::MethodCall(m) => self.method(m),
            Expr::Cast(c) => {
                let t = c.ty.to_token_stream().to_string().replace(' ', "").replace("dyn", "").replace("std::", "");
                if t == "&error::Error" { self.rw("R3 upcast to error::Error dropped"); Some((*c.expr).clone()) } else { None }
            }
            Expr::Paren(p) => match &*p.expr { Expr::Path(_) => Some((*p.expr).clone()), _ => None },
            Expr::Call(c) => self.call(c),
            Expr::Index(i) => {
                match &*i.index {
                    Expr::Range(r) => {
                        self.rw("R13 range index to slice primitive");
                        let b = &i.expr;
                        let (s, t) = (&r.start, &r.end);
                        let incl = matches!(r.limits, RangeLimits::Closed(_));
                        Some(match (s, t) {
                            (Some(s), Some(t)) => if incl { parse_quote!((*(#b).v_slice(#s, #t + 1))) } else { parse_quote!((*(#b).v_slice(#s, #t))) },
                            (Some(s), None) => parse_quote!((*(#b).v_slice_from(#s))),
                            (None, Some(t)) => if incl { parse_quote!((*(#b).v_slice(0, #t + 1))) } else { parse_quote!((*(#b).v_slice(0, #t))) },
                            (None, None) => parse_quote!((*(#b).v_slice_from(0))),
                        })
                    }
                    _ => None,
                }
            }
            Expr::Reference(r) => match &*r.expr {
                Expr::Paren(p) => match &*p.expr { Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) && r.mutability.is_none() => { let x = &u.expr; if x.to_token_stream().to_string().contains("v_slice") { Some(parse_quote!(#x)) } else { None } } _ => None },
                _ => None,
            },
            Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => match &*u.expr {
                Expr::Path(p) => match p.path.get_ident().and_then(|i| self.statics.get(&i.to_string())).cloned() {
                    Some(mut s) => { self.rw("R5 lazy_static inlined"); self.visit_expr_mut(&mut s); Some(parse_quote!((#s))) }
                    None => None,
                },
                Expr::Reference(r) => Some((*r.expr).clone()),
                _ => None,
            },
            Expr::Binary(b) if matches!(b.op, BinOp::Add(_)) => match &*b.right {
                Expr::Reference(r) if matches!(&*r.expr, Expr::Lit(ExprLit { lit: Lit::Str(_), .. })) => { let (l, x) = (&b.left, &r.expr); Some(parse_quote!(v_concat(#l, #x))) }
                Expr::Lit(ExprLit { lit: Lit::Str(_), .. }) => { let (l, x) = (&b.left, &b.right); Some(parse_quote!(v_concat(#l, #x))) }
                _ => None,
            },
            Expr::Path(p) => {
                let s = p.to_token_stream().to_string().replace(' ', "");
                match s.as_str() { "u12::MAX" => Some(parse_quote!(v_u12_max())), "u12::MIN" => Some(parse_quote!(v_u12_min())), _ => {
                    // module-qualified constants keep their path; `assembler::` roots become crate::assembler
                    if s.starts_with("assembler::") { syn::parse_str::<Expr>(&format!("crate::{}", s)).ok() } else { None }
                } }
            }
            _ => None,
        };
        if let Some(x) = new { *e = x; }
    }
}

/// `X`, `02X`, `x`, `04x`: the width and the case
fn hex_width(s: &str) -> Option<(LitInt, bool)> {
    let up = s.ends_with('X');
    let w = s.strip_suffix(['X', 'x'])?;
    let n: usize = if w.is_empty() { 0 } else { w.strip_prefix('0')?.parse().ok()? };
    Some((LitInt::new(&format!("{}usize", n), Span::call_site()), up))
}

fn wrap_write(f: Expr, st: Vec<Stmt>) -> Expr { let _ = f; parse_quote!({ #(#st)* v_fmt_ok() }) }

fn uses(e: &Expr, i: &Ident) -> bool {
    struct V<'x>(&'x Ident, bool);
    impl<'ast, 'x> Visit<'ast> for V<'x> { fn visit_expr_path(&mut self, p: &'ast ExprPath) { if p.path.is_ident(self.0) { self.1 = true } } }
    let mut v = V(i, false);
    v.visit_expr(e);
    v.1
}

fn kind_of_type(t: &Type) -> Option<Kind> {
    match t {
        Type::Path(p) => match p.path.segments.last()?.ident.to_string().as_str() { "Option" => Some(Kind::Opt), "Result" => Some(Kind::Res), _ => None },
        Type::Paren(p) => kind_of_type(&p.elem),
        _ => None,
    }
}

fn is_std_method(name: &str) -> bool {
    matches!(name, "get" | "push" | "insert" | "clone" | "next" | "map" | "take" | "append" | "find" | "count" | "extend" | "contains" | "new" | "pop" | "remove" | "as_str" | "contains_key")
}

impl<'s> Lower<'s> {
    fn method(&mut self, m: &mut ExprMethodCall) -> Option<Expr> {
        let name = m.method.to_string();
        let name_id = m.method.clone();
        let recv = (*m.receiver).clone();
        let rname = match &recv { Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()), _ => None };
        // a builder's chained calls: one after the other
        if self.module == "main_rs" && (name == "optflag" || name == "optopt") {
            if let Expr::Block(b) = &recv {
                if let Some(Stmt::Expr(Expr::MethodCall(last), None)) = b.block.stmts.last() {
                    let base = (*last.receiver).clone();
                    let mut st = b.block.stmts.clone();
                    if let Some(Stmt::Expr(_, semi)) = st.last_mut() { *semi = Some(Default::default()) }
                    let args = &m.args;
                    return Some(parse_quote!({ #(#st)* #base.#name_id(#args) }));
                }
            }
            if let Expr::MethodCall(prev) = &recv {
                if prev.method == "optflag" || prev.method == "optopt" {
                    let (base, args) = (&prev.receiver, &m.args);
                    return Some(parse_quote!({ #prev; #base.#name_id(#args) }));
                }
            }
        }
        // RefCell locals
        if let Some(r) = &rname {
            if self.refcells.contains(r) {
                match name.as_str() { "borrow" => return Some(parse_quote!(&#recv)), "borrow_mut" => return Some(parse_quote!(&mut #recv)), "get" => return Some(recv), "set" => { let a = &m.args[0]; return Some(parse_quote!(#recv = #a)) } _ => {} }
            }
            if name == "find" { if let Some(init) = self.statics.get(r).cloned() { return self.regex_call(r.clone(), init, m.args[0].clone()); } }
            if name == "next" { if let Some(ads) = self.lazies.get(r).cloned() { if !ads.is_empty() {
                let x = format_ident!("__x_{}", self.n());
                let mut st = vec![];
                let y = self.adapters(&ads, x.clone(), &mut st, &Ident::new(r, Span::call_site()));
                return Some(parse_quote!(match #recv.next() { Some(#x) => { #(#st)* Some(#y) } None => None, }));
            } } }
        }
        // inlining of methods without a contract
        let q = match &rname { Some(r) if r == "self" => self.self_ty.clone(), _ => None };
        if let Some(f) = self.find_uncontracted(q.as_deref(), &name, true) {
            let builtin = rename_method(&name) != name || is_std_method(&name);
            if !builtin || q.is_some() {
                let args: Vec<Expr> = m.args.iter().cloned().collect();
                if let Some(x) = self.inline(&f, Some(recv.clone()), args) { return Some(x); }
            }
        }
        // iterator terminals
        if self.is_iter(&recv) {
            match name.as_str() {
                "collect" => {
                    if let Some(t) = &m.turbofish { let s = t.to_token_stream().to_string(); if s.replace(' ', "").starts_with("::<Result<Vec<") {
                        self.rw("R10 iterator chain to loop");
                        let id = self.n();
                        let acc = format_ident!("__acc_{}", id);
                        let err = format_ident!("__bad_{}", id);
                        let (a2, e2) = (acc.clone(), err.clone());
                        let vt: Type = t.args.first().and_then(|g| match g { GenericArgument::Type(Type::Path(p)) => match &p.path.segments.last()?.arguments { PathArguments::AngleBracketed(a) => match a.args.first()? { GenericArgument::Type(t) => Some(t.clone()), _ => None }, _ => None }, _ => None }).unwrap_or(parse_quote!(Vec<_>));
                        return Some(self.loop_over(&recv, vec![parse_quote!(let mut #acc: #vt = Vec::new();), parse_quote!(let mut #err = None;)], move |_, x| vec![parse_quote!(match #x { Ok(__ok) => { #a2.push(__ok); } Err(__err) => { #e2 = Some(__err); break; } })], Some(parse_quote!(match #err { Some(__err) => Err(__err), None => Ok(#acc), })), id));
                    }
                    if !s.contains("Vec") { self.notes.push("collect into a non-Vec".into()); return None; } }
                    self.rw("R10 iterator chain to loop");
                    let id = self.n();
                    let acc = format_ident!("__acc_{}", id);
                    return Some(self.loop_over(&recv, vec![parse_quote!(let mut #acc = Vec::new();)], { let acc = acc.clone(); move |_, x| vec![parse_quote!(#acc.push(#x);)] }, Some(parse_quote!(#acc)), id));
                }
                "fold" => {
                    self.rw("R10 iterator chain to loop");
                    let id = self.n();
                    let acc = format_ident!("__acc_{}", id);
                    let init = m.args[0].clone();
                    let f = m.args[1].clone();
                    if let Expr::Closure(c) = f {
                        let (p, q) = (c.inputs[0].clone(), c.inputs[1].clone());
                        let body = (*c.body).clone();
                        let a2 = acc.clone();
                        let first: Stmt = match self.want.take() { Some(t) => parse_quote!(let mut #acc: #t = #init;), None => parse_quote!(let mut #acc = #init;) };
                        return Some(self.loop_over(&recv, vec![first], move |_, x| { let mut st: Vec<Stmt> = let_pat(p, parse_quote!(#a2)); st.extend(let_pat(q, parse_quote!(#x))); vec![parse_quote!(#a2 = { #(#st)* #body };)] }, Some(parse_quote!(#acc)), id));
                    }
                }
                "any" | "all" => {
                    let id = self.n();
                    let acc = format_ident!("__acc_{}", id);
                    let f = m.args[0].clone();
                    let is_any = name == "any";
                    let init: Expr = if is_any { parse_quote!(false) } else { parse_quote!(true) };
                    let a2 = acc.clone();
                    return Some(self.loop_over(&recv, vec![parse_quote!(let mut #acc = #init;)], move |s, x| { let c = s.apply(&f, parse_quote!(#x)); if is_any { vec![parse_quote!(if #c { #a2 = true; })] } else { vec![parse_quote!(if !#c { #a2 = false; })] } }, Some(parse_quote!(#acc)), id));
                }
                "for_each" => {
                    let id = self.n();
                    let f = m.args[0].clone();
                    return Some(self.loop_over(&recv, vec![], move |s, x| { let c = s.apply(&f, parse_quote!(#x)); vec![Stmt::Expr(c, Some(Default::default()))] }, None, id));
                }
                "map" | "inspect" | "filter" | "enumerate" | "peekable" => return None,
                "skip" | "take" | "rev" | "nth" | "last" if !matches!(recv, Expr::Range(_)) => {
                    let (b, ads) = self.flatten(&recv);
                    if ads.is_empty() && (m.args.len() == 1 || matches!(name.as_str(), "rev" | "last")) {
                        self.rw("R8 std method to specified primitive");
                        let (f, args) = (format_ident!("{}", if name == "last" { "v_last_one".to_string() } else { format!("v_{}", name) }), &m.args);
                        return Some(parse_quote!(#b.#f(#args)));
                    }
                }
                "count" => { let (b, ads) = self.flatten(&recv); if ads.is_empty() { return Some(parse_quote!(#b.count())); } 
                    if ads.iter().any(|a| matches!(a, Adapter::Enumerate)) { self.notes.push("count over adapters".into()); return None; }
                    self.rw("R10 iterator chain to loop");
                    let id = self.n();
                    let acc = format_ident!("__acc_{}", id);
                    let a2 = acc.clone();
                    return Some(self.loop_over(&recv, vec![parse_quote!(let mut #acc: usize = 0;)], move |_, _| vec![parse_quote!(#a2 = #a2 + 1;)], Some(parse_quote!(#acc)), id));
                }
                _ => {}
            }
        }
        if self.module == "main_rs" {
            if name == "collect" { if let Expr::Call(c) = &recv { if c.func.to_token_stream().to_string() == "v_args" { return Some(recv); } } }
            if name == "lock" && m.args.is_empty() { self.rw("R8 std method to specified primitive"); return Some(parse_quote!(#recv.v_lock())); }
            // OpenOptions: the flags of the chain
            if name == "open" && m.args.len() == 1 {
                let mut flags: BTreeMap<String, Expr> = BTreeMap::new();
                let mut r = recv.clone();
                loop {
                    r = match &r {
                        Expr::MethodCall(c) if c.args.len() == 1 => { let n = c.method.to_string(); let n = n.strip_prefix("v_").unwrap_or(&n).to_string(); flags.entry(n).or_insert(c.args[0].clone()); (*c.receiver).clone() }
                        Expr::Call(c) if { let s = c.func.to_token_stream().to_string().replace(' ', ""); s.ends_with("OpenOptions::new") || s.ends_with("File::options") } => {
                            self.rw("R8 std method to specified primitive");
                            let p = &m.args[0];
                            let fl: Vec<Expr> = ["read", "write", "create", "truncate", "append", "create_new"].iter().map(|f| flags.get(*f).cloned().unwrap_or(parse_quote!(false))).collect();
                            return Some(parse_quote!(v_open_with(__w, #p, #(#fl),*)));
                        }
                        _ => break,
                    };
                }
            }
            if matches!(name.as_str(), "read_to_string" | "write_all" | "flush") || name == "write" && m.args.len() == 1 && !matches!(&m.args[0], Expr::Lit(_)) {
                let args = &m.args;
                let f = format_ident!("v_{}", name);
                self.rw("R8 std method to specified primitive");
                return Some(parse_quote!(#recv.#f(__w, #args)));
            }
        }
        if name == "fmt" && m.args.len() == 1 { let a = &m.args[0]; return Some(parse_quote!(v_show(&(#recv), #a))); }
        // combinators with closures
        let a0 = m.args.first().cloned();
        let a1 = m.args.iter().nth(1).cloned();
        let res = self.kind_of(&recv) == Some(Kind::Res);
        let x = format_ident!("__m_{}", self.n());
        let nargs = m.args.len();
        let comb: Option<Expr> = match (name.as_str(), a0) {
            ("map", Some(f)) if nargs == 1 => { let b = self.apply(&f, parse_quote!(#x)); Some(if res { parse_quote!(match #recv { Ok(#x) => Ok(#b), Err(__err) => Err(__err), }) } else { parse_quote!(match #recv { Some(#x) => Some(#b), None => None, }) }) }
            ("map_err", Some(f)) => { let b = self.apply(&f, parse_quote!(#x)); Some(parse_quote!(match #recv { Ok(__ok) => Ok(__ok), Err(#x) => Err(#b), })) }
            ("map_or", Some(v)) => a1.map(|f| { let b = self.apply(&f, parse_quote!(#x)); if res { parse_quote!({ let __o = #recv; let __d = #v; match __o { Ok(#x) => #b, Err(_) => __d, } }) } else { parse_quote!({ let __o = #recv; let __d = #v; match __o { Some(#x) => #b, None => __d, } }) } }),
            ("map_or_else", Some(d)) => a1.map(|f| { let b = self.apply(&f, parse_quote!(#x)); if res { let y = format_ident!("__e_{}", self.n()); let dd = self.apply(&d, parse_quote!(#y)); parse_quote!(match #recv { Ok(#x) => #b, Err(#y) => #dd, }) } else { let dd = self.apply0(&d); parse_quote!(match #recv { Some(#x) => #b, None => #dd, }) } }),
            ("ok_or", Some(v)) => Some(parse_quote!({ let __o = #recv; let __e = #v; match __o { Some(__ok) => Ok(__ok), None => Err(__e), } })),
            ("ok_or_else", Some(f)) => { let b = self.apply0(&f); Some(parse_quote!(match #recv { Some(__ok) => Ok(__ok), None => Err(#b), })) }
            ("unwrap_or", Some(v)) => Some(if res { parse_quote!({ let __o = #recv; let __d = #v; match __o { Ok(__ok) => __ok, Err(_) => __d, } }) } else { parse_quote!({ let __o = #recv; let __d = #v; match __o { Some(__ok) => __ok, None => __d, } }) }),
            ("unwrap_or_else", Some(f)) => {
                let one = matches!(&f, Expr::Closure(c) if c.inputs.len() == 1);
                Some(if res || one { let b = self.apply(&f, parse_quote!(#x)); parse_quote!(match #recv { Ok(__ok) => __ok, Err(#x) => #b, }) } else { let b = self.apply0(&f); parse_quote!(match #recv { Some(__ok) => __ok, None => #b, }) })
            }
            ("and_then", Some(f)) => { let b = self.apply(&f, parse_quote!(#x)); Some(if res { parse_quote!(match #recv { Ok(#x) => #b, Err(__err) => Err(__err), }) } else { parse_quote!(match #recv { Some(#x) => #b, None => None, }) }) }
            ("and", Some(v)) => Some(if res { parse_quote!({ let __o = #recv; let __d = #v; match __o { Ok(_) => __d, Err(__err) => Err(__err), } }) } else { parse_quote!({ let __o = #recv; let __d = #v; match __o { Some(_) => __d, None => None, } }) }),
            ("or", Some(v)) => Some(if res { parse_quote!({ let __o = #recv; let __d = #v; match __o { Ok(__ok) => Ok(__ok), Err(_) => __d, } }) } else { parse_quote!({ let __o = #recv; let __d = #v; match __o { Some(__ok) => Some(__ok), None => __d, } }) }),
            ("or_else", Some(f)) => Some(if res { let b = self.apply(&f, parse_quote!(#x)); parse_quote!(match #recv { Ok(__ok) => Ok(__ok), Err(#x) => #b, }) } else { let b = self.apply0(&f); parse_quote!(match #recv { Some(__ok) => Some(__ok), None => #b, }) }),
            ("filter", Some(f)) if !res => { let b = self.apply(&f, parse_quote!(&#x)); Some(parse_quote!(match #recv { Some(#x) => if #b { Some(#x) } else { None }, None => None, })) }
            ("ok", None) if res => Some(parse_quote!(match #recv { Ok(__ok) => Some(__ok), Err(_) => None, })),
            ("err", None) if res => Some(parse_quote!(match #recv { Ok(_) => None, Err(__err) => Some(__err), })),
            ("is_some", None) => Some(parse_quote!(match #recv { Some(_) => true, None => false, })),
            ("is_none", None) => Some(parse_quote!(match #recv { Some(_) => false, None => true, })),
            ("is_ok", None) => Some(parse_quote!(match #recv { Ok(_) => true, Err(_) => false, })),
            ("is_err", None) => Some(parse_quote!(match #recv { Ok(_) => false, Err(_) => true, })),
            ("cloned", None) | ("copied", None) if self.kind_of(&recv) == Some(Kind::Opt) => Some(parse_quote!(match #recv { Some(__c) => Some(*__c), None => None, })),
            _ => None,
        };
        if let Some(c) = comb { self.rw("R4 combinator to match"); return Some(c); }
        if name == "parse" && m.args.is_empty() {
            let t = m.turbofish.as_ref().map(|t| t.args.to_token_stream().to_string()).unwrap_or_default();
            if ["u8", "u16", "u32", "u64", "usize"].contains(&t.as_str()) {
                let f = format_ident!("v_{}_from_str_radix", t);
                self.rw("R8 std method to specified primitive");
                return Some(parse_quote!(#f(#recv.v_as_str(), 10)));
            }
        }
        let rn = if text_search(&name, &m.args) { match name.as_str() { "trim_left_matches" => "v_trim_start_matches".into(), "trim_right_matches" => "v_trim_end_matches".into(), "trim_left" => "v_trim_start".into(), "trim_right" => "v_trim_end".into(), _ => format!("v_{}", name) } } else { rename_method(&name) };
        if rn != name {
            self.rw("R8 std method to specified primitive");
            m.method = Ident::new(&rn, Span::call_site());
            if name == "expect" { m.args.clear(); }
        }
        None
    }

    fn apply0(&mut self, f: &Expr) -> Expr {
        match f { Expr::Closure(c) => { let b = &c.body; parse_quote!({ #b }) } Expr::Path(_) => parse_quote!(#f()), _ => { self.notes.push("combinator argument is not a closure".into()); parse_quote!(#f()) } }
    }

    /// R7: formatting macros become a sequence of appends to the formatter, in order.
    fn formatted(&mut self, n: &str, ts: TokenStream) -> Option<Expr> {
        let p = match fmt::parse(ts, n.starts_with("write"), n.ends_with("ln")) { Ok(p) => p, Err(e) => { self.notes.push(e); return None; } };
        self.rw("R7 formatting macro to appends");
        let mut onto: Option<Expr> = None;
        let (f, pre): (Expr, Vec<Stmt>) = match &p.dest {
            Some(d) if is_place(d) && self.module != "main_rs" => (d.clone(), vec![]),
            Some(d) if is_place(d) => { let id = format_ident!("__f_{}", self.n()); onto = Some(d.clone()); (parse_quote!(#id), vec![parse_quote!(let mut #id = Formatter::v_new();)]) }
            Some(Expr::Reference(r)) if r.mutability.is_some() && is_place(&r.expr) => { let id = format_ident!("__f_{}", self.n()); onto = Some((*r.expr).clone()); (parse_quote!(#id), vec![parse_quote!(let mut #id = Formatter::v_new();)]) }
            Some(_) => { self.notes.push("write! to something other than a formatter variable".into()); return None; }
            None => { let id = format_ident!("__f_{}", self.n()); (parse_quote!(#id), vec![parse_quote!(let mut #id = Formatter::v_new();)]) }
        };
        let fr: Expr = if p.dest.is_some() && onto.is_none() { parse_quote!(#f) } else { parse_quote!(&mut #f) };
        let mut st = pre;
        for x in p.pieces {
            match x {
                Piece::Lit(s) => for part in s.split_inclusive(": ") { let l = LitStr::new(part, Span::call_site()); st.push(parse_quote!(#f.v_lit(#l);)); },
                Piece::Arg(a, s) if s.is_empty() => st.push(parse_quote!(let _ = v_show(&(#a), #fr);)),
                Piece::Arg(a, s) => match hex_width(&s) {
                    Some((w, true)) => st.push(parse_quote!(#f.v_hex_upper(&(#a), #w);)),
                    Some((w, false)) => st.push(parse_quote!(#f.v_hex_lower(&(#a), #w);)),
                    None => st.push(parse_quote!(#f.v_any(&(#a));)),
                },
            }
        }
        Some(match n {
            "write" | "writeln" if self.module == "main_rs" && p.dest.is_some() => {
                let d = onto.clone().or(p.dest.clone()).unwrap();
                let id = format_ident!("__t_{}", self.n());
                parse_quote!({ #(#st)* let #id = #f.v_done(); #d.v_write_all(__w, #id.v_as_bytes()) })
            }
            "write" | "writeln" => match onto { Some(d) => parse_quote!({ #(#st)* #d.v_append(#f.v_done()); v_fmt_ok() }), None => wrap_write(f, st) },
            "format" | "format_args" => parse_quote!({ #(#st)* #f.v_done() }),
            _ => {
                if self.module != "main_rs" { self.notes.push("prints outside main.rs".into()); return None; }
                if n.starts_with('e') { parse_quote!({ #(#st)* v_eprint(__w, #f.v_done()) }) } else { parse_quote!({ #(#st)* v_print(__w, #f.v_done()) }) }
            }
        })
    }

    fn note_params(&mut self, sig: &Signature) {
        let fns = fn_params(sig);
        for a in &sig.inputs {
            if let FnArg::Typed(t) = a { if let Pat::Ident(p) = &*t.pat {
                if fns.contains(&p.ident.to_string()) { self.callables.insert(p.ident.to_string()); }
                if matches!(&*t.ty, Type::Reference(r) if matches!(&*r.elem, Type::Slice(_))) { self.slices.insert(p.ident.to_string()); }
                if let Some(k) = kind_of_type(&t.ty) { self.kinds.insert(p.ident.to_string(), k); }
            } }
        }
    }

    /// Whether an expression is an Option or a Result, where that can be told from the text.
    fn kind_of(&self, e: &Expr) -> Option<Kind> {
        match e {
            Expr::Paren(p) => self.kind_of(&p.expr),
            Expr::Block(b) => match b.block.stmts.last() { Some(Stmt::Expr(e, None)) => self.kind_of(e), _ => None },
            Expr::If(i) => match i.then_branch.stmts.last() { Some(Stmt::Expr(e, None)) => self.kind_of(e), _ => None }.or_else(|| i.else_branch.as_ref().and_then(|(_, e)| self.kind_of(e))),
            Expr::Match(m) => m.arms.iter().find_map(|a| self.kind_of(&a.body)),
            Expr::Path(p) => { let i = p.path.get_ident()?.to_string(); if i == "None" { Some(Kind::Opt) } else { self.kinds.get(&i).copied() } }
            Expr::Call(c) => {
                let p = match &*c.func { Expr::Path(p) => p.path.segments.last()?.ident.to_string(), _ => return None };
                match p.as_str() {
                    "Ok" | "Err" => return Some(Kind::Res),
                    "Some" => return Some(Kind::Opt),
                    "v_fmt_ok" | "v_show" | "v_file_open" | "v_file_create" | "v_fs_read_to_string" | "v_fs_write" | "v_open_with" | "v_ihex_create" => return Some(Kind::Res),
                    _ => {}
                }
                if p.ends_with("from_str_radix") { return Some(Kind::Res); }
                self.kind_of_fn(&p)
            }
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                match n.as_str() {
                    "checked_add" | "checked_sub" | "checked_mul" | "checked_shl" | "get" | "next" | "peek" | "find" | "pop" | "first" | "last" | "checked_div" | "checked_rem" | "v_to_digit" | "failable_into" | "ok" | "err" | "opt_str" | "nth" | "position" | "take" => Some(Kind::Opt),
                    "v_write_str" | "v_write_all" | "v_write" | "v_read_to_string" | "parse" | "v_flush" => Some(Kind::Res),
                    _ => self.kind_of_fn(&n),
                }
            }
            _ => None,
        }
    }
    fn kind_of_fn(&self, name: &str) -> Option<Kind> {
        let ks: Vec<Option<Kind>> = self.all.values().filter(|f| f.sig.ident == name).map(|f| match &f.sig.output { ReturnType::Type(_, t) => kind_of_type(t), _ => None }).collect();
        match ks.first() { Some(k) if ks.iter().all(|x| x == k) => *k, _ => None }
    }

    fn regex_call(&mut self, name: String, init: Expr, arg: Expr) -> Option<Expr> {
        let s = init.to_token_stream().to_string();
        let mut pat: Option<String> = None;
        struct V<'x>(&'x mut Option<String>);
        impl<'ast, 'x> Visit<'ast> for V<'x> { fn visit_lit_str(&mut self, l: &'ast LitStr) { if self.0.is_none() { *self.0 = Some(l.value()) } } }
        V(&mut pat).visit_expr(&init);
        if !s.replace(' ', "").starts_with("Regex::new(") { return None; }
        let pat = pat?;
        let hand = self.hand_regex.get(&name).cloned().or_else(|| if self.hand_regex.len() == 1 { self.hand_regex.values().next().cloned() } else { None });
        let id = format!("re_{}_{}", self.fname, name);
        match regexes::generate(&id, &pat, hand.as_deref()) {
            Ok(g) => {
                self.rw("R5 regex to generated match relation");
                if !self.regexes.iter().any(|r| r.id == id) { self.regexes.push(g); }
                let f = Ident::new(&id, Span::call_site());
                Some(parse_quote!(#f(#arg)))
            }
            Err(e) => { self.notes.push(format!("regex {} not translatable: {}", name, e)); None }
        }
    }

    fn call(&mut self, c: &mut ExprCall) -> Option<Expr> {
        let p = match &*c.func { Expr::Path(p) => p.clone(), _ => return None };
        let s = p.to_token_stream().to_string().replace(' ', "");
        let args: Vec<Expr> = c.args.iter().cloned().collect();
        let ints = ["u8", "u16", "u32", "u64", "usize", "i32", "i64", "isize"];
        for t in ints {
            if s == format!("{}::from", t) { let f = format_ident!("v_to_{}", t); let a = &args[0]; self.rw("R8 std function to specified primitive"); return Some(parse_quote!(#f(#a))); }
            if s == format!("{}::from_str_radix", t) { let f = format_ident!("v_{}_from_str_radix", t); self.rw("R8 std function to specified primitive"); return Some(parse_quote!(#f(#(#args),*))); }
        }
        let r = match s.as_str() {
            "mem::replace" | "std::mem::replace" => Some("v_mem_replace"),
            "mem::take" | "std::mem::take" => Some("v_mem_take"),
            "mem::swap" | "std::mem::swap" => Some("v_mem_swap"),
            "cmp::max" | "std::cmp::max" => Some("v_max2"),
            "cmp::min" | "std::cmp::min" => Some("v_min2"),
            "String::from" => Some("v_string_from"),
            "String::new" => Some("v_string_new"),
            "Vec::from" => Some("v_vec_from"),
            "U12::max_value" => Some("v_u12_max"),
            "U12::min_value" => Some("v_u12_min"),
            "U12::from" => Some("v_u12_from"),
            "U12::default" => Some("v_u12_default"),
            "writer::create_object_file_representation" | "create_object_file_representation" | "ihex::writer::create_object_file_representation" => Some("v_ihex_create"),
            "fmt::Display::fmt" | "Display::fmt" => Some("v_show"),
            "process::exit" | "std::process::exit" => Some("v_exit"),
            "File::open" => Some("v_file_open"),
            "File::create" => Some("v_file_create"),
            "io::stdout" | "std::io::stdout" | "stdout" => Some("v_stdout"),
            "io::stderr" | "std::io::stderr" | "stderr" => Some("v_stderr"),
            "env::args" | "std::env::args" => Some("v_args"),
            "fs::read_to_string" | "std::fs::read_to_string" | "read_to_string" => Some("v_fs_read_to_string"),
            "fs::write" | "std::fs::write" => Some("v_fs_write"),
            "BufWriter::new" | "io::BufWriter::new" | "std::io::BufWriter::new" => Some("v_bufwriter"),
            "BufReader::new" | "io::BufReader::new" | "std::io::BufReader::new" => Some("v_bufreader"),
            "fs::File::open" | "std::fs::File::open" => Some("v_file_open"),
            "fs::File::create" | "std::fs::File::create" => Some("v_file_create"),
            _ => None,
        };
        if let Some(r) = r {
            self.rw("R8 std function to specified primitive");
            let f = Ident::new(r, Span::call_site());
            if r == "v_fs_write" && args.len() == 2 {
                if self.module != "main_rs" { self.notes.push("input or output outside main.rs".into()); return None; }
                let (p, b) = (&args[0], &args[1]);
                self.rw("R15 world threaded");
                return Some(parse_quote!(v_fs_write(__w, #p, &(#b))));
            }
            if matches!(r, "v_fs_read_to_string" | "v_exit" | "v_file_open" | "v_file_create" | "v_stdout" | "v_stderr" | "v_args") {
                if self.module != "main_rs" { self.notes.push("input or output outside main.rs".into()); return None; }
                self.rw("R15 world threaded");
                return Some(parse_quote!(#f(__w, #(#args),*)));
            }
            return Some(parse_quote!(#f(#(#args),*)));
        }
        if s == "Box::new" && self.module == "main_rs" { let a = &args[0]; return Some(parse_quote!((#a).v_sink())); }
        if let Some(i) = p.path.get_ident().map(|i| i.to_string()) {
            if let Some(c) = self.closures.get(&i).cloned() {
                if c.inputs.len() != args.len() { return None; }
                let mut st: Vec<Stmt> = vec![];
                for (q, a) in c.inputs.iter().zip(args) { st.extend(let_pat(q.clone(), a)); }
                let b = &c.body;
                return Some(parse_quote!({ #(#st)* #b }));
            }
            if self.callables.contains(&i) {
                if self.module != "main_rs" || args.len() != 1 { self.notes.push("function parameter outside the extractor's reach".into()); return None; }
                let (f, a) = (&c.func, &args[0]);
                self.rw("R15 world threaded");
                return Some(parse_quote!(#f.v_call(__w, (#a).v_as_str())));
            }
        }
        // inline uncontracted functions
        let segs: Vec<String> = p.path.segments.iter().map(|x| x.ident.to_string()).collect();
        let name = segs.last().unwrap().clone();
        let q = if segs.len() > 1 { Some(segs[segs.len() - 2].clone()) } else { None };
        if let Some(f) = self.find_uncontracted(q.as_deref(), &name, false) {
            return self.inline(&f, None, args);
        }
        // calls of main.rs' own functions take the world; text arguments are coerced explicitly
        if self.module == "main_rs" && !args.first().map(is_w).unwrap_or(false) {
            let f = self.all.iter().filter(|(k, f)| self.spec.fns.contains_key(*k) && f.sig.ident == name && match (&q, &f.self_ty) { (Some(q), Some(t)) => q == t, (Some(q), None) => *q == f.module, (None, None) => true, _ => false }).map(|(_, f)| f.clone()).next();
            if let Some(f) = f {
                let mut out: Vec<Expr> = vec![];
                if f.module == "main_rs" { self.rw("R15 world threaded"); out.push(parse_quote!(__w)); }
                let fns = fn_params(&f.sig);
                for (a, t) in args.iter().zip(f.sig.inputs.iter()) {
                    let (ty, n) = match t { FnArg::Typed(t) => (t.ty.to_token_stream().to_string().replace(' ', ""), t.pat.to_token_stream().to_string()), _ => (String::new(), String::new()) };
                    let text = ty == "&str" || ty.starts_with("&'") && ty.ends_with("str");
                    let done = matches!(a, Expr::Lit(_)) || matches!(a, Expr::MethodCall(m) if m.method == "v_as_str");
                    if text && !done { out.push(parse_quote!((#a).v_as_str())); }
                    else if fns.contains(&n) { let by_ref = matches!(a, Expr::Reference(_)); let x = self.lift(a); out.push(if by_ref { parse_quote!(&#x) } else { x }); }
                    else { out.push(a.clone()); }
                }
                let g = &c.func;
                return Some(parse_quote!(#g(#(#out),*)));
            }
        }
        None
    }

    /// A closure handed to a function under contract: a struct of what it captures.
    fn lift(&mut self, a: &Expr) -> Expr {
        let inner = match a { Expr::Reference(r) => (*r.expr).clone(), x => x.clone() };
        let c = match &inner { Expr::Closure(c) => c.clone(), Expr::Path(p) => match p.path.get_ident().and_then(|i| self.closures.get(&i.to_string()).cloned()) { Some(c) => c, None => return inner }, _ => return inner };
        let n = self.n();
        let name = format!("__Log_{}_{}", self.fname, n);
        let caps = free_names(&c);
        if c.inputs.len() != 1 { self.notes.push("closure outside the extractor's reach".into()); return inner; }
        self.rw("R15 closure to a struct of its captures");
        let pat = match &c.inputs[0] { Pat::Type(t) => (*t.pat).clone(), p => p.clone() };
        let tps: Vec<String> = (0..caps.len()).map(|i| format!("T{}", i)).collect();
        let decl = format!("<'b, {}>", tps.iter().map(|t| format!("{}: VShow", t)).collect::<Vec<_>>().join(", "));
        let used = format!("<'b, {}>", tps.join(", "));
        let (decl, used) = if caps.is_empty() { (String::new(), String::new()) } else { (decl, used) };
        let fields: Vec<String> = tps.iter().map(|t| format!("pub &'b {}", t)).collect();
        let can = if caps.is_empty() { "true".to_string() } else { (0..caps.len()).map(|i| format!("self.{}.can_show()", i)).collect::<Vec<_>>().join(" && ") };
        let lets: String = caps.iter().enumerate().map(|(i, c)| format!("let {} = self.{};\n", c, i)).collect();
        let mut b = (*c.body).clone();
        Retype.visit_expr_mut(&mut b);
        let body = printer::print(quote!({ let #pat = __s; #b }));
        let mut lits = Lits::default(); lits.visit_expr(&b);
        let rev: String = lits.0.iter().map(|l| format!("reveal_strlit({});\n", l)).collect();
        if body.contains("while ") || body.contains("loop ") { self.notes.push("loop inside a closure".into()); }
        self.lifted.push(format!("pub struct {name}{decl}({});\nimpl{decl} VLog for {name}{used} {{\nopen spec fn can(&self) -> bool {{ {can} }}\nfn v_call(&self, __w: &mut World, __s: &str) {{\nproof {{ broadcast use group_fmt; reveal(pre);\n{rev} }}\n{lets}\n{body}\n}}\n}}\n", fields.join(", ")));
        let nm = Ident::new(&name, Span::call_site());
        let ids: Vec<Ident> = caps.iter().map(|c| Ident::new(c, Span::call_site())).collect();
        if ids.is_empty() { parse_quote!(#nm()) } else { parse_quote!(#nm(#(&#ids),*)) }
    }
}


/// The parameters that are functions.
fn fn_params(sig: &Signature) -> BTreeSet<String> {
    let mut fnbound: BTreeSet<String> = BTreeSet::new();
    let mut out = BTreeSet::new();
    let isfn = |s: &str| { let s = s.replace(' ', ""); s.contains("Fn(") || s.contains("FnMut(") || s.contains("FnOnce(") };
    for p in sig.generics.type_params() { if isfn(&p.bounds.to_token_stream().to_string()) { fnbound.insert(p.ident.to_string()); } }
    if let Some(w) = &sig.generics.where_clause { for p in &w.predicates { if let WherePredicate::Type(t) = p { if isfn(&t.bounds.to_token_stream().to_string()) { fnbound.insert(t.bounded_ty.to_token_stream().to_string()); } } } }
    for a in &sig.inputs {
        if let FnArg::Typed(t) = a { if let Pat::Ident(p) = &*t.pat {
            let ty = t.ty.to_token_stream().to_string().replace(' ', "");
            let base = ty.trim_start_matches('&').trim_start_matches("mut").to_string();
            if fnbound.contains(&base) || isfn(&ty) { out.insert(p.ident.to_string()); }
        } }
    }
    out
}

/// Names a block or expression reads and does not bind itself.
fn free_names(c: &ExprClosure) -> Vec<String> {
    struct V { bound: BTreeSet<String>, used: Vec<String> }
    impl<'ast> Visit<'ast> for V {
        fn visit_pat_ident(&mut self, p: &'ast PatIdent) { self.bound.insert(p.ident.to_string()); visit::visit_pat_ident(self, p) }
        fn visit_expr_call(&mut self, c: &'ast ExprCall) { if !matches!(&*c.func, Expr::Path(_)) { self.visit_expr(&c.func) } for a in &c.args { self.visit_expr(a) } }
        fn visit_expr_path(&mut self, p: &'ast ExprPath) {
            if let Some(i) = p.path.get_ident() { let s = i.to_string(); if s.starts_with(|c: char| c.is_lowercase() || c == '_') && s != "__w" && !self.used.contains(&s) { self.used.push(s) } }
        }
    }
    let mut v = V { bound: BTreeSet::new(), used: vec![] };
    for p in &c.inputs { v.visit_pat(p) }
    v.visit_expr(&c.body);
    v.used.into_iter().filter(|u| !v.bound.contains(u)).collect()
}

fn is_w(e: &Expr) -> bool { matches!(e, Expr::Path(p) if p.path.is_ident("__w")) }
