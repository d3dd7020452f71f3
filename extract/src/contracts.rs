//! Loader for the .vspec contract files.
//!
//! //@module M           text put inside module M (ghost definitions)
//! //@uses M             text put at the head of module M
//! //@fn M::T::f         contract of a function; the lines up to the next directive are the
//!                       requires/ensures text, put between signature and body
//! //@props C01,C02      properties that rest on this function
//! //@params a,b         canonical parameter names (excluding self); others are alpha-renamed
//! //@lets x,y           let-bound names the annotations refer to, in order of declaration
//! //@attr #[...]        attribute in front of the function
//! //@header TEXT        (trait methods) text opening the impl; the impl is closed after the fn
//! //@loop N [optional]  loop specification of the N-th loop; an optional loop may be missing
//! //@at PLACE           proof text; PLACE = entry | loopstart N | loopend N | afterloop N | tail
//! //@regex NAME         proof text of the equivalence obligation of that regex
use std::collections::BTreeMap;
use std::fs;
use std::path::Path;

#[derive(Default, Clone, Debug)]
pub struct FnSpec {
    pub props: Vec<String>,
    pub sig: String,
    pub params: Option<Vec<String>>,
    pub lets: Vec<String>,
    pub attrs: String,
    pub header: Option<String>,
    pub loops: BTreeMap<usize, String>,
    pub optional: Vec<usize>,
    pub at: BTreeMap<String, String>,
    pub regex: BTreeMap<String, String>,
}

#[derive(Default)]
pub struct Contracts {
    pub prelude: String,
    pub tail: String,
    pub laws: String,
    pub module_text: BTreeMap<String, String>,
    pub module_uses: BTreeMap<String, String>,
    pub fns: BTreeMap<String, FnSpec>,
}

impl Contracts {
    pub fn has_module(&self, m: &str) -> bool { self.fns.keys().any(|k| k.starts_with(&format!("{}::", m))) }

    pub fn load(dir: &Path) -> Contracts {
        let mut c = Contracts::default();
        let mut files: Vec<_> = fs::read_dir(dir).unwrap_or_else(|e| crate::die(&format!("{}: {}", dir.display(), e))).flatten().map(|e| e.path()).collect();
        files.sort();
        for p in files {
            let n = p.file_name().unwrap().to_string_lossy().to_string();
            let text = match fs::read_to_string(&p) { Ok(t) => t, Err(_) => continue };
            if n.starts_with("prelude") && n.ends_with(".rs") { c.prelude.push_str(&text); }
            else if n.starts_with("spec") && n.ends_with(".rs") { c.prelude.push_str(&text); }
            else if n.starts_with("laws") && n.ends_with(".rs") { c.laws.push_str(&text); }
            else if n.starts_with("lemmas") && n.ends_with(".rs") { c.tail.push_str(&text); }
            else if n.ends_with(".vspec") { c.parse(&text, &n); }
        }
        c
    }

    fn parse(&mut self, text: &str, file: &str) {
        enum S { None, Module(String), Uses(String), Sig, Loop(usize), At(String), Regex(String) }
        let mut st = S::None;
        let mut cur: Option<String> = None;
        for line in text.lines() {
            if let Some(d) = line.trim_start().strip_prefix("//@") {
                let (w, rest) = match d.find(' ') { Some(i) => (&d[..i], d[i + 1..].trim()), None => (d.trim(), "") };
                match w {
                    "module" => { cur = None; st = S::Module(rest.into()); }
                    "uses" => { cur = None; st = S::Uses(rest.into()); }
                    "endfn" => { cur = None; st = S::None; }
                    "fn" => { cur = Some(rest.into()); self.fns.insert(rest.into(), FnSpec::default()); st = S::Sig; }
                    _ => {
                        let k = cur.clone().unwrap_or_else(|| crate::die(&format!("{}: {} outside //@fn", file, w)));
                        let f = self.fns.get_mut(&k).unwrap();
                        let list = || rest.split(',').map(|s| s.trim().to_string()).filter(|s| !s.is_empty()).collect::<Vec<_>>();
                        match w {
                            "props" => f.props = list(),
                            "params" => f.params = Some(list()),
                            "lets" => f.lets = list(),
                            "attr" => { f.attrs.push_str(rest); f.attrs.push('\n'); }
                            "header" => f.header = Some(rest.into()),
                            "loop" => { let n: usize = rest.split(' ').next().unwrap().parse().unwrap(); if rest.ends_with(" optional") { f.optional.push(n); } st = S::Loop(n) }
                            "at" => st = S::At(rest.into()),
                            "regex" => st = S::Regex(rest.into()),
                            "endfn" => { cur = None; st = S::None; }
                            _ => crate::die(&format!("{}: unknown directive {}", file, w)),
                        }
                    }
                }
                continue;
            }
            let l = format!("{}\n", line);
            match &st {
                S::None => {}
                S::Module(m) => self.module_text.entry(m.clone()).or_default().push_str(&l),
                S::Uses(m) => self.module_uses.entry(m.clone()).or_default().push_str(&l),
                S::Sig => self.fns.get_mut(cur.as_ref().unwrap()).unwrap().sig.push_str(&l),
                S::Loop(n) => self.fns.get_mut(cur.as_ref().unwrap()).unwrap().loops.entry(*n).or_default().push_str(&l),
                S::At(p) => self.fns.get_mut(cur.as_ref().unwrap()).unwrap().at.entry(p.clone()).or_default().push_str(&l),
                S::Regex(p) => self.fns.get_mut(cur.as_ref().unwrap()).unwrap().regex.entry(p.clone()).or_default().push_str(&l),
            }
        }
    }
}

impl FnSpec {
    /// The same contract for a body without the optional loops.
    pub fn without_optional(&self) -> FnSpec {
        let mut f = self.clone();
        let to = |n: usize| if self.optional.contains(&n) { None } else { Some(n - self.optional.iter().filter(|k| **k < n).count()) };
        f.loops = self.loops.iter().filter_map(|(n, t)| to(*n).map(|m| (m, t.clone()))).collect();
        f.at = self.at.iter().filter_map(|(p, t)| match p.split_once(' ') {
            Some((w, n)) if n.parse::<usize>().is_ok() => to(n.parse().unwrap()).map(|m| (format!("{} {}", w, m), t.clone())),
            _ => Some((p.clone(), t.clone())),
        }).collect();
        f.optional.clear();
        f
    }
}
