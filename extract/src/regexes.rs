//! Regex pattern text -> a spec function for the length of the anchored match.
//! Fragment: `^` then a sequence of (class | escape | literal | '.') with a greedy quantifier, or
//! `(?:alt|alt)*` over fixed-length alternatives with disjoint first classes. Inside this
//! fragment leftmost-first matching never backtracks; anything else is refused.

pub struct Generated { pub id: String, pub text: String }

type Cls = Vec<(u32, u32)>;
const MAX: u32 = 0x10FFFF;

fn norm(mut c: Cls) -> Cls { c.sort(); let mut o: Cls = vec![]; for (a, b) in c { if let Some(l) = o.last_mut() { if a <= l.1.saturating_add(1) { l.1 = l.1.max(b); continue; } } o.push((a, b)); } o }
fn neg(c: &Cls) -> Cls { let mut o = vec![]; let mut n = 0; for &(a, b) in c { if a > n { o.push((n, a - 1)); } n = b + 1; } if n <= MAX { o.push((n, MAX)); } o }
fn disjoint(a: &Cls, b: &Cls) -> bool { a.iter().all(|x| b.iter().all(|y| x.1 < y.0 || y.1 < x.0)) }
/// Unicode White_Space
fn space() -> Cls { vec![(9, 13), (32, 32), (0x85, 0x85), (0xA0, 0xA0), (0x1680, 0x1680), (0x2000, 0x200A), (0x2028, 0x2029), (0x202F, 0x202F), (0x205F, 0x205F), (0x3000, 0x3000)] }

#[derive(Debug, Clone)]
enum Item { Class(Cls, usize, Option<usize>), GroupStar(Vec<Vec<Cls>>) }

struct P<'a> { c: Vec<char>, i: usize, _p: std::marker::PhantomData<&'a ()> }
impl<'a> P<'a> {
    fn peek(&self) -> Option<char> { self.c.get(self.i).copied() }
    fn next(&mut self) -> Option<char> { let r = self.peek(); self.i += 1; r }
    fn escape(&mut self) -> Result<Cls, String> {
        match self.next() {
            Some('s') => Ok(space()),
            Some('S') => Ok(neg(&space())),
            Some('n') => Ok(vec![(10, 10)]),
            Some('t') => Ok(vec![(9, 9)]),
            Some('r') => Ok(vec![(13, 13)]),
            Some(c) if c.is_ascii_alphanumeric() => Err(format!("escape \\{}", c)),
            Some(c) => Ok(vec![(c as u32, c as u32)]),
            None => Err("dangling escape".into()),
        }
    }
    fn class(&mut self) -> Result<Cls, String> {
        let mut negate = false;
        if self.peek() == Some('^') { negate = true; self.i += 1; }
        let mut v: Cls = vec![];
        let mut first = true;
        loop {
            let c = self.next().ok_or("unterminated class")?;
            if c == ']' && !first { break; }
            first = false;
            if c == '[' { return Err("nested class".into()); }
            let lo: Cls = if c == '\\' { self.escape()? } else { vec![(c as u32, c as u32)] };
            if self.peek() == Some('-') && self.c.get(self.i + 1).map(|&x| x != ']').unwrap_or(false) && lo.len() == 1 && lo[0].0 == lo[0].1 {
                self.i += 1;
                let d = self.next().ok_or("class range")?;
                let hi: Cls = if d == '\\' { self.escape()? } else { vec![(d as u32, d as u32)] };
                v.push((lo[0].0, hi[0].1));
            } else { v.extend(lo) }
        }
        let v = norm(v);
        Ok(if negate { neg(&v) } else { v })
    }
    fn atom(&mut self) -> Result<Cls, String> {
        match self.next() {
            Some('[') => self.class(),
            Some('\\') => self.escape(),
            Some('.') => Ok(neg(&vec![(10, 10)])),
            Some(c) if "()|*+?{}^$".contains(c) => Err(format!("metacharacter {}", c)),
            Some(c) => Ok(vec![(c as u32, c as u32)]),
            None => Err("end".into()),
        }
    }
    fn quant(&mut self) -> Result<(usize, Option<usize>), String> {
        let q = match self.peek() {
            Some('+') => { self.i += 1; (1, None) }
            Some('*') => { self.i += 1; (0, None) }
            Some('?') => { self.i += 1; (0, Some(1)) }
            Some('{') => {
                self.i += 1;
                let mut s = String::new();
                while let Some(c) = self.next() { if c == '}' { break; } s.push(c); }
                let (a, b) = match s.find(',') { Some(i) => (s[..i].to_string(), Some(s[i + 1..].to_string())), None => (s.clone(), None) };
                let a: usize = a.trim().parse().map_err(|_| "quantifier")?;
                match b { None => (a, Some(a)), Some(b) if b.trim().is_empty() => (a, None), Some(b) => (a, Some(b.trim().parse().map_err(|_| "quantifier")?)) }
            }
            _ => return Ok((1, Some(1))),
        };
        if self.peek() == Some('?') { return Err("lazy quantifier".into()); }
        Ok(q)
    }
}

fn parse(pat: &str) -> Result<Vec<Item>, String> {
    let mut p = P { c: pat.chars().collect(), i: 0, _p: std::marker::PhantomData };
    if p.next() != Some('^') { return Err("not anchored".into()); }
    let mut v = vec![];
    while p.peek().is_some() {
        if p.peek() == Some('(') {
            p.i += 1;
            if p.next() != Some('?') || p.next() != Some(':') { return Err("capturing group".into()); }
            let mut alts = vec![];
            let mut cur = vec![];
            loop {
                match p.peek() {
                    Some(')') => { p.i += 1; alts.push(cur); break; }
                    Some('|') => { p.i += 1; alts.push(std::mem::take(&mut cur)); }
                    None => return Err("unterminated group".into()),
                    _ => { let a = p.atom()?; let q = p.quant()?; if q != (1, Some(1)) { return Err("quantifier inside group".into()); } cur.push(a) }
                }
            }
            match p.peek() { Some('*') => p.i += 1, _ => return Err("group without *".into()) }
            if p.peek() == Some('?') { return Err("lazy".into()); }
            for a in &alts { if a.is_empty() { return Err("empty alternative".into()); } }
            for i in 0..alts.len() { for j in 0..i { if !disjoint(&alts[i][0], &alts[j][0]) { return Err("ambiguous alternatives".into()); } } }
            v.push(Item::GroupStar(alts));
        } else {
            let a = p.atom()?;
            let (lo, hi) = p.quant()?;
            v.push(Item::Class(a, lo, hi));
        }
    }
    // determinism: a variable-length item must not be able to eat what follows it
    for w in v.windows(2) {
        if let Item::Class(_, a, Some(b)) = &w[0] { if a == b { continue; } }
        let f = match &w[1] { Item::Class(c, lo, _) => { if *lo == 0 { return Err("optional item after variable item".into()); } c.clone() } Item::GroupStar(_) => match &w[0] { Item::Class(_, a, Some(b)) if a == b => continue, _ => return Err("group after variable item".into()) } };
        match &w[0] {
            Item::Class(_, a, Some(b)) if a == b => {}
            Item::Class(c, _, _) => if !disjoint(c, &f) { return Err("ambiguous repetition".into()); },
            Item::GroupStar(al) => for x in al { if !disjoint(&x[0], &f) { return Err("ambiguous group".into()); } },
        }
    }
    // an optional prefix that fails later would need backtracking only in the excluded cases above;
    // alternatives of length > 1 can fail after their first class, which then ends the group.
    Ok(v)
}

fn pred(c: &Cls) -> String {
    if c.is_empty() { return "false".into(); }
    c.iter().map(|(a, b)| if a == b { format!("c as u32 == {}", a) } else if *a == 0 { format!("c as u32 <= {}", b) } else if *b == MAX { format!("c as u32 >= {}", a) } else { format!("({} <= c as u32 && c as u32 <= {})", a, b) }).collect::<Vec<_>>().join(" || ")
}

/// `hand`: lines `hand: EXPR(s)`, `group: FN`, `class N: PRED` and then proof text.
pub fn generate(id: &str, pat: &str, hand: Option<&str>) -> Result<Generated, String> {
    let items = parse(pat)?;
    let mut t = String::new();
    t.push_str(&format!("// regex {}: {}\n", id, pat.escape_debug()));
    let mut body = String::from("let i = 0int;\n");
    let mut closers = 0;
    let mut hexpr = None; let mut hgroup = None; let mut proof = String::new();
    let mut hclass: std::collections::BTreeMap<usize, String> = Default::default();
    if let Some(h) = hand {
        for l in h.lines() {
            let l2 = l.trim();
            if let Some(x) = l2.strip_prefix("hand:") { hexpr = Some(x.trim().to_string()) }
            else if let Some(x) = l2.strip_prefix("group:") { hgroup = Some(x.trim().to_string()) }
            else if let Some(x) = l2.strip_prefix("class ") { if let Some(i) = x.find(':') { hclass.insert(x[..i].trim().parse().unwrap(), x[i + 1..].trim().to_string()); } }
            else { proof.push_str(l); proof.push('\n') }
        }
    }
    for (n, it) in items.iter().enumerate() {
        match it {
            Item::Class(c, lo, hi) => {
                t.push_str(&format!("pub open spec fn {id}_c{n}(c: char) -> bool {{ {} }}\n", pred(c)));
                if (*lo, *hi) == (1, Some(1)) {
                    body.push_str(&format!("if i >= s.len() || !{id}_c{n}(s[i]) {{ None }} else {{ let i = i + 1;\n"));
                } else {
                    let run = format!("run(s.skip(i), |c: char| {id}_c{n}(c))");
                    let k = match hi { Some(h) => format!("(if {run} > {h} {{ {h}int }} else {{ {run} as int }})"), None => format!("({run} as int)") };
                    body.push_str(&format!("let k = {k};\nif k < {lo} {{ None }} else {{ let i = i + k;\n"));
                    if let Some(h) = hclass.get(&n) { proof.push_str(&format!("let gp{n} = |c: char| {id}_c{n}(c); let hp{n} = |c: char| {h}(c);\nassert forall|x: Seq<char>| #[trigger] run(x, gp{n}) == run(x, hp{n}) by {{ lemma_run_ext(x, gp{n}, hp{n}); }}\n")); }
                }
                closers += 1;
            }
            Item::GroupStar(alts) => {
                let mut g = String::new();
                let mut ind = String::new();
                for (a, alt) in alts.iter().enumerate() {
                    for (j, c) in alt.iter().enumerate() { t.push_str(&format!("pub open spec fn {id}_g{n}_{a}_{j}(c: char) -> bool {{ {} }}\n", pred(c))); }
                    let cond = (0..alt.len()).map(|j| format!("{id}_g{n}_{a}_{j}(s[{j}])")).collect::<Vec<_>>().join(" && ");
                    let l = alt.len();
                    g.push_str(&format!("if s.len() >= {l} && {cond} {{ {l} + {id}_g{n}(s.skip({l})) }} else "));
                    ind.push_str(&format!("if s.len() >= {l} && {cond} {{ {id}_g{n}_eq(s.skip({l})); }} else "));
                }
                g.push_str("{ 0 }");
                ind.push_str("{ }");
                t.push_str(&format!("pub open spec fn {id}_g{n}(s: Seq<char>) -> nat decreases s.len() {{ {g} }}\n"));
                if let Some(h) = &hgroup {
                    t.push_str(&format!("//@BEGIN regex {id}\npub proof fn {id}_g{n}_eq(s: Seq<char>) ensures {id}_g{n}(s) == {h}(s) decreases s.len() {{ {ind} }}\n//@END regex {id}\n"));
                    proof.push_str(&format!("assert forall|x: Seq<char>| #[trigger] {id}_g{n}(x) == {h}(x) by {{ {id}_g{n}_eq(x); }}\n"));
                }
                body.push_str(&format!("let i = i + {id}_g{n}(s.skip(i));\n"));
            }
        }
    }
    body.push_str("Some(i)\n");
    for _ in 0..closers { body.push_str("}\n"); }
    t.push_str(&format!("pub open spec fn {id}_m(s: Seq<char>) -> Option<int> {{\n{body}}}\n"));
    t.push_str(&format!("#[verifier::external_body]\npub fn {id}_find(s: &str) -> (r: Option<(usize, usize)>) ensures find_res(s@, {id}_m(s@), r) {{ real!(static R: std::sync::OnceLock<crate::exr::Regex> = std::sync::OnceLock::new(); R.get_or_init(|| crate::exr::Regex::new({pat:?}).unwrap()).find(s)) }}\n"));
    match hexpr {
        Some(h) => {
            t.push_str(&format!("//@BEGIN regex {id}\npub proof fn {id}_eq(s: Seq<char>) ensures {id}_m(s) == {h} {{\nassert(s.skip(0) =~= s);\n{proof}}}\n//@END regex {id}\n"));
            t.push_str(&format!("pub fn {id}(s: &str) -> (r: Option<(usize, usize)>) ensures find_res(s@, ({{ let s = s@; {h} }}), r) {{ proof {{ {id}_eq(s@); }} {id}_find(s) }}\n"));
        }
        None => t.push_str(&format!("pub fn {id}(s: &str) -> (r: Option<(usize, usize)>) ensures find_res(s@, {id}_m(s@), r) {{ {id}_find(s) }}\n")),
    }
    Ok(Generated { id: id.to_string(), text: t })
}
