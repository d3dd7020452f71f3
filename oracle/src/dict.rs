//! Literals of the program under test. Those the reference tree does not have are the likely triggers of a
//! change that shows only on particular inputs; the generators then work them into their texts.
use crate::gen::Rng;
use std::collections::BTreeMap;
use std::path::Path;

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum L { N(u64), S(String) }

fn lits(src: &str, out: &mut BTreeMap<L, i64>) {
    let src = match src.find("#[cfg(test)]") { Some(i) => &src[..i], None => src };
    let c: Vec<char> = src.chars().collect();
    let mut i = 0;
    let esc = |i: &mut usize| -> Option<char> {
        // c[*i] is the character after the backslash
        let k = *c.get(*i)?; *i += 1;
        Some(match k { 'n' => '\n', 't' => '\t', 'r' => '\r', '0' => '\0', 'x' => { let h: String = c[*i..].iter().take(2).collect(); *i += 2; char::from_u32(u32::from_str_radix(&h, 16).ok()?)? }
            'u' => { let mut h = String::new(); while *i < c.len() && c[*i] != '}' { if c[*i] != '{' { h.push(c[*i]) } *i += 1; } *i += 1; char::from_u32(u32::from_str_radix(&h, 16).ok()?)? } k => k })
    };
    while i < c.len() {
        if c[i] == '/' && c.get(i + 1) == Some(&'/') { while i < c.len() && c[i] != '\n' { i += 1 } continue; }
        if c[i] == '/' && c.get(i + 1) == Some(&'*') { i += 2; while i < c.len() && !(c[i] == '*' && c.get(i + 1) == Some(&'/')) { i += 1 } i += 2; continue; }
        if c[i] == 'r' && matches!(c.get(i + 1), Some('"') | Some('#')) && (i == 0 || !(c[i - 1].is_alphanumeric() || c[i - 1] == '_')) {
            let mut j = i + 1; let mut h = 0; while c.get(j) == Some(&'#') { h += 1; j += 1 }
            if c.get(j) == Some(&'"') { j += 1; let st = j; loop { if j >= c.len() { break } if c[j] == '"' && c[j + 1..].iter().take(h).filter(|x| **x == '#').count() == h { break } j += 1 } let s: String = c[st..j.min(c.len())].iter().collect(); *out.entry(L::S(s)).or_insert(0) += 1; i = j + 1 + h; continue; }
        }
        if c[i] == '"' {
            i += 1; let mut s = String::new();
            while i < c.len() && c[i] != '"' { if c[i] == '\\' { i += 1; if let Some(k) = esc(&mut i) { s.push(k) } } else { s.push(c[i]); i += 1 } }
            i += 1; *out.entry(L::S(s)).or_insert(0) += 1; continue;
        }
        if c[i] == '\'' {
            if c.get(i + 1) == Some(&'\\') { i += 2; if let Some(k) = esc(&mut i) { *out.entry(L::S(k.to_string())).or_insert(0) += 1; } i += 1; continue; }
            if c.get(i + 2) == Some(&'\'') { *out.entry(L::S(c[i + 1].to_string())).or_insert(0) += 1; i += 3; continue; }
            i += 1; continue; // a lifetime
        }
        if c[i].is_ascii_digit() && (i == 0 || !(c[i - 1].is_alphanumeric() || c[i - 1] == '_')) {
            let st = i; while i < c.len() && (c[i].is_ascii_alphanumeric() || c[i] == '_') { i += 1 }
            let t: String = c[st..i].iter().filter(|x| **x != '_').collect();
            let (t, radix) = if let Some(x) = t.strip_prefix("0x") { (x.to_string(), 16) } else if let Some(x) = t.strip_prefix("0b") { (x.to_string(), 2) } else { (t, 10) };
            let t = if let Some(k) = t.find(|x: char| x == 'u' || x == 'i') { t[..k].to_string() } else { t };
            if let Ok(v) = u64::from_str_radix(&t, radix) { *out.entry(L::N(v)).or_insert(0) += 1; }
            continue;
        }
        i += 1;
    }
}
pub fn collect(src: &Path) -> BTreeMap<L, i64> {
    let mut m = BTreeMap::new();
    let mut todo = vec![src.to_path_buf()];
    while let Some(p) = todo.pop() {
        if let Ok(rd) = std::fs::read_dir(&p) { for e in rd.flatten() { let p = e.path(); if p.is_dir() { todo.push(p) } else if p.extension().map(|x| x == "rs").unwrap_or(false) { if let Ok(t) = std::fs::read_to_string(&p) { lits(&t, &mut m) } } } }
    }
    m
}
pub fn print(src: &Path) {
    for (l, n) in collect(src) { match l { L::N(v) => println!("{} N {}", n, v), L::S(s) => println!("{} S {}", n, s.chars().map(|c| format!("{:x}", c as u32)).collect::<Vec<_>>().join(" ")) } }
}
/// Literals that occur more often than in the reference tree.
pub fn fresh(src: &Path) -> Vec<L> {
    let mut base: BTreeMap<L, i64> = BTreeMap::new();
    for l in include_str!("../baseline.txt").lines() {
        let mut w = l.split(' ');
        let n: i64 = w.next().and_then(|x| x.parse().ok()).unwrap_or(0);
        let l = match w.next() { Some("N") => L::N(w.next().and_then(|x| x.parse().ok()).unwrap_or(0)), _ => L::S(w.filter_map(|x| u32::from_str_radix(x, 16).ok().and_then(char::from_u32)).collect()) };
        base.insert(l, n);
    }
    let mut v: Vec<L> = collect(src).into_iter().filter(|(l, n)| *n > base.get(l).copied().unwrap_or(0)).map(|(l, _)| l).collect();
    v.retain(|l| match l { L::S(s) => s.len() <= 40, _ => true });
    v
}

fn near(r: &mut Rng, n: u64) -> u64 { match r.n(6) { 0 => n.saturating_add(1), 1 => n.saturating_sub(1), 2 => n.saturating_mul(2).min(9000), _ => n } }

/// Work one of the literals into the text.
pub fn mutate(r: &mut Rng, t: &str, d: &[L]) -> String {
    let mut s: Vec<char> = t.chars().collect();
    let n = 1 + r.n(3);
    for _ in 0..n {
        match r.pick(d).clone() {
            L::S(x) => {
                let x: Vec<char> = x.chars().collect();
                let reps = if r.p(1, 4) { 2 + r.n(3) } else { 1 };
                for _ in 0..reps {
                    let i = match r.n(5) {
                        0 => s.len(),
                        1 => 0,
                        // in front of a newline, after a token, or anywhere
                        2 => { let v: Vec<usize> = (0..s.len()).filter(|&i| s[i] == '\n').collect(); if v.is_empty() { s.len() } else { *r.pick(&v) } }
                        3 => { let v: Vec<usize> = (0..s.len()).filter(|&i| matches!(s[i], ' ' | ',' | ':' | '"' | ';')).collect(); if v.is_empty() { s.len() } else { let k = *r.pick(&v); if r.p(1, 2) { k } else { k + 1 } } }
                        _ => r.n(s.len() + 1),
                    };
                    let i = i.min(s.len());
                    s.splice(i..i, x.iter().copied());
                }
                if r.p(1, 4) {
                    // as a name: replace one of the identifiers
                    if let Some((a, b)) = word(r, &s, |c| c.is_ascii_alphabetic() || c == '_') { s.splice(a..b, x.iter().copied()); }
                }
                if r.p(1, 8) { let i = s.iter().position(|c| *c == ';').map(|k| k + 1).unwrap_or(s.len()); s.splice(i..i, x.iter().copied()); }
            }
            L::N(v) => {
                let v = near(r, v);
                match r.n(9) {
                    0 | 1 | 2 | 3 => if let Some((a, b)) = word(r, &s, |c| c.is_ascii_digit()) { let t: Vec<char> = if r.p(1, 3) && v <= 0xfff { format!("${:x}", v).chars().collect() } else { v.to_string().chars().collect() }; s.splice(a..b, t); },
                    4 => { let k = v.min(5000) as usize; let i = r.n(s.len() + 1); let c = *r.pick(&[' ', '\n', '\t', 'a', '1', ';', '0']); s.splice(i..i, std::iter::repeat(c).take(k)); }
                    5 => { let k = v.min(3000) as usize; let st = *r.pick(&["cls\n", ".db 1\n", "\n", "; c\n"]); let t: Vec<char> = st.repeat(k).chars().collect(); if r.p(1, 2) { s.extend(t) } else { s.splice(0..0, t); } }
                    6 => { let k = v.min(5000).max(1) as usize; let t = format!(".db {}\n", vec!["7"; k].join(",")); if s.last().map(|c| *c != '\n').unwrap_or(false) { s.push('\n') } s.extend(t.chars()) }
                    7 => { let k = v.min(5000) as usize; let t = format!(".db \"{}\"\n", "z".repeat(k)); if s.last().map(|c| *c != '\n').unwrap_or(false) { s.push('\n') } s.extend(t.chars()) }
                    _ => { let t = format!(".org {}\n", v); let v: Vec<usize> = (0..s.len()).filter(|&i| s[i] == '\n').collect(); let i = if v.is_empty() { 0 } else { *r.pick(&v) + 1 }; s.splice(i..i, t.chars()); }
                }
            }
        }
    }
    s.into_iter().collect()
}
fn word(r: &mut Rng, s: &[char], first: impl Fn(char) -> bool) -> Option<(usize, usize)> {
    let mut v = vec![];
    let mut i = 0;
    while i < s.len() {
        if s[i].is_ascii_alphanumeric() || s[i] == '_' { let a = i; while i < s.len() && (s[i].is_ascii_alphanumeric() || s[i] == '_') { i += 1 } if first(s[a]) { v.push((a, i)) } } else { i += 1 }
    }
    if v.is_empty() { None } else { Some(*r.pick(&v)) }
}
