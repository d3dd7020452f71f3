//! Executable reading of the c8s language (README + grammar), written from the property texts.
//! Used only to look for a concrete failing input and to cross-check what the proofs trust.
use std::collections::{BTreeMap, HashMap};

#[derive(Clone, Debug, PartialEq)]
pub struct Loc { pub line: usize, pub col: usize, pub len: usize }
#[derive(Clone, Debug, PartialEq)]
pub enum K { Comment, Dot, Ident(String), Colon, Str(String), Num(u32), Comma, Nl, Err(&'static str) }
#[derive(Clone, Debug, PartialEq)]
pub struct Tok { pub k: K, pub loc: Loc }

pub fn is_ws(c: char) -> bool {
    let n = c as u32;
    (9..=13).contains(&n) && n != 10 || n == 32 || n == 0x85 || n == 0xA0 || n == 0x1680 || (0x2000..=0x200A).contains(&n)
        || n == 0x2028 || n == 0x2029 || n == 0x202F || n == 0x205F || n == 0x3000
}
fn ident0(c: char) -> bool { c == '_' || c.is_ascii_alphabetic() }
fn identc(c: char) -> bool { c == '_' || c.is_ascii_alphanumeric() }

pub fn lex(text: &str) -> Vec<Tok> {
    let s: Vec<char> = text.chars().collect();
    let (mut i, mut line, mut col) = (0, 1, 1);
    let mut out = vec![];
    while i < s.len() {
        if is_ws(s[i]) { i += 1; col += 1; continue; }
        let (n, k) = lex1(&s[i..]);
        let t = &s[i..i + n];
        let fl = match t.iter().position(|&c| c == '\n') { Some(p) => p + 1, None => n };
        let bad = matches!(k, K::Err(_));
        out.push(Tok { k, loc: Loc { line, col, len: fl } });
        if bad { break; }
        for &c in t { if c == '\n' { line += 1; col = 1 } else { col += 1 } }
        i += n;
    }
    out
}
fn lex1(s: &[char]) -> (usize, K) {
    let run = |from: usize, p: &dyn Fn(char) -> bool| s[from..].iter().take_while(|&&c| p(c)).count();
    let st = |a: usize, b: usize| s[a..b].iter().collect::<String>();
    match s[0] {
        ';' => (run(0, &|c| c != '\n'), K::Comment),
        '.' => (1, K::Dot), ':' => (1, K::Colon), ',' => (1, K::Comma), '\n' => (1, K::Nl),
        '"' => {
            let mut j = 1;
            loop {
                if j >= s.len() { return (1, K::Err("string")); }
                if s[j] == '"' { return (j + 1, K::Str(st(1, j))); }
                if s[j] == '\\' { if j + 1 < s.len() && s[j + 1] != '\n' { j += 2 } else { return (1, K::Err("string")); } } else { j += 1 }
            }
        }
        '$' | '#' => { let n = run(1, &|c| c.is_ascii_hexdigit()).min(3); if n == 0 { (1, K::Err("num")) } else { (1 + n, K::Num(u32::from_str_radix(&st(1, 1 + n), 16).unwrap())) } }
        '%' => {
            let n = run(1, &|c| c == '0' || c == '1' || c == '.');
            if n == 0 { return (1, K::Err("num")); }
            let mut v: u32 = 0;
            for &c in &s[1..1 + n] { v = (v * 2 + (c == '1') as u32).min(1 << 20); }
            (1 + n, if v <= 4095 { K::Num(v) } else { K::Err("num") })
        }
        '[' => if s.len() >= 3 && (s[1] == 'i' || s[1] == 'I') && s[2] == ']' { (3, K::Ident(st(0, 3))) } else { (1, K::Err("indirect")) },
        c if c.is_ascii_digit() => {
            let n = run(0, &|c| c.is_ascii_digit());
            let mut v: u32 = 0;
            for &c in &s[..n] { v = (v * 10 + c.to_digit(10).unwrap()).min(1 << 20); }
            (n, if v <= 4095 { K::Num(v) } else { K::Err("num") })
        }
        c if ident0(c) => { let n = 1 + run(1, &identc); (n, K::Ident(st(0, n))) }
        _ => (1, K::Err("char")),
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum F { Num(u32), Reg(u32), DT, ST, Key, I, II, B, F, Id(String) }
#[derive(Clone, Debug, PartialEq)]
pub enum Lit { S(String), N(u32) }
#[derive(Clone, Debug)]
pub enum Node { Dir(Loc, String, Vec<Lit>), Label(Loc, String), Instr(Loc, String, Vec<F>) }
impl Node { pub fn loc(&self) -> &Loc { match self { Node::Dir(l, ..) | Node::Label(l, ..) | Node::Instr(l, ..) => l } } }

#[derive(Clone, Debug, PartialEq)]
pub enum Why { Io, Lex(&'static str), Syntax(&'static str), DupLabel, StrayEqu, Undefined, NoForm, TooBig, BadDirective, DbRange, NoRoom, Overlap }
#[derive(Clone, Debug)]
pub struct Reject { pub why: Why, pub loc: Option<Loc> }
#[derive(Clone, Debug)]
pub struct Accept { pub image: BTreeMap<u32, u8>, pub per_stmt: Vec<(usize, u32, Vec<u8>)> }
#[derive(Clone, Debug)]
pub struct Expected { pub nodes: Vec<Node>, pub out: Result<Accept, Reject> }

pub fn field_of(id: &str) -> F {
    let l = id.to_ascii_lowercase();
    match l.as_str() {
        "dt" => F::DT, "st" => F::ST, "i" => F::I, "[i]" => F::II, "k" => F::Key, "b" => F::B, "f" => F::F,
        _ => { let c: Vec<char> = l.chars().collect(); if c.len() == 2 && c[0] == 'v' && c[1].is_ascii_hexdigit() { F::Reg(c[1].to_digit(16).unwrap()) } else { F::Id(id.to_string()) } }
    }
}
pub fn parse(t: &[Tok]) -> Result<Vec<Node>, Reject> {
    let bad = |i: usize, what: &'static str| -> Reject { match t.get(i) { None => Reject { why: Why::Syntax(what), loc: None }, Some(x) => Reject { why: if let K::Err(e) = x.k { Why::Lex(e) } else { Why::Syntax(what) }, loc: Some(x.loc.clone()) } } };
    let mut i = 0;
    let mut out = vec![];
    while i < t.len() {
        match &t[i].k {
            K::Comment | K::Nl => i += 1,
            K::Dot => {
                i += 1;
                let (loc, name) = match t.get(i) { Some(Tok { k: K::Ident(s), loc }) => (loc.clone(), s.clone()), _ => return Err(bad(i, "dir")) };
                i += 1;
                let mut a = vec![];
                loop {
                    match t.get(i).map(|x| &x.k) {
                        Some(K::Nl) => break,
                        Some(K::Str(s)) => a.push(Lit::S(s.clone())),
                        Some(K::Num(n)) => a.push(Lit::N(*n)),
                        _ => return Err(bad(i, "dir")),
                    }
                    i += 1;
                    if let Some(K::Comma) = t.get(i).map(|x| &x.k) { i += 1 } else { break }
                }
                out.push(Node::Dir(loc, name, a));
            }
            K::Ident(s) => {
                let loc = t[i].loc.clone();
                if let Some(K::Colon) = t.get(i + 1).map(|x| &x.k) { out.push(Node::Label(loc, s.clone())); i += 2; continue; }
                i += 1;
                let mut a = vec![];
                loop {
                    match t.get(i).map(|x| &x.k) {
                        Some(K::Nl) | Some(K::Comment) => break,
                        Some(K::Ident(s)) => a.push(field_of(s)),
                        Some(K::Num(n)) => a.push(F::Num(*n)),
                        _ => return Err(bad(i, "instr")),
                    }
                    i += 1;
                    if let Some(K::Comma) = t.get(i).map(|x| &x.k) { i += 1 } else { break }
                }
                out.push(Node::Instr(loc, s.clone(), a));
            }
            _ => return Err(bad(i, "stmt")),
        }
    }
    Ok(out)
}

enum D { Org(u32), Db(Vec<u8>), Equ(u32) }
fn directive(name: &str, a: &[Lit]) -> Result<D, Why> {
    let one = || match a { [Lit::N(n)] => Ok(*n), _ => Err(Why::BadDirective) };
    match name.to_ascii_lowercase().as_str() {
        "org" => one().map(D::Org),
        "equ" => one().map(D::Equ),
        "db" => {
            if a.is_empty() { return Err(Why::BadDirective); }
            let mut v = vec![];
            for x in a { match x { Lit::S(s) => v.extend_from_slice(s.as_bytes()), Lit::N(n) => if *n <= 255 { v.push(*n as u8) } else { return Err(Why::DbRange) } } }
            Ok(D::Db(v))
        }
        _ => Err(Why::BadDirective),
    }
}

pub fn encode(m: &str, f: &[F], labels: &HashMap<String, u32>) -> Result<u32, Why> {
    let r = enc(m, f, &|l: &str| labels.get(l).copied());
    if let Some(Some(w)) = r { return Ok(w); }
    // why not?
    let z = enc(m, f, &|_: &str| Some(0));
    match z { Some(_) if f.iter().any(|x| matches!(x, F::Id(l) if !labels.contains_key(l))) && enc(m, f, &|l: &str| Some(labels.get(l).copied().unwrap_or(0))).is_some() => Err(Why::Undefined), Some(_) => Err(Why::TooBig), None => Err(Why::NoForm) }
}
/// None: no such form. Some(None): the form exists, an operand has no admissible value.
fn enc(m: &str, f: &[F], get: &dyn Fn(&str) -> Option<u32>) -> Option<Option<u32>> {
    let val = |x: &F| -> Option<Option<u32>> { match x { F::Num(n) => Some(Some(*n)), F::Id(l) => Some(get(l)), _ => None } };
    let w12 = |hi: u32, x: &F| val(x).map(|v| v.map(|n| hi << 12 | n));
    let w8 = |hi: u32, r: u32, x: &F| val(x).map(|v| v.and_then(|n| if n <= 255 { Some(hi << 12 | r << 8 | n) } else { None }));
    let xy = |hi: u32, x: u32, y: u32, lo: u32| Some(Some(hi << 12 | x << 8 | y << 4 | lo));
    let m = m.to_ascii_lowercase();
    match (m.as_str(), f) {
        ("nop", []) => Some(Some(0)),
        ("cls", []) => Some(Some(0xE0)),
        ("ret", []) => Some(Some(0xEE)),
        ("trapret", []) => Some(Some(0xF9)),
        ("trap", []) => Some(Some(0xFA)),
        ("ld", [F::I, F::II]) => Some(Some(0xF8)),
        ("jp", [a]) => w12(1, a),
        ("call", [a]) => w12(2, a),
        ("se", [F::Reg(x), F::Reg(y)]) => xy(5, *x, *y, 0),
        ("sne", [F::Reg(x), F::Reg(y)]) => xy(9, *x, *y, 0),
        ("ld", [F::Reg(x), F::Reg(y)]) => xy(8, *x, *y, 0),
        ("or", [F::Reg(x), F::Reg(y)]) => xy(8, *x, *y, 1),
        ("and", [F::Reg(x), F::Reg(y)]) => xy(8, *x, *y, 2),
        ("xor", [F::Reg(x), F::Reg(y)]) => xy(8, *x, *y, 3),
        ("add", [F::Reg(x), F::Reg(y)]) => xy(8, *x, *y, 4),
        ("sub", [F::Reg(x), F::Reg(y)]) => xy(8, *x, *y, 5),
        ("shr", [F::Reg(x)]) => xy(8, *x, 0, 6),
        ("subn", [F::Reg(x), F::Reg(y)]) => xy(8, *x, *y, 7),
        ("shl", [F::Reg(x)]) => xy(8, *x, 0, 0xE),
        ("ld", [F::Reg(x), F::DT]) => xy(0xF, *x, 0, 7),
        ("ld", [F::Reg(x), F::Key]) => xy(0xF, *x, 0, 0xA),
        ("ld", [F::DT, F::Reg(x)]) => xy(0xF, *x, 1, 5),
        ("ld", [F::ST, F::Reg(x)]) => xy(0xF, *x, 1, 8),
        ("add", [F::I, F::Reg(x)]) => xy(0xF, *x, 1, 0xE),
        ("ld", [F::F, F::Reg(x)]) => xy(0xF, *x, 2, 9),
        ("ld", [F::B, F::Reg(x)]) => xy(0xF, *x, 3, 3),
        ("ld", [F::II, F::Reg(x)]) => xy(0xF, *x, 5, 5),
        ("ld", [F::Reg(x), F::II]) => xy(0xF, *x, 6, 5),
        ("se", [F::Reg(x), v]) => w8(3, *x, v),
        ("sne", [F::Reg(x), v]) => w8(4, *x, v),
        ("ld", [F::Reg(x), v]) => w8(6, *x, v),
        ("add", [F::Reg(x), v]) => w8(7, *x, v),
        ("rnd", [F::Reg(x), v]) => w8(0xC, *x, v),
        ("ld", [F::I, v]) => w12(0xA, v),
        ("jp", [F::Reg(0), v]) => w12(0xB, v),
        ("skp", [F::Reg(x)]) => xy(0xE, *x, 9, 0xE),
        ("sknp", [F::Reg(x)]) => xy(0xE, *x, 0xA, 1),
        ("drw", [F::Reg(x), F::Reg(y), v]) => val(v).map(|v| v.and_then(|n| if n <= 15 { Some(0xD000 | x << 8 | y << 4 | n) } else { None })),
        _ => None,
    }
}

pub fn assemble(ns: &[Node]) -> Result<Accept, Reject> {
    let mut labels: HashMap<String, u32> = HashMap::new();
    let mut a: u32 = 0;
    let rej = |w: Why, n: &Node| Reject { why: w, loc: Some(n.loc().clone()) };
    for (i, n) in ns.iter().enumerate() {
        match n {
            Node::Label(_, name) => {
                if labels.contains_key(name) { return Err(rej(Why::DupLabel, n)); }
                let v = match ns.get(i + 1) { Some(Node::Dir(_, d, args)) => match directive(d, args) { Ok(D::Equ(c)) => c, _ => a }, _ => a };
                labels.insert(name.clone(), v);
            }
            Node::Instr(..) => { if a + 2 > 4095 { return Err(rej(Why::NoRoom, n)); } a += 2 }
            Node::Dir(_, d, args) => match directive(d, args) {
                Err(w) => return Err(rej(w, n)),
                Ok(D::Org(x)) => a = x,
                Ok(D::Db(b)) => { if b.len() > 4095 || a + b.len() as u32 > 4095 { return Err(rej(Why::NoRoom, n)); } a += b.len() as u32 }
                Ok(D::Equ(_)) => if i == 0 || !matches!(ns[i - 1], Node::Label(..)) { return Err(rej(Why::StrayEqu, n)); },
            },
        }
    }
    a = 0;
    let mut per = vec![];
    for (i, n) in ns.iter().enumerate() {
        match n {
            Node::Label(..) => {}
            Node::Instr(_, m, f) => match encode(m, f, &labels) { Ok(w) => { per.push((i, a, vec![(w >> 8) as u8, w as u8])); a += 2 } Err(w) => return Err(rej(w, n)) },
            Node::Dir(_, d, args) => match directive(d, args) { Ok(D::Org(x)) => a = x, Ok(D::Db(b)) => { let l = b.len() as u32; per.push((i, a, b)); a += l } _ => {} },
        }
    }
    let mut image = BTreeMap::new();
    for (_, at, b) in &per { for (k, x) in b.iter().enumerate() { if image.insert(at + k as u32, *x).is_some() { return Err(Reject { why: Why::Overlap, loc: None }); } } }
    Ok(Accept { image, per_stmt: per })
}

pub fn expected(src: &[u8]) -> Expected {
    let text = match std::str::from_utf8(src) { Ok(t) => t, Err(_) => return Expected { nodes: vec![], out: Err(Reject { why: Why::Io, loc: None }) } };
    match parse(&lex(text)) {
        Err(r) => Expected { nodes: vec![], out: Err(r) },
        Ok(nodes) => { let out = assemble(&nodes); Expected { nodes, out } }
    }
}

/// Strict Intel HEX decoder.
pub fn decode_hex(t: &[u8]) -> Result<Vec<(u32, u8)>, String> {
    let s = std::str::from_utf8(t).map_err(|_| "not text".to_string())?;
    if !s.ends_with('\n') { return Err("last line is not newline-terminated".into()); }
    let mut out = vec![];
    let mut eof = false;
    for (n, l) in s[..s.len() - 1].split('\n').enumerate() {
        let e = |w: &str| format!("line {}: {}: {:?}", n + 1, w, l);
        if eof { return Err(e("text after the end-of-file record")); }
        let b = l.as_bytes();
        if b.first() != Some(&b':') || b.len() % 2 == 0 || b.len() < 11 { return Err(e("not a record")); }
        let mut v = vec![];
        for c in b[1..].chunks(2) { v.push(u8::from_str_radix(std::str::from_utf8(c).map_err(|_| e("not hex"))?, 16).map_err(|_| e("not hex"))?); if c.contains(&b'+') { return Err(e("not hex")); } }
        if v.iter().fold(0u8, |a, x| a.wrapping_add(*x)) != 0 { return Err(e("checksum")); }
        if v[0] as usize != v.len() - 5 { return Err(e("length")); }
        let a = (v[1] as u32) << 8 | v[2] as u32;
        match v[3] {
            0 => { if v[0] == 0 || v[0] > 16 { return Err(e("data record must have 1 to 16 bytes")); } if a + v[0] as u32 > 0x10000 { return Err(e("address wraps")); } for (k, x) in v[4..v.len() - 1].iter().enumerate() { out.push((a + k as u32, *x)); } }
            1 => { if v[0] != 0 { return Err(e("end-of-file record with data")); } eof = true }
            _ => return Err(e("unexpected record type")),
        }
    }
    if !eof { return Err("no end-of-file record".into()); }
    Ok(out)
}
