//! Generators of source texts, one family per property plus whole random programs.
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Rng { let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03); for _ in 0..4 { r.next(); } r }
    pub fn next(&mut self) -> u64 { self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15); let mut z = self.0; z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9); z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB); z ^ (z >> 31) }
    pub fn n(&mut self, n: usize) -> usize { (self.next() % n.max(1) as u64) as usize }
    pub fn r(&mut self, a: i64, b: i64) -> i64 { a + self.n((b - a + 1) as usize) as i64 }
    pub fn p(&mut self, num: usize, den: usize) -> bool { self.n(den) < num }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.n(v.len())] }
}
pub fn case(r: &mut Rng, s: &str) -> String {
    match r.n(5) { 0 => s.to_uppercase(), 1 => s.to_lowercase(), _ => s.chars().map(|c| if r.p(1, 2) { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect() }
}
pub fn num(r: &mut Rng, v: i64) -> String {
    let z = |r: &mut Rng, s: String| -> String { if r.p(1, 6) { format!("{}{}", "0".repeat(1 + r.n(5)), s) } else { s } };
    match r.n(7) {
        0 | 1 => { let s = v.to_string(); z(r, s) }
        2 | 3 => { if v > 0xFFF { return v.to_string(); } let s = format!("{:x}", v); let s = case(r, &s); let pad = if r.p(1, 4) { "0".repeat(r.n(4usize - s.len())) } else { String::new() }; format!("{}{}{}", if r.p(1, 2) { "$" } else { "#" }, pad, s) }
        4 => { let s = format!("{:b}", v); format!("%{}", z(r, s)) }
        5 => { let s = format!("{:b}", v).replace('0', "."); let s = if r.p(1, 6) { format!("{}{}", ".".repeat(r.n(8)), s) } else { s }; format!("%{}", s) }
        _ => { let s: String = format!("{:b}", v).chars().map(|c| if c == '0' && r.p(1, 2) { '.' } else { c }).collect(); format!("%{}", s) }
    }
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum O { R, V0, A, B, N, DT, ST, K, I, II, Bc, Fo }
pub const FORMS: &[(&str, &[O])] = {
    use O::*;
    &[("cls", &[]), ("ret", &[]), ("nop", &[]), ("trap", &[]), ("trapret", &[]), ("ld", &[I, II]),
      ("jp", &[A]), ("call", &[A]), ("ld", &[I, A]), ("jp", &[V0, A]),
      ("se", &[R, B]), ("sne", &[R, B]), ("ld", &[R, B]), ("add", &[R, B]), ("rnd", &[R, B]),
      ("se", &[R, R]), ("sne", &[R, R]), ("ld", &[R, R]), ("or", &[R, R]), ("and", &[R, R]), ("xor", &[R, R]), ("add", &[R, R]), ("sub", &[R, R]), ("subn", &[R, R]),
      ("shr", &[R]), ("shl", &[R]), ("skp", &[R]), ("sknp", &[R]), ("drw", &[R, R, N]),
      ("ld", &[R, DT]), ("ld", &[R, K]), ("ld", &[DT, R]), ("ld", &[ST, R]), ("add", &[I, R]), ("ld", &[Fo, R]), ("ld", &[Bc, R]), ("ld", &[II, R]), ("ld", &[R, II])]
};
pub fn reg(r: &mut Rng, x: usize) -> String { let s = format!("v{:x}", x); case(r, &s) }
pub fn operand(r: &mut Rng, o: O, labels: &[String]) -> String {
    let lim = match o { O::A => 4095, O::B => 255, O::N => 15, _ => 0 };
    match o {
        O::R => { let x = r.n(16); reg(r, x) }
        O::V0 => case(r, "v0"),
        O::A | O::B | O::N => { if !labels.is_empty() && r.p(1, 3) { return r.pick(labels).clone(); } let v = if r.p(1, 4) { *r.pick(&[0, 1, lim, lim / 2 + 1, lim - 1]) } else { r.r(0, lim) }; num(r, v) }
        O::DT => case(r, "dt"), O::ST => case(r, "st"), O::K => case(r, "k"), O::I => case(r, "i"), O::II => case(r, "[i]"), O::Bc => case(r, "b"), O::Fo => case(r, "f"),
    }
}
pub const WS: &[&str] = &[" ", "  ", "\t", " \t ", "\r", "\u{b}", "\u{c}", "\u{85}", "\u{a0}", "\u{1680}", "\u{2003}", "\u{2028}", "\u{2029}", "\u{202f}", "\u{205f}", "\u{3000}"];
pub fn sp(r: &mut Rng) -> String { if r.p(9, 10) { " ".into() } else { r.pick(WS).to_string() } }
pub fn osp(r: &mut Rng) -> String { if r.p(1, 2) { String::new() } else { sp(r) } }
pub fn instr(r: &mut Rng, labels: &[String]) -> String { let f = *r.pick(FORMS); instr_form(r, f, labels) }
pub fn instr_form(r: &mut Rng, f: (&str, &[O]), labels: &[String]) -> String {
    let mut s = case(r, f.0);
    for (i, o) in f.1.iter().enumerate() {
        if i == 0 { s.push_str(&sp(r)) } else { s.push_str(&osp(r)); s.push(','); s.push_str(&osp(r)) }
        s.push_str(&operand(r, *o, labels));
    }
    s
}
pub fn string(r: &mut Rng, max: usize) -> String {
    let n = r.n(max + 1);
    let mut s = String::from("\"");
    for _ in 0..n {
        match r.n(14) {
            0 => s.push_str("\\\""), 1 => s.push_str("\\\\"), 2 => s.push_str("\\n"), 3 => s.push(*r.pick(&['é', 'ß', 'λ', '中', '\u{1F600}', '\u{7f}', '\u{a0}', '\u{ff}', '\u{100}', '\u{2028}'])),
            4 => s.push(*r.pick(&[';', ',', ':', '.', '%', '$', '#', '[', ' ', '\t', '\''])), 5 => if r.p(1, 6) { s.push('\n') } else { s.push('\\'); s.push('é') },
            6 => s.push(*r.pick(&['\r', '\u{0}', '\u{1}', '~'])),
            _ => s.push((b'a' + r.n(26) as u8) as char),
        }
    }
    s.push('"');
    s
}
pub fn db(r: &mut Rng, maxargs: usize, hi: i64) -> String {
    let mut s = format!(".{}{}", case(r, "db"), sp(r));
    for i in 0..1 + r.n(maxargs) {
        if i > 0 { s.push_str(&osp(r)); s.push(','); s.push_str(&osp(r)) }
        if r.p(1, 4) { s.push_str(&string(r, 8)) } else { let v = r.r(0, hi); s.push_str(&num(r, v)) }
    }
    s
}
pub fn org(r: &mut Rng, a: i64) -> String { format!(".{}{}{}", case(r, "org"), sp(r), num(r, a)) }
pub fn equ(r: &mut Rng, a: i64) -> String { format!(".{}{}{}", case(r, "equ"), sp(r), num(r, a)) }
const WORDS: &[&str] = &["a", "A", "x", "loop", "Loop", "LOOP", "_", "__", "_v0", "v00", "vg", "vz", "V10", "dtt", "dt1", "st0", "ii", "I1", "kk", "bb", "ff", "ld", "jp", "add", "org", "db", "equ", "start", "start1", "start_", "end", "v", "d", "s", "t", "cls", "nop", "l1", "l2", "l10", "l11"];
pub fn label_name(r: &mut Rng) -> String {
    if r.p(2, 3) { r.pick(WORDS).to_string() } else { let n = 1 + r.n(8); let mut s = String::new(); for i in 0..n { let c = *r.pick(b"abcXYZ_0159v"); if i == 0 && c.is_ascii_digit() { s.push('_') } else { s.push(c as char) } } s }
}
pub fn labels(r: &mut Rng, n: usize) -> Vec<String> { let mut v: Vec<String> = vec![]; for _ in 0..n * 3 { if v.len() >= n { break } let l = label_name(r); if !v.contains(&l) && matches!(crate::lang::field_of(&l), crate::lang::F::Id(_)) { v.push(l) } } v }
fn nl(r: &mut Rng, s: &mut String, after_instr: bool) {
    if r.p(1, 8) { s.push_str(&osp(r)); if after_instr || r.p(1, 2) { s.push_str("; comment \"x\", y: .db 1") } }
    s.push('\n');
    if r.p(1, 10) { s.push('\n') }
    if r.p(1, 12) { s.push_str("  ;;; own line é\n") }
}
/// A whole program, mostly valid.
pub fn program(r: &mut Rng) -> String {
    let nl_ = r.n(8);
    let ls = labels(r, nl_);
    let mut undef = ls.clone();
    let mut s = String::new();
    let mut a: i64 = 0;
    if r.p(1, 2) { a = r.r(0, 0x300); s.push_str(&org(r, a)); nl(r, &mut s, false); }
    let lim = if r.p(1, 10) { 120 } else { 14 }; let n = 1 + r.n(lim);
    for _ in 0..n {
        if !undef.is_empty() && r.p(1, 3) {
            let l = undef.remove(r.n(undef.len()));
            s.push_str(&l); s.push_str(&osp(r)); s.push(':');
            if r.p(1, 4) { let v = if r.p(1, 2) { r.r(0, 15) } else { r.r(0, 4095) }; s.push_str(&osp(r)); if r.p(1, 3) { s.push('\n') } s.push_str(&equ(r, v)); nl(r, &mut s, true); continue; }
            if r.p(1, 2) { s.push_str(&sp(r)) } else { nl(r, &mut s, true) }
        }
        match r.n(10) {
            0 => { a = if r.p(5, 6) { (a + r.r(0, 40)).min(4000) } else { r.r(0, 4095) }; s.push_str(&org(r, a)); nl(r, &mut s, true) }
            1 | 2 => { s.push_str(&db(r, 6, 255)); a += 12; nl(r, &mut s, true) }
            _ => { s.push_str(&instr(r, &ls)); a += 2; nl(r, &mut s, true) }
        }
    }
    for l in undef { s.push_str(&l); s.push_str(":\n"); }
    if r.p(1, 6) { while s.ends_with('\n') { s.pop(); } }
    s
}
fn join(r: &mut Rng, parts: &[String]) -> String { let mut s = String::new(); for p in parts { s.push_str(p); nl(r, &mut s, true); } s }

/// A text of the property's family in a large program: much in front of it, behind it, or both.
pub fn amplified(prop: &str, r: &mut Rng) -> Vec<u8> {
    let k = 200 + r.next() % 100_000;
    let core = match String::from_utf8(focus(prop, k, r)) { Ok(t) => t, Err(e) => return e.into_bytes() };
    let n = *r.pick(&[17usize, 33, 65, 70, 100, 129, 257, 300, 513, 1030, 2050, 5000, 33000, 66000]);
    let mut s = String::new();
    let m = n.min(5000);
    let seed = r.n(1000);
    match r.n(9) {
        0 => for _ in 0..n { s.push('\n') },
        1 => for i in 0..n { s.push_str(if i % 3 == 0 { "; c\n" } else { "\n" }) },
        2 => for i in 0..m { s.push_str(&format!("zz{}_{}:\n", seed, i)) },
        3 => for i in 0..m { s.push_str(&format!("zz{}_{}: .equ {}\n", seed, i, i % 4096)) },
        4 => { for i in 0..m.min(1900) { s.push_str(&format!("zz{}_{}: cls\n", seed, i)) } s.push_str(".org 0\n") }
        5 => { for i in 0..m.min(1300) { s.push_str(&format!(".org {}\n.db {}\n", 4090 - 3 * i, i % 256)) } }
        6 => s.push_str(&" \t".repeat(n / 2)),
        7 => { s.push_str("; "); s.push_str(&"é ".repeat(m)); s.push('\n') }
        _ => for i in 0..m { s.push_str(&format!(".org {}\n", i % 4096)) },
    }
    let labs = matches!(s.as_bytes().get(0), Some(b'z'));
    let mut t = if r.p(3, 4) { format!("{}{}", s, core) } else { format!("{}\n{}", core, s) };
    if labs && r.p(2, 3) {
        // the labels in front are used, defined again, or nearly so
        if !t.ends_with('\n') { t.push('\n') }
        let i = match r.n(3) { 0 => 0, 1 => m - 1, _ => r.n(m) };
        t.push_str(&match r.n(5) { 0 => format!("zz{}_{}:\n", seed, i), 1 => format!("zz{}_{}: .equ 3\n", seed, i), 2 => format!("jp zz{}_{}\n", seed, i), 3 => format!("call zz{}_{}\n", seed, m), _ => format!("ld i, zz{}_{}\n", seed, i) });
    }
    t.into_bytes()
}

/// A text in which something is as long, or as many, as a threshold (or just below or above it), in front of a text of the family.
pub fn sized(prop: &str, r: &mut Rng, fresh: &[u64]) -> Vec<u8> {
    let k = 200 + r.next() % 100_000;
    let core = match String::from_utf8(focus(prop, k, r)) { Ok(t) => t, Err(e) => return e.into_bytes() };
    let t = if !fresh.is_empty() && r.p(1, 2) { let n = *r.pick(fresh) as usize; if r.p(1, 4) { n * 2 } else { n } } else { *r.pick(&[8usize, 10, 16, 20, 31, 32, 40, 48, 50, 63, 64, 80, 100, 127, 128, 132, 200, 255, 256, 500, 512, 1000, 1023, 1024, 2047, 2048, 4095, 4096, 8192, 10000, 16384, 32768, 65535, 65536]) };
    let n = match r.n(5) { 0 => t.saturating_sub(1), 1 => t + 1, 2 => t + 1 + r.n(4), _ => t }.min(140_000);
    let (a, b) = (r.n(26), r.n(256));
    let name = |n: usize, last: char| -> String { let mut s: String = std::iter::repeat((b'a' + a as u8) as char).take(n.max(2) - 1).collect(); s.push(last); s };
    let mb = *r.pick(&["é", "€", "\u{1F600}", "\u{feff}"]);
    let mut s = String::new();
    match r.n(14) {
        // two long names that differ at the end; a third that is not defined
        0 | 1 => { let m = n.min(5000); s.push_str(&format!("{}: cls\n{}: .equ {}\n", name(m, 'x'), name(m, 'y'), b)); s.push_str(&format!("jp {}\n", name(m, *r.pick(&['x', 'y', 'y', 'z'])))); if r.p(1, 4) { s.push_str(&format!("call {}\n", name(m + 1, 'x'))) } if r.p(1, 4) { s.push_str(&format!("{}:\n", name(m, *r.pick(&['x', 'z'])))) } }
        2 => { let m = n.min(4080).max(1); let v: Vec<String> = (0..m).map(|i| if r.p(1, 40) { "\"\"".into() } else { ((i + b) % 256).to_string() }).collect(); s.push_str(&format!(".db {}\n", v.join(*r.pick(&[",", ", "])))) }
        3 => { let m = n.min(4080); s.push_str(&format!(".db \"{}\"\n", "q".repeat(m))) }
        4 => { s.push_str("; "); s.push_str(&"p".repeat(n.saturating_sub(2))); for _ in 0..r.n(4) { s.pop(); } s.push_str(mb); s.push_str("\n") }
        5 => { // a wide character across the threshold, inside a string or a comment
            let o = n.saturating_sub(12 + r.n(6)).max(2); s.push_str(&format!("{}\n", ";".repeat(o))); s.push_str(if r.p(1, 2) { ".db \"" } else { "cls ;\"" }); s.push_str(&mb.repeat(8)); s.push_str("\"\n") }
        6 => { let m = n.min(6000); for i in 0..m { s.push_str(&format!("l{}:\n", i)) } s.push_str(&format!("jp l{}\n", r.n(m.max(1)))); if r.p(1, 3) { s.push_str(&format!("l{}:\n", r.n(m + 1))) } }
        7 => for _ in 0..n { s.push('\n') },
        8 => s.push_str(&" ".repeat(n)),
        9 => { let m = n.min(1300); for i in 0..m { s.push_str(&format!(".org {}\n.db {}\n", 3 * i, i % 256)) } if r.p(1, 3) { s.push_str(&format!(".org {}\n.db 1\n", 3 * r.n(m.max(1)) + r.n(3))) } s.push_str(".org 4000\n") }
        10 => { for _ in 0..n.min(2040) { s.push_str("cls\n") } if r.p(1, 2) { s.push_str(".db 1\n") } }
        11 => { let m = n.min(3000); s.push_str(&format!("ld v1, {}{}\n", "0".repeat(m), b)) }
        12 => { let m = n.min(300).max(1); s.push_str(&format!("{} {}\n", r.pick(&["ld", "add", "drw", "jp", "cls"]), vec!["v1"; m].join(", "))) }
        _ => { for _ in 0..n.min(60_000) { s.push_str(*r.pick(&["; c\n", "\n", " \n"])) } }
    }
    match r.n(4) { 0 => s, 1 => format!("{}\n{}", core, s), _ => format!("{}{}", s, core) }.into_bytes()
}

/// Every character: the i-th block of the code points in a string, behind a backslash, in comments, or one of them where a token may stand.
pub fn unicode(prop: &str, i: u64, r: &mut Rng) -> Vec<u8> {
    let one = |r: &mut Rng| loop { let c = match r.n(4) { 0 => r.n(0x300), 1 => r.n(0x3100), 2 => r.n(0x10000), _ => r.n(0x110000) } as u32; if let Some(c) = char::from_u32(c) { return c } };
    if i % 3 == 2 {
        let c = one(r);
        let t = match r.n(14) { 0 => format!("{}\n", c), 1 => format!("a{}: jp a{}\n", c, c), 2 => format!("cls {}\n", c), 3 => format!("jp 1{}\n", c), 4 => format!("jp ${}\n", c), 5 => format!("jp %1{}\n", c), 6 => format!("shl v{}\n", c), 7 => format!("{}: jp {}\n", c, c), 8 => format!(".db{} 1\n", c), 9 => format!("ld [{}], v0\n", c), 10 => format!("jp{}5\n", c), 11 => format!("ld v1{}v2\n", c), 12 => format!("cls{}ret\n", c), _ => format!("x:{}.equ 5\njp x\n", c) };
        return t.into_bytes();
    }
    let b = if i % 3 == 1 { (i / 3) % 66 } else { (i / 3).wrapping_mul(617) % 1115 } as u32;
    let cs = (b * 1000..(b + 1) * 1000).filter_map(char::from_u32);
    let s: String = match (prop, r.n(3)) {
        ("C16", _) | (_, 2) => { let mut s: String = cs.filter(|c| *c != '\n').map(|c| format!("; {}\n", c)).collect(); s.push_str("x: jp x\n"); s }
        (_, 0) => format!(".db \"{}\"", cs.filter(|c| *c != '"' && *c != '\\').collect::<String>()),
        _ => format!(".db \"{}\"", cs.filter(|c| *c != '\n').enumerate().filter(|(j, _)| (*j as u64 + i) % 3 != 0).map(|(_, c)| format!("\\{}", c)).collect::<String>()),
    };
    if prop == "C15" || r.p(1, 5) { format!("{} @\n", s).into_bytes() } else { format!("{}\n", s).into_bytes() }
}

/// The k-th text of the property's own family; None when an enumeration is complete.
pub fn focus(prop: &str, k: u64, r: &mut Rng) -> Vec<u8> {
    match prop {
        "C01" => c01(k, r), "C02" => c02(k, r), "C03" => c03(k, r), "C04" => c04(r), "C05" => c05(r), "C06" => c06(r), "C07" => c07(k, r), "C08" => c08(r), "C09" => c09(k, r),
        "C10" => c10(k, r), "C11" => c11(k, r), "C12" => c12(k, r), "C13" => return c13(k, r), "C14" => { let t = c14(r); if r.p(1, 12) { let mut b = t.into_bytes(); let i = r.n(b.len() + 1); let x: &[u8] = *r.pick(&[&b"\xff"[..], b"\xc3", b"\xc0\x80", b"\xed\xa0\x80", b"\xf4\x90\x80\x80", b"; \xfe\n"]); b.splice(i..i, x.iter().copied()); return b; } t }, "C15" => c15(r), "C16" => c16(r), "C17" => c17(r), _ => program(r),
    }.into_bytes()
}
fn all_operands(o: O) -> Vec<String> {
    match o {
        O::R => (0..16).map(|x| format!("V{:X}", x)).collect(),
        O::A => (0..4096).map(|x| format!("${:X}", x)).collect(),
        O::B => (0..256).map(|x| x.to_string()).collect(),
        O::N => (0..16).map(|x| x.to_string()).collect(),
        O::V0 => vec!["V0".into()], O::DT => vec!["DT".into()], O::ST => vec!["ST".into()], O::K => vec!["K".into()], O::I => vec!["I".into()], O::II => vec!["[I]".into()], O::Bc => vec!["B".into()], O::Fo => vec!["F".into()],
    }
}
pub const C01_CHUNK: usize = 1900;
pub fn c01_total() -> u64 { let n: usize = FORMS.iter().map(|f| f.1.iter().map(|o| all_operands(*o).len()).product::<usize>()).sum(); ((n + C01_CHUNK - 1) / C01_CHUNK) as u64 }
fn c01(k: u64, r: &mut Rng) -> String {
    if k < c01_total() {
        // complete enumeration of forms and operands, C01_CHUNK instructions per text
        let (lo, hi) = (k as usize * C01_CHUNK, (k as usize + 1) * C01_CHUNK);
        let mut i = 0; let mut s = String::new();
        for f in FORMS {
            let lists: Vec<Vec<String>> = f.1.iter().map(|o| all_operands(*o)).collect();
            let n: usize = lists.iter().map(|l| l.len()).product();
            if i + n <= lo || i >= hi { i += n; continue; }
            for j in 0..n {
                if i + j < lo || i + j >= hi { continue; }
                let mut q = j; let mut ops = vec![];
                for l in lists.iter().rev() { ops.insert(0, l[q % l.len()].clone()); q /= l.len(); }
                s.push_str(&format!("{} {}\n", f.0.to_uppercase(), ops.join(", ")));
            }
            i += n;
        }
        return s;
    }
    let n = 1 + r.n(60);
    let nl_ = r.n(4); let ls = labels(r, nl_);
    let mut v: Vec<String> = ls.iter().map(|l| { let x = r.r(0, 15); format!("{}: {}", l, equ(r, x)) }).collect();
    let a = r.r(0, 3000); v.push(org(r, a));
    for _ in 0..n { v.push(instr(r, &ls)); }
    join(r, &v)
}
const MNEM: &[&str] = &["cls", "ret", "nop", "trap", "trapret", "jp", "call", "se", "sne", "ld", "add", "or", "and", "xor", "sub", "subn", "shr", "shl", "rnd", "drw", "skp", "sknp", "sys", "db", "org", "mov", "scd", "low", "high", "exit", "c", "ldd", "l", "trapre", "jpp", "add1"];
const KINDS: &[&str] = &["V3", "V0", "5", "DT", "ST", "K", "I", "[I]", "B", "F", "lab", "300"];
/// A valid instruction with operands too many, or one missing.
pub fn surplus(r: &mut Rng) -> String {
    let mut s = instr(r, &["lab".to_string()]);
    if r.p(1, 6) && s.contains(',') { let i = s.rfind(',').unwrap(); s.truncate(i); return s; }
    let n = 1 + match r.n(4) { 0 => r.n(20), 1 => r.n(6), _ => r.n(3) };
    let one = if r.p(1, 2) { let x = r.n(16); Some(reg(r, x)) } else { None };
    for i in 0..n {
        let x = match &one { Some(x) => x.clone(), None => match r.n(4) { 0 => { let x = r.n(16); reg(r, x) } 1 => { let x = r.r(0, 300); num(r, x) } 2 => "lab".into(), _ => r.pick(KINDS).to_string() } };
        s.push_str(if i == 0 && !s.trim_end().contains(' ') { " " } else { ", " }); s.push_str(&x);
    }
    s
}
const IDCH: &[char] = &['0', '1', '2', '3', '4', '5', '6', '7', '8', '9', 'a', 'b', 'c', 'd', 'e', 'f', 'g', 'h', 'i', 'j', 'k', 'l', 'm', 'n', 'o', 'p', 'q', 'r', 's', 't', 'u', 'v', 'w', 'x', 'y', 'z', '_', '\u{17f}', '\u{212a}', '\u{131}', '\u{e9}', '\u{ff41}'];
/// The number of texts one edit away from a name, and the i-th of them: a character replaced, inserted, left out, or two exchanged.
fn typos(n: usize) -> usize { n * IDCH.len() + (n + 1) * IDCH.len() + n + n.saturating_sub(1) }
fn typo(name: &str, i: usize) -> String {
    let mut b: Vec<char> = name.chars().collect(); let n = b.len(); let q = IDCH.len();
    if i < n * q { b[i / q] = IDCH[i % q] } else if i < n * q + (n + 1) * q { let j = i - n * q; b.insert(j / q, IDCH[j % q]) } else if i < n * q + (n + 1) * q + n { b.remove(i - n * q - (n + 1) * q); } else { let j = (i - n * q - (n + 1) * q - n).min(n.saturating_sub(2)); if n > 1 { b.swap(j, j + 1) } }
    b.into_iter().collect()
}
/// The i-th of all texts one edit away from one of the names (a fixed enumeration, in a scattered order).
fn nth_typo(names: &[&str], i: u64) -> (usize, String) {
    let total: usize = names.iter().map(|n| typos(n.len())).sum();
    let mut j = (i.wrapping_mul(7919) % total as u64) as usize;
    for (x, n) in names.iter().enumerate() { let t = typos(n.len()); if j < t { return (x, typo(n, j)) } j -= t; }
    (0, names[0].into())
}
fn c02(k: u64, r: &mut Rng) -> String {
    if k >= 40 && k % 3 == 1 {
        if k % 4 == 1 {
            // an operand that is nearly a register or one of the special names
            let f = *r.pick(FORMS); let s = instr_form(r, f, &["lab".to_string()]);
            let names = ["v0", "v7", "va", "vf", "dt", "st", "i", "k", "f", "b"];
            let (_, t) = nth_typo(&names, r.next());
            let t = case(r, &t);
            let ps: Vec<&str> = s.split(',').collect();
            if ps.len() > 1 { let i = 1 + r.n(ps.len() - 1); let mut v: Vec<String> = ps.iter().map(|x| x.to_string()).collect(); v[i] = format!(" {}", t); return format!("lab: .equ 7\n{}{}\n", if r.p(1, 3) { format!("{}: .equ 9\n", t) } else { String::new() }, v.join(",")); }
        }
        // a form of the table with a mnemonic one edit away from its own
        let names: Vec<&str> = FORMS.iter().map(|f| f.0).collect();
        let (x, t) = nth_typo(&names, k / 3);
        let s = instr_form(r, FORMS[x], &["lab".to_string()]);
        let rest: String = s.trim_start().chars().skip_while(|c| c.is_ascii_alphanumeric() || *c == '_').collect();
        return format!("lab: .equ 7\n{}{}\n", case(r, &t), rest);
    }
    if k >= 400 && k % 7 == 0 { return format!("lab: .equ 7\n{}\n", surplus(r)); }
    // every mnemonic with every combination of up to three operand kinds, then random ones
    let m = MNEM.len() as u64; let q = KINDS.len() as u64;
    let total = m * (1 + q + q * q + q * q * q);
    let (mn, ops): (String, Vec<String>) = if k < total {
        let mn = MNEM[(k % m) as usize]; let mut c = k / m;
        let mut ops = vec![];
        let mut len = 0; let mut size = 1; while c >= size { c -= size; size *= q; len += 1; }
        for _ in 0..len { ops.push(KINDS[(c % q) as usize].to_string()); c /= q; }
        (mn.into(), ops)
    } else { (r.pick(MNEM).to_string(), (0..r.n(6)).map(|_| r.pick(KINDS).to_string()).collect()) };
    let mut s = String::from("lab: .equ 7\n");
    s.push_str(&case(r, &mn));
    let ops: Vec<String> = ops.iter().map(|o| if o == "lab" { o.clone() } else if o == "V3" { let x = 1 + r.n(15); reg(r, x) } else { case(r, o) }).collect();
    if !ops.is_empty() { s.push(' '); s.push_str(&ops.join(if r.p(1, 2) { ", " } else { "," })); }
    s.push('\n');
    s
}
fn c03(k: u64, r: &mut Rng) -> String {
    let forms: Vec<&(&str, &[O])> = FORMS.iter().filter(|f| f.1.iter().any(|o| matches!(o, O::A | O::B | O::N))).collect();
    let f = forms[(k % forms.len() as u64) as usize];
    let v: i64 = if k < 400 * forms.len() as u64 { let q = k / forms.len() as u64; if q < 300 { q as i64 } else { 256 * (q as i64 - 300) % 4096 + r.r(0, 2) } } else if r.p(1, 2) { r.r(0, 4095) } else { *r.pick(&[15, 16, 17, 31, 32, 127, 128, 255, 256, 257, 271, 272, 511, 512, 1024, 2048, 4080, 4094, 4095]) };
    let v = v.min(4095);
    let mut s = String::new();
    let how = r.n(3);
    let mut ops = vec![];
    for o in f.1 {
        ops.push(match o {
            O::A | O::B | O::N => match how { 0 => num(r, v), _ => "val".to_string() },
            _ => operand(r, *o, &[]),
        });
    }
    let line = format!("{} {}\n", case(r, f.0), ops.join(", "));
    match how {
        0 => s.push_str(&line),
        1 => { let d = format!("val: {}\n", equ(r, v)); if r.p(1, 2) { s.push_str(&d); s.push_str(&line) } else { s.push_str(&line); s.push_str(&d) } }
        _ => { s.push_str(&line); s.push_str(&org(r, v)); s.push_str("\nval:\n"); }
    }
    s
}
/// A name close to another: other case, one character more or less.
pub fn near_name(r: &mut Rng, l: &str) -> String {
    match r.n(7) {
        0 => l.to_uppercase(), 1 => l.to_lowercase(), 2 => case(r, l),
        3 => format!("{}{}", l, r.pick(&["_", "0", "x", "1"])), 4 => format!("{}{}", r.pick(&["_", "x", "__"]), l),
        5 if l.len() > 1 => l[..l.len() - 1].to_string(),
        _ => { let i = r.n(l.len()); let mut v: Vec<char> = l.chars().collect(); if i > 0 { v[i] = *r.pick(&['_', '0', 'a', 'Z']) } else { v[0] = if v[0] == '_' { 'a' } else { '_' } } v.into_iter().collect() }
    }
}
fn c04(r: &mut Rng) -> String {
    let lim = if r.p(1, 12) { 200 } else { 12 }; let k = 1 + r.n(lim);
    let ls = if k > 15 { (0..k).map(|i| format!("l{}", i)).collect() } else { labels(r, k) };
    let mut order: Vec<usize> = (0..ls.len()).collect();
    for i in (1..order.len()).rev() { let j = r.n(i + 1); order.swap(i, j); }
    let mut s = String::new();
    let mut a = 0i64;
    if r.p(2, 3) { a = r.r(0, 0x400); s.push_str(&org(r, a)); s.push('\n'); }
    for &i in &order {
        s.push_str(&ls[i]); s.push(':');
        match r.n(6) {
            0 => { let v = r.r(0, 4095); s.push_str(&format!(" {}\n", equ(r, v))) }
            1 => s.push('\n'),
            2 => { a = r.r(0, 3000); s.push_str(&format!("\n{}\n", org(r, a))) }
            3 => { s.push_str(&format!(" {}\n", db(r, 4, 255))) }
            _ => { if r.p(1, 2) { s.push('\n') } else { s.push(' ') } let l = r.pick(&ls).clone(); let m = *r.pick(&["jp ", "call ", "ld i, ", "jp v0, "]); s.push_str(&format!("{}{}\n", m, l)); if r.p(1, 2) { s.push_str("cls\n") } }
        }
        let _ = a;
    }
    let n = r.n(5) + 1;
    for _ in 0..n { let l = r.pick(&ls).clone(); s.push_str(&format!("jp {}\n", l)); }
    if r.p(1, 6) { let l = r.pick(&ls).clone(); let x = near_name(r, &l); s.push_str(&format!("jp {}\n", x)); if r.p(1, 3) { s.push_str(&format!("{}: cls\n", x)); } }
    s
}
fn c05(r: &mut Rng) -> String {
    let k = 1 + r.n(4);
    let ls = labels(r, k);
    let mut v: Vec<String> = vec![];
    for l in &ls { v.push(match r.n(3) { 0 => { let x = r.r(0, 255); format!("{}: {}", l, equ(r, x)) } 1 => format!("{}:", l), _ => format!("{}: cls", l) }); }
    let n = r.n(5);
    for _ in 0..n { let l = r.pick(&ls).clone(); let m = *r.pick(&["jp ", "call ", "ld i, ", "ld v1, ", "se v2, ", "jp v0, ", "drw v1, v2, "]); v.push(format!("{}{}", m, l)); }
    match r.n(10) {
        0 => { let l = r.pick(&ls).clone(); v.push(match r.n(3) { 0 => format!("{}:", l), 1 => format!("{}: .equ 3", l), _ => format!("{}: ret", l) }) }
        1 => { let x = if r.p(1, 2) { label_name(r) } else { let l = r.pick(&ls).clone(); near_name(r, &l) }; v.push(format!("jp {}", x)); if r.p(1, 4) { v.push(format!("{}:", x)) } }
        2 => { let l0 = r.pick(&ls).to_string(); let l = case(r, &l0); v.push(format!("call {}", l)) }
        3 => { let x = r.r(0, 4095); v.push(equ(r, x)) }
        4 => { let l = r.pick(&ls).clone(); v.push(format!("{}x: .equ 1\n.equ 2", l)) }
        5 => { v.push(format!("q9:\n cls\n .equ 2")) }
        6 => { v.push(format!("q9:\n\n ; c\n .equ 2\n jp q9")) }
        7 => { let l = r.pick(&ls).clone(); let m = *r.pick(&["jp ", "call ", "ld i, ", "ld v1, ", "rnd v2, ", "jp v0, ", "drw v1, v2, ", "ld v0, ", "add v1, ", "sne v1, "]); v.push(format!("{}{}_", m, l)) }
        _ => {}
    }
    for i in (1..v.len()).rev() { if r.p(1, 2) { let j = r.n(i + 1); v.swap(i, j); } }
    join(r, &v)
}
fn c06(r: &mut Rng) -> String {
    let mut v = vec![];
    let mut a = 0i64;
    let n = 1 + r.n(20);
    for _ in 0..n {
        match r.n(8) {
            0 => { a = if r.p(3, 4) { (a + r.r(0, 100)).min(4000) } else { r.r(0, 4000) }; v.push(org(r, a)) }
            1 => { v.push(".db \"\"".into()) }
            2 => { v.push(format!("k{}: {}", v.len(), equ(r, 9))) }
            3 => { v.push(format!("k{}:", v.len())) }
            4 | 5 => { let n = 1 + r.n(20); let s: Vec<String> = (0..n).map(|_| r.n(256).to_string()).collect(); a += n as i64; v.push(format!(".db {}", s.join(","))) }
            _ => { a += 2; v.push(instr(r, &[])) }
        }
    }
    join(r, &v)
}
/// One-byte sections of which exactly `n` pairs overlap.
pub fn pairs(n: usize) -> String {
    let (mut left, mut s, mut a) = (n, String::new(), 0);
    while left > 0 { let mut c = 2; while (c + 1) * c / 2 <= left { c += 1 } for i in 0..c { s.push_str(&format!(".org {}\n.db {}\n", a, i % 256)) } left -= c * (c - 1) / 2; a += 2; }
    s
}
fn c07(k: u64, r: &mut Rng) -> String {
    // a few sections; small address space so that they touch, meet or enclose one another
    let n = 2 + if k % 20 == 0 { r.n(40) } else { r.n(4) };
    if k == 2 || k == 3 || k == 5 { return pairs(if k == 2 { 256 } else if k == 3 { 512 } else { 65536 }); }
    let base = if r.p(1, 6) { r.r(4040, 4094) } else { r.r(0, 4000) }; let span = 6 + r.n(if n > 8 { 600 } else { 40 }) as i64;
    let mut v = vec![];
    for _ in 0..n {
        let a = (base + r.r(0, span)).min(if r.p(1, 2) { 4094 } else { 4080 });
        v.push(org(r, a));
        let c = r.n(4);
        for _ in 0..c { match r.n(4) { 0 => v.push(".db \"\"".into()), 1 => { let m = 1 + r.n(9); let s: Vec<String> = (0..m).map(|_| "0".to_string()).collect(); v.push(format!(".db {}", s.join(","))) } 2 => v.push(".db 7".into()), _ => v.push("cls".into()) } }
    }
    join(r, &v)
}
fn c08(r: &mut Rng) -> String {
    let mut v = vec![];
    match r.n(6) {
        0 => { let a = r.r(4070, 4095); v.push(org(r, a)); let n = r.n(14); for _ in 0..n { v.push("cls".into()) } }
        1 => { let a = r.r(4000, 4095); v.push(org(r, a)); let m = r.r(0, 100) as usize; let s: Vec<String> = (0..m.max(1)).map(|i| (i % 256).to_string()).collect(); v.push(format!(".db {}", s.join(","))); if r.p(1, 3) { v.push("ret".into()) } }
        2 => { let m = r.r(4085, 4105) as usize; v.push(format!(".db \"{}\"", "x".repeat(m))); if r.p(1, 2) { v.push("z:".into()); v.push("jp z".into()) } }
        3 => { let a = *r.pick(&[0i64, 1, 5, 100, 4095]); if a > 0 { v.push(org(r, a)); } let m = *r.pick(&[4090usize, 4094, 4095, 4096, 4097, 5000, 8191, 8192, 8193, 65536, 65540, 70000]); v.push(format!(".db \"{}\"", "é".repeat(m / 2) + if m % 2 == 1 { "x" } else { "" })) }
        4 => { let mut left = r.r(4080, 4110); while left > 0 { let m = r.r(1, left.min(900)); v.push(format!(".db \"{}\"", "y".repeat(m as usize))); left -= m; } }
        _ => { let a = r.r(4085, 4095); v.push(org(r, a)); v.push("e: ".into()); let n = r.n(4); for _ in 0..n { match r.n(3) { 0 => v.push(".db 1".into()), 1 => v.push("cls".into()), _ => v.push(".db \"\"".into()) } } v.push("end:".into()); if r.p(1, 2) { v.insert(0, "jp end".into()) } }
    }
    join(r, &v)
}
fn c09(k: u64, r: &mut Rng) -> String {
    let mut v: Vec<String> = vec![];
    let bytes = |r: &mut Rng, n: usize| -> String { let c = *r.pick(&[0u8, 0xFF, 0x80, 0x10]); let uni = r.p(1, 3); (0..n).map(|_| if uni { c } else { r.next() as u8 }).map(|x| x.to_string()).collect::<Vec<_>>().join(",") };
    if k < 300 { let a = r.r(0, 3700); v.push(org(r, a)); if k > 0 { v.push(format!(".db {}", bytes(r, k as usize))); } }
    else if r.p(1, 6) { let n = r.r(1000, 4095) as usize; v.push(format!(".db {}", bytes(r, n))) }
    else {
        let mut a = r.r(0, 40);
        let n = r.n(8);
        for _ in 0..n { v.push(org(r, a)); let m = if r.p(1, 3) { 16 * (1 + r.n(4)) } else { r.n(50) }; if m > 0 { v.push(format!(".db {}", bytes(r, m))) } a += m as i64 + if r.p(1, 2) { 0 } else { r.r(1, 400) }; if a > 3900 { break } }
    }
    join(r, &v)
}
fn c10(k: u64, r: &mut Rng) -> String {
    let lit: String = if k < 4096 * 3 { let v = k / 3; match k % 3 { 0 => v.to_string(), 1 => format!("{}{:x}", if v % 2 == 0 { "$" } else { "#" }, v), _ => format!("%{:b}", v) } } else {
        match r.n(12) {
            0 => { let v = r.r(4090, 4100); v.to_string() }
            1 => { let b = *r.pick(&[12u32, 13, 16, 24, 31, 32, 33, 48, 63, 64, 65, 100]); let v = if b >= 120 { 0 } else { (1u128 << b) + r.n(300) as u128 }; match r.n(3) { 0 => v.to_string(), 1 => format!("%{:b}", v), _ => format!("%{:b}", v).replace('0', ".") } }
            2 => { let n = 1 + r.n(40); format!("%{}", (0..n).map(|_| *r.pick(&['0', '1', '.', '.', '0'])).collect::<String>()) }
            3 => { let n = 1 + r.n(120); format!("%{}{}", ".".repeat(n), (0..r.n(14)).map(|_| *r.pick(&['0', '1', '.'])).collect::<String>()) }
            4 => { let n = 1 + r.n(6); format!("{}{}", r.pick(&["$", "#"]), (0..n).map(|_| *r.pick(b"0123456789abcdefABCDEF") as char).collect::<String>()) }
            5 => { let n = 1 + r.n(30); format!("{}{}", "0".repeat(n), r.n(5000)) }
            6 => { let n = 1 + r.n(60); (0..n).map(|_| (b'0' + r.n(10) as u8) as char).collect::<String>() }
            7 => { format!("{}{}", r.pick(&["$", "#", "%", "$g", "#x", "%2", "$ ", "% 1", "0x", "0b1", "$-1", "-", "+1", "1_0", "$+1", "1.5", "%1.1.1", "%.", "%12"]), if r.p(1, 2) { r.n(20).to_string() } else { String::new() }) }
            8 => { format!("{}{}", r.n(300), r.pick(&["h", "H", "b", "d", "a", "_", "x1"])) }
            _ => { let v = r.r(0, 4095); num(r, v) }
        }
    };
    match r.n(6) {
        0 => format!("x: .equ {}\njp x\n", lit), 1 => format!(".org {}\na: jp a\n", lit), 2 => format!(".db {}\n", lit), 3 => format!("ld v{:x}, {}\n", r.n(16), lit), 4 => format!("ld i, {}\ncls\n", lit), _ => format!("jp {}\n", lit),
    }
}
fn c11(k: u64, r: &mut Rng) -> String {
    if k < 300 { return format!(".db {}, {}\n", k, num(r, k as i64)); }
    let mut v = vec![];
    let n = 1 + r.n(4);
    for _ in 0..n { let hi = if r.p(1, 8) { 300 } else { 255 }; let m = if r.p(1, 20) { 300 } else { 8 }; v.push(db(r, m, hi)); }
    if r.p(1, 3) { let m = r.n(60); v.push(format!(".db {}", string(r, m))) }
    if r.p(1, 8) { v.push(format!(".db \"{}", r.pick(&["abc", "abc\\", "abc\\\"", "", "a\nb", "a\"b\"", "\\\\\"", "\\\"\"", "a\\\nb\""]))) }
    if r.p(1, 8) { let i = r.n(v.len()); let t = r.pick(&[",", " ,1", ", ,", "1", " \"x\"", ", v0", ", lab", ","]).to_string(); v[i].push_str(&t) }
    join(r, &v)
}
fn c12(k: u64, r: &mut Rng) -> String {
    let name = if k % 4 == 1 { let t = nth_typo(&["org", "db", "equ"], k / 4).1; if t.is_empty() || t.as_bytes()[0].is_ascii_digit() { "dbx".into() } else { t } } else { match r.n(8) { 0 => r.pick(&["or", "orgg", "d", "dbb", "eq", "equu", "byte", "word", "dw", "_db", "db_", "db1", "o", "string", "include", "v0", "ORG1", "i", "cls", "label"]).to_string(), 1 | 2 => "org".into(), 3 | 4 => "db".into(), _ => "equ".into() } };
    let n = if r.p(1, 10) { r.n(20) } else { *r.pick(&[0usize, 1, 1, 1, 1, 2, 2, 3]) };
    let args: Vec<String> = (0..n).map(|_| match r.n(12) { 0 => string(r, 3), 1 => "\"\"".into(), 2 => "lab".into(), 3 => "v1".into(), 4 => "256".into(), 5 => "4095".into(), 6 => "4096".into(), 7 => "255".into(), _ => { let v = r.r(0, 300); num(r, v) } }).collect();
    let mut s = String::new();
    match r.n(4) { 0 => s.push_str("cls\n"), 1 => s.push_str("lab: "), 2 => s.push_str("lab:\n"), _ => {} }
    s.push('.'); s.push_str(&osp(r)); s.push_str(&case(r, &name)); s.push(' ');
    s.push_str(&args.join(r.pick(&[",", ", ", " , ", " "])));
    if r.p(1, 12) { s.push_str(", ") }
    if r.p(1, 12) { s.push_str(" ; c") }
    if r.p(9, 10) { s.push('\n') }
    if r.p(1, 2) { s.push_str("ret\n") }
    s
}
fn c13(k: u64, r: &mut Rng) -> Vec<u8> {
    let frag = ["ld", "v0", "V", "v", "[i]", "[I]", "[", "]", "\"", "\"a\"", "\\", ",", ":", ".", ";", "\n", " ", "\t", "$", "$f", "#", "%", "%1", "%.", "0", "4095", "4096", "99999999999999999999999", "é", "\u{1F600}", "\u{0}", "db", ".db ", ".org ", ".equ ", "lab:", "lab", "_", "@", "-", "+", "dt", "cls\n", "jp 5\n", "\r\n", "\u{feff}", "vé", "v\u{1F600}", "vv", "[é]", "v+", "v-", "\u{2028}", "\u{85}"];
    match k {
        0 => return vec![],
        1 => return b"\xff\xfe".to_vec(),
        2 => return format!(".db {}\n", vec!["1"; 200_000].join(",")).into_bytes(),
        3 => return format!("ld {}\n", vec!["v0"; 200_000].join(",")).into_bytes(),
        4 => return "\n".repeat(300_000).into_bytes(),
        5 => return "; c\n".repeat(100_000).into_bytes(),
        6 => return format!(".db \"{}\"\n", "a".repeat(1_000_000)).into_bytes(),
        7 => return format!("%{}\n", "1".repeat(100_000)).into_bytes(),
        8 => return format!("{}\n", "9".repeat(100_000)).into_bytes(),
        9 => return (0..20_000).map(|i| format!("l{}:\n", i)).collect::<String>().into_bytes(),
        10 => return format!("{}:\n", "a".repeat(500_000)).into_bytes(),
        11 => return (0..3000).map(|i| format!(".org {}\n.db 1\n", i)).collect::<String>().into_bytes(),
        12 => return format!(".db \"{}\n", "\\a".repeat(200_000)).into_bytes(),
        13 => return format!("jp v0{}\n", " ".repeat(300_000)).into_bytes(),
        14 => return (0..2000).map(|_| "cls\n.org 0\n".to_string()).collect::<String>().into_bytes(),
        15 => return "lab: ".repeat(50_000).into_bytes(),
        16 => return ".".repeat(200_000).into_bytes(),
        17 => return format!(".db {}", "\"\",".repeat(100_000)).into_bytes(),
        _ => {}
    }
    // very many statements, with and without a fault behind them
    if (24..32).contains(&k) {
        let i = k - 24; let unit = |j: usize| match i % 6 { 0 => ".org 1\n".to_string(), 1 => ".db \"\"\n".to_string(), 2 => format!("l{}:\n", j), 3 => ".org 9 cls\n".to_string(), 4 => format!("l{}: .equ 3\n", j), _ => ".org 2 .db 1,2\n".to_string() };
        let n = match i % 6 { 3 | 5 => 3_000, 0 | 1 => 400_000, _ => 120_000 };
        let mut s: String = (0..n).map(unit).collect();
        s.push_str(if i < 6 { "@" } else { "ld v1, nowhere" });
        return s.into_bytes();
    }
    match r.n(6) {
        0 | 1 | 2 => { let n = r.n(14); (0..n).map(|_| { let mut s = r.pick(&frag).to_string(); if r.p(1, 3) { s.push(' ') } s }).collect::<String>().into_bytes() }
        3 => { let p = program(r); let c: Vec<char> = p.chars().collect(); let n = r.n(c.len() + 1); c[..n].iter().collect::<String>().into_bytes() }
        4 => { let mut p: Vec<char> = program(r).chars().collect(); for _ in 0..1 + r.n(3) { if p.is_empty() { break } let i = r.n(p.len()); match r.n(3) { 0 => { p.remove(i); } 1 => { p.insert(i, *r.pick(&['"', '\\', ',', ':', '.', '$', '%', '[', '\n', 'é', '\u{1F600}', ';', '0', 'v', '-'])) } _ => { p[i] = (r.n(128) as u8) as char } } } p.into_iter().collect::<String>().into_bytes() }
        _ => { let n = r.n(40); let t: Vec<u8> = (0..n).map(|_| if r.p(1, 8) { r.next() as u8 } else { r.n(128) as u8 }).collect(); t }
    }
}
fn c14(r: &mut Rng) -> String { match r.n(4) { 0 => program(r), 1 => String::from_utf8_lossy(&{ let k = 100 + r.next() % 1000; c13(k, r) }).into_owned(), 2 => c07(1, r), _ => c05(r) } }
fn c15(r: &mut Rng) -> String {
    // an otherwise valid text with one fault somewhere, at an odd column
    let mut lines: Vec<String> = program(r).split('\n').map(|s| s.to_string()).collect();
    let bad = r.pick(&["foo v1", "ld v1, 256", "jp nolabel_", "@", "$", "%", "%1111111111111", "5000", "[x]", ".db 256", ".org", ".foo 1", ".org \"x\"", ".equ 5", "ld v1 v2", "cls,", ", cls", "\"str\"", "5", ".5", ". db 1", ".db", ".db lab", ".db 1 2", "dup_: dup_:", "\"unterminated", "é", "ld v1,, v2", "dup_:\n\n dup_:", ".db \"a\nb\", 300", "v1:", ".db 1, \"x\ny\" \"z\"", "drw v1, v2, 16", ":", "a:b:c", "ld \"x\nyy\"", "ld v1, \"é\"", ".org 4095\nld v0, v0"]).to_string();
    let i = r.n(lines.len());
    let pre: String = (0..r.n(6)).map(|_| *r.pick(&[' ', '\t', '\u{3000}', '\r'])).collect();
    let mid = if r.p(1, 3) { "q_: " } else { "" };
    if r.p(1, 3) { let d = format!(".db \"x\né\" {}{}", pre, ""); lines.insert(i, d.trim_end().to_string()); }
    lines.insert(i, format!("{}{}{}{}", pre, mid, bad, if r.p(1, 3) { " ; é" } else { "" }));
    lines.join("\n")
}
fn c16(r: &mut Rng) -> String {
    // tokens of a program re-spaced, with comments and blank lines where they may stand
    let p = program(r);
    let chars: Vec<char> = p.chars().collect();
    let toks = crate::lang::lex(&p);
    let _ = toks;
    let mut out = String::new();
    let mut i = 0; let mut instr_line_start = true;
    while i < chars.len() {
        let c = chars[i];
        if c == '"' { let mut j = i + 1; while j < chars.len() && chars[j] != '"' { if chars[j] == '\\' { j += 1 } j += 1; } let j = (j + 1).min(chars.len()); out.extend(&chars[i..j]); i = j; continue; }
        if c == ';' { while i < chars.len() && chars[i] != '\n' { out.push(chars[i]); i += 1; } continue; }
        if c == '\n' {
            match r.n(8) { 0 => out.push_str(" ;c\"x"), 1 => out.push_str("\t \r"), 2 => out.push_str("\n \n\t;only a comment ; jp 5\n"), 3 => out.push_str(r.pick(WS)), 4 => { out.push_str("; ld v0, 1 \\"); } _ => {} }
            out.push('\n'); i += 1; instr_line_start = true; continue;
        }
        if c == ' ' || c == ',' || c == ':' { for _ in 0..r.n(3) { out.push_str(r.pick(WS)); } if c != ' ' { out.push(c) } else { out.push_str(r.pick(WS)) } for _ in 0..r.n(3) { out.push_str(r.pick(WS)); } i += 1; continue; }
        if instr_line_start && r.p(1, 3) { out.push_str(r.pick(WS)); }
        instr_line_start = false;
        out.push(c); i += 1;
    }
    match r.n(6) { 0 => out.push_str("; end without newline"), 1 => out.push_str("\n\n   "), 2 => { out.insert_str(0, "\n;first\n\n") } _ => {} }
    out
}
fn c17(r: &mut Rng) -> String {
    // token sequences: valid statements with tokens dropped, doubled, swapped or several per line
    let ts = ["ld", "v1", "v2", ",", ":", ".", "db", "org", "equ", "5", "300", "\"s\"", "\n", "; c", "lab", "jp", "cls", "[i]", "i", "\n", "@", "$12", "dt"];
    let mut v: Vec<String> = vec![];
    if r.p(1, 6) {
        let n = r.n(4);
        let mut t = String::from("lab: .equ 7\n");
        for _ in 0..n { t.push_str(&instr(r, &[])); t.push('\n'); }
        match r.n(3) {
            0 => { let k = 1 + r.n(20); t.push_str(&format!(".db {}\n", (0..k).map(|i| i.to_string()).collect::<Vec<_>>().join(", "))) }
            1 => { let d = *r.pick(&["org", "equ"]); let k = 2 + r.n(12); t.push_str(&format!("x_: .{} {}\n", d, (0..k).map(|i| i.to_string()).collect::<Vec<_>>().join(", "))) }
            _ => { t.push_str(&surplus(r)); t.push('\n') }
        }
        for _ in 0..r.n(3) { t.push_str(&instr(r, &[])); t.push('\n'); }
        return t;
    }
    if r.p(1, 2) {
        let n = 1 + r.n(10);
        for _ in 0..n { v.push(r.pick(&ts).to_string()) }
    } else {
        let n = 1 + r.n(5);
        for _ in 0..n {
            match r.n(6) {
                0 => v.extend(["lab", ":"].iter().map(|s| s.to_string())),
                1 => v.extend([".", "db", "5", ",", "\"s\""].iter().map(|s| s.to_string())),
                2 => v.extend([".", "org", "300"].iter().map(|s| s.to_string())),
                3 => v.extend(["jp", "300"].iter().map(|s| s.to_string())),
                4 => v.extend(["cls"].iter().map(|s| s.to_string())),
                _ => v.extend(["ld", "v1", ",", "v2"].iter().map(|s| s.to_string())),
            }
            if r.p(5, 6) { v.push("\n".into()) }
        }
        for _ in 0..r.n(3) { if v.is_empty() { break } let i = r.n(v.len()); match r.n(4) { 0 => { v.remove(i); } 1 => { let x = v[i].clone(); v.insert(i, x) } 2 => { let j = r.n(v.len()); v.swap(i, j) } _ => { v.insert(i, r.pick(&ts).to_string()) } } }
    }
    let mut s = String::new();
    for t in &v { s.push_str(t); if t == "; c" { s.push('\n') } else if t != "\n" && r.p(2, 3) { s.push(' ') } }
    if r.p(2, 3) { s.push('\n') }
    s
}
