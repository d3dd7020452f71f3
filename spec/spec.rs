// The specification: what c8s is supposed to compute, as mathematics over character and byte
// sequences. Nothing in this file refers to the code.
pub mod spec {
use vstd::prelude::*;
use crate::prelude::*;
verus! {

// ================================================================ source locations and tokens
pub struct LocV { pub file: Seq<char>, pub line: int, pub col: int, pub len: int }
pub enum LexErr { BadString, BadHex, DecRange(Seq<char>), BadDec, BadBin, BinRange(Seq<char>), BadIdent, BadIndirect, BadChar(char) }
pub enum K { Comment(Seq<char>), Dot, Ident(Seq<char>), Colon, Str(Seq<char>), Num(int), Comma, Nl, Err(LexErr) }
pub struct TokV { pub k: K, pub loc: LocV }
pub open spec fn loc_ok(l: LocV) -> bool { l.line >= 1 && l.col >= 1 && l.len >= 1 && l.col + l.len <= usize::MAX }
/// FILE:LINE:COLUMN, or FILE:LINE:FIRST-LAST for a token of several characters.
pub open spec fn loc_text(l: LocV) -> Seq<char> {
    let c = l.file + ":"@ + dec(l.line as nat) + ":"@ + dec(l.col as nat);
    if l.len == 1 { c } else { c + "-"@ + dec((l.col + l.len - 1) as nat) }
}
/// What a diagnostic about the text at `l` starts with.
pub open spec fn diag_head(l: LocV) -> Seq<char> { loc_text(l) + ": "@ + "error: "@ }
pub open spec fn starts(t: Seq<char>, p: Seq<char>) -> bool { pre(p, t) }

// ---------------------------------------------------------------- character classes
/// White space other than the newline (Unicode White_Space).
pub open spec fn is_ws(c: char) -> bool {
    let n = c as u32;
    (9 <= n <= 13 && n != 10) || n == 32 || n == 0x85 || n == 0xA0 || n == 0x1680 || (0x2000 <= n <= 0x200A)
        || n == 0x2028 || n == 0x2029 || n == 0x202F || n == 0x205F || n == 0x3000
}
pub open spec fn is_digit(c: char) -> bool { '0' <= c && c <= '9' }
pub open spec fn is_hex(c: char) -> bool { is_digit(c) || ('a' <= c && c <= 'f') || ('A' <= c && c <= 'F') }
pub open spec fn is_bin(c: char) -> bool { c == '0' || c == '1' || c == '.' }
pub open spec fn is_alpha_(c: char) -> bool { c == '_' || ('a' <= c && c <= 'z') || ('A' <= c && c <= 'Z') }
pub open spec fn is_identc(c: char) -> bool { is_alpha_(c) || is_digit(c) }
pub open spec fn not_nl(c: char) -> bool { c != '\n' }

/// Length of the longest prefix of `s` whose characters satisfy `p`.
pub open spec fn run(s: Seq<char>, p: spec_fn(char) -> bool) -> nat decreases s.len() {
    if s.len() > 0 && p(s[0]) { 1 + run(s.skip(1), p) } else { 0 }
}
pub proof fn lemma_run(s: Seq<char>, p: spec_fn(char) -> bool)
    ensures run(s, p) <= s.len(),
        forall|i: int| 0 <= i < run(s, p) ==> p(#[trigger] s[i]),
        run(s, p) < s.len() ==> !p(s[run(s, p) as int]),
    decreases s.len()
{
    if s.len() > 0 && p(s[0]) {
        lemma_run(s.skip(1), p);
        assert forall|i: int| 0 <= i < run(s, p) implies p(#[trigger] s[i]) by { if i > 0 { assert(s[i] == s.skip(1)[i - 1]); } }
    }
}
pub proof fn lemma_run_ext(s: Seq<char>, p: spec_fn(char) -> bool, q: spec_fn(char) -> bool)
    requires forall|c: char| #[trigger] p(c) == q(c)
    ensures run(s, p) == run(s, q)
    decreases s.len()
{
    if s.len() > 0 && p(s[0]) { lemma_run_ext(s.skip(1), p, q); }
}
/// The longest prefix is the one that stops at the first character outside the class.
pub proof fn lemma_run_is(s: Seq<char>, p: spec_fn(char) -> bool, n: int)
    requires 0 <= n <= s.len(), forall|i: int| 0 <= i < n ==> p(#[trigger] s[i]), n < s.len() ==> !p(s[n])
    ensures run(s, p) == n
{
    lemma_run(s, p);
    let r = run(s, p) as int;
    if r < n { assert(p(s[r])); }
    if n < r { assert(p(s[n])); }
}
/// Anchored search: result of `Regex::find` for a pattern whose match length is `m`.
pub open spec fn find_res(s: Seq<char>, m: Option<int>, r: Option<(usize, usize)>) -> bool {
    match m {
        Some(n) => r is Some && r->Some_0.0 == 0 && r->Some_0.1 == blen(s.take(n)),
        None => r is None,
    }
}

// ---------------------------------------------------------------- lexical grammar
/// Characters of a string literal's body: anything but `"` and `\`, or `\` followed by a non-newline.
pub open spec fn str_body(s: Seq<char>) -> nat decreases s.len() {
    if s.len() >= 1 && s[0] != '"' && s[0] != '\\' { 1 + str_body(s.skip(1)) }
    else if s.len() >= 2 && s[0] == '\\' && s[1] != '\n' { 2 + str_body(s.skip(2)) }
    else { 0 }
}
pub open spec fn m_ws(s: Seq<char>) -> Option<int> { let k = run(s, |c: char| is_ws(c)) as int; if k < 1 { None } else { Some(k) } }
pub open spec fn m_str(s: Seq<char>) -> Option<int> {
    if s.len() < 1 || s[0] != '"' { None } else {
        let i = 1 + str_body(s.skip(1)) as int;
        if i < s.len() && s[i] == '"' { Some(i + 1) } else { None }
    }
}
pub open spec fn m_hex(s: Seq<char>) -> Option<int> {
    if s.len() < 1 || (s[0] != '$' && s[0] != '#') { None } else {
        let r = run(s.skip(1), |c: char| is_hex(c)) as int;
        let k = if r > 3 { 3 } else { r };
        if k < 1 { None } else { Some(1 + k) }
    }
}
pub open spec fn m_bin(s: Seq<char>) -> Option<int> {
    if s.len() < 1 || s[0] != '%' { None } else {
        let k = run(s.skip(1), |c: char| is_bin(c)) as int;
        if k < 1 { None } else { Some(1 + k) }
    }
}
pub open spec fn m_dec(s: Seq<char>) -> Option<int> { let k = run(s, |c: char| is_digit(c)) as int; if k < 1 { None } else { Some(k) } }
pub open spec fn m_ident(s: Seq<char>) -> Option<int> {
    if s.len() < 1 || !is_alpha_(s[0]) { None } else { Some(1 + run(s.skip(1), |c: char| is_identc(c)) as int) }
}
pub open spec fn m_indirect(s: Seq<char>) -> Option<int> {
    if s.len() >= 3 && s[0] == '[' && (s[1] == 'i' || s[1] == 'I') && s[2] == ']' { Some(3) } else { None }
}
/// The number written by binary digits, `.` standing for 0.
pub open spec fn bit(c: char) -> int { if c == '1' { 1 } else { 0 } }
pub open spec fn bval(s: Seq<char>) -> int decreases s.len() { if s.len() == 0 { 0 } else { bval(s.drop_last()) * 2 + bit(s.last()) } }

/// The token at the very start of `s` (s nonempty, no leading white space) and its length.
/// For a malformed token the length is what its location covers.
pub open spec fn lex1(s: Seq<char>) -> (int, K) {
    let c = s[0];
    if c == ';' { let n = run(s, |c: char| not_nl(c)) as int; (n, K::Comment(s.take(n))) }
    else if c == '.' { (1, K::Dot) }
    else if c == ':' { (1, K::Colon) }
    else if c == ',' { (1, K::Comma) }
    else if c == '\n' { (1, K::Nl) }
    else if c == '"' { match m_str(s) { Some(n) => (n, K::Str(s.subrange(1, n - 1))), None => (1, K::Err(LexErr::BadString)) } }
    else if c == '$' || c == '#' { match m_hex(s) { Some(n) => (n, K::Num(val(s.subrange(1, n), 16))), None => (1, K::Err(LexErr::BadHex)) } }
    else if c == '%' {
        match m_bin(s) {
            Some(n) => { let v = bval(s.subrange(1, n)); if v <= 4095 { (n, K::Num(v)) } else { (n, K::Err(LexErr::BinRange(s.subrange(1, n)))) } }
            None => (1, K::Err(LexErr::BadBin)),
        }
    }
    else if c == '[' { match m_indirect(s) { Some(n) => (n, K::Ident(s.take(n))), None => (1, K::Err(LexErr::BadIndirect)) } }
    else if is_digit(c) {
        match m_dec(s) {
            Some(n) => { let v = val(s.take(n), 10); if v <= 4095 { (n, K::Num(v)) } else { (n, K::Err(LexErr::DecRange(s.take(n)))) } }
            None => (1, K::Err(LexErr::BadDec)),
        }
    }
    else if is_alpha_(c) { match m_ident(s) { Some(n) => (n, K::Ident(s.take(n))), None => (1, K::Err(LexErr::BadIdent)) } }
    else { (1, K::Err(LexErr::BadChar(c))) }
}
/// Line and column after the text `s`.
#[verifier::opaque]
pub open spec fn adv(line: int, col: int, s: Seq<char>) -> (int, int) decreases s.len() {
    if s.len() == 0 { (line, col) } else {
        let (l, c) = adv(line, col, s.drop_last());
        if s.last() == '\n' { (l + 1, 1) } else { (l, c + 1) }
    }
}
/// Number of characters of `s` on its first line, the newline included.
#[verifier::opaque]
pub open spec fn first_line(s: Seq<char>) -> int {
    let n = run(s, |c: char| not_nl(c)) as int;
    if n < s.len() { n + 1 } else { n }
}
/// The tokens of a text. A malformed token is the last one.
pub open spec fn tokens(s: Seq<char>, file: Seq<char>, line: int, col: int) -> Seq<TokV> decreases s.len() {
    let w = run(s, |c: char| is_ws(c)) as int;
    let t = s.skip(w);
    let col2 = col + w;
    if w > s.len() || t.len() == 0 { Seq::empty() } else {
        let (n, k) = lex1(t);
        let tok = TokV { k, loc: LocV { file, line, col: col2, len: first_line(t.take(n)) } };
        if k is Err || n < 1 || n > t.len() { seq![tok] } else {
            let (l2, c2) = adv(line, col2, t.take(n));
            seq![tok] + tokens(t.skip(n), file, l2, c2)
        }
    }
}

// ================================================================ syntax
pub enum LitV { Str(Seq<char>), Num(int) }
pub enum FieldV { Num(int), Reg(int), DT, ST, Key, I, II, B, F, Id(Seq<char>) }
pub enum NodeV {
    Dir { loc: LocV, name: Seq<char>, args: Seq<LitV> },
    Label { loc: LocV, name: Seq<char> },
    Instr { loc: LocV, name: Seq<char>, fields: Seq<FieldV> },
}
impl NodeV {
    pub open spec fn loc(self) -> LocV { match self { NodeV::Dir { loc, .. } => loc, NodeV::Label { loc, .. } => loc, NodeV::Instr { loc, .. } => loc } }
}
/// A syntax error: at the end of the text, or at a token.
pub enum PErrV { Eof, At(TokV) }
pub open spec fn perr_head(e: PErrV) -> Seq<char> { match e { PErrV::At(t) => diag_head(t.loc), PErrV::Eof => "error: "@ } }
pub enum PR<T> { Ok(T, Seq<TokV>), Err(PErrV) }
pub open spec fn unexpected(ts: Seq<TokV>) -> PErrV { if ts.len() == 0 { PErrV::Eof } else { PErrV::At(ts[0]) } }

/// literal_list: literals separated by commas, ended by anything else; empty only before a newline.
pub open spec fn g_lits(ts: Seq<TokV>, acc: Seq<LitV>) -> PR<Seq<LitV>> decreases ts.len() {
    if ts.len() > 0 && ts[0].k is Nl { PR::Ok(acc, ts) }
    else if ts.len() > 0 && (ts[0].k is Str || ts[0].k is Num) {
        let l = match ts[0].k { K::Str(s) => LitV::Str(s), K::Num(n) => LitV::Num(n), _ => LitV::Num(0) };
        let acc2 = acc.push(l);
        let rest = ts.skip(1);
        if rest.len() > 0 && rest[0].k is Comma { g_lits(rest.skip(1), acc2) } else { PR::Ok(acc2, rest) }
    } else { PR::Err(unexpected(ts)) }
}
/// What an identifier denotes as an operand: a register in any letter case, or a label.
pub open spec fn field_of(id: Seq<char>) -> FieldV {
    let l = lower(id);
    if l == seq!['d', 't'] { FieldV::DT }
    else if l == seq!['s', 't'] { FieldV::ST }
    else if l == seq!['i'] { FieldV::I }
    else if l == seq!['[', 'i', ']'] { FieldV::II }
    else if l == seq!['k'] { FieldV::Key }
    else if l == seq!['b'] { FieldV::B }
    else if l == seq!['f'] { FieldV::F }
    else if l.len() == 2 && l[0] == 'v' && is_hex(l[1]) { FieldV::Reg(dig(l[1])) }
    else { FieldV::Id(id) }
}
/// field_list: fields separated by commas; empty only before a newline or a comment.
pub open spec fn g_fields(ts: Seq<TokV>, acc: Seq<FieldV>) -> PR<Seq<FieldV>> decreases ts.len() {
    if ts.len() > 0 && (ts[0].k is Nl || ts[0].k is Comment) { PR::Ok(acc, ts) }
    else if ts.len() > 0 && (ts[0].k is Num || ts[0].k is Ident) {
        let f = match ts[0].k { K::Num(n) => FieldV::Num(n), K::Ident(s) => field_of(s), _ => FieldV::B };
        let acc2 = acc.push(f);
        let rest = ts.skip(1);
        if rest.len() > 0 && rest[0].k is Comma { g_fields(rest.skip(1), acc2) } else { PR::Ok(acc2, rest) }
    } else { PR::Err(unexpected(ts)) }
}
pub open spec fn g_dir(ts: Seq<TokV>) -> PR<NodeV> {
    if ts.len() == 0 || !(ts[0].k is Dot) { PR::Err(unexpected(ts)) }
    else if ts.len() < 2 || !(ts[1].k is Ident) { PR::Err(unexpected(ts.skip(1))) }
    else { match g_lits(ts.skip(2), Seq::empty()) {
        PR::Ok(args, rest) => PR::Ok(NodeV::Dir { loc: ts[1].loc, name: ts[1].k->Ident_0, args }, rest),
        PR::Err(e) => PR::Err(e),
    } }
}
pub open spec fn g_label(ts: Seq<TokV>) -> PR<NodeV> {
    if ts.len() == 0 || !(ts[0].k is Ident) { PR::Err(unexpected(ts)) }
    else if ts.len() < 2 || !(ts[1].k is Colon) { PR::Err(unexpected(ts.skip(1))) }
    else { PR::Ok(NodeV::Label { loc: ts[0].loc, name: ts[0].k->Ident_0 }, ts.skip(2)) }
}
pub open spec fn g_instr(ts: Seq<TokV>) -> PR<NodeV> {
    if ts.len() == 0 || !(ts[0].k is Ident) { PR::Err(unexpected(ts)) }
    else { match g_fields(ts.skip(1), Seq::empty()) {
        PR::Ok(fields, rest) => PR::Ok(NodeV::Instr { loc: ts[0].loc, name: ts[0].k->Ident_0, fields }, rest),
        PR::Err(e) => PR::Err(e),
    } }
}
/// statement ::= directive | label | instruction
pub open spec fn g_stmt(ts: Seq<TokV>) -> PR<NodeV> {
    if ts.len() > 0 && ts[0].k is Dot { g_dir(ts) }
    else if ts.len() > 1 && ts[0].k is Ident && ts[1].k is Colon { g_label(ts) }
    else if ts.len() > 0 && ts[0].k is Ident { g_instr(ts) }
    else { PR::Err(unexpected(ts)) }
}
pub enum GR { Ok(Seq<NodeV>), Err(PErrV) }
/// The whole text: statements, comments and newlines up to the end.
pub open spec fn g_stmts(ts: Seq<TokV>, acc: Seq<NodeV>) -> GR decreases ts.len() {
    if ts.len() == 0 { GR::Ok(acc) }
    else if ts[0].k is Comment || ts[0].k is Nl { g_stmts(ts.skip(1), acc) }
    else { match g_stmt(ts) {
        PR::Ok(n, rest) => if rest.len() < ts.len() { g_stmts(rest, acc.push(n)) } else { GR::Ok(acc) },
        PR::Err(e) => GR::Err(e),
    } }
}

// ================================================================ directives
pub enum DirV { Org(int), Db(Seq<u8>), Equ(int) }
pub open spec fn lit_bytes(l: LitV) -> Seq<u8> { match l { LitV::Num(n) => seq![n as u8], LitV::Str(s) => encode_utf8(s) } }
pub open spec fn lits_bytes(a: Seq<LitV>) -> Seq<u8> decreases a.len() { if a.len() == 0 { Seq::empty() } else { lits_bytes(a.drop_last()) + lit_bytes(a.last()) } }
pub open spec fn byte_ok(l: LitV) -> bool { match l { LitV::Num(n) => n <= 255, LitV::Str(_) => true } }
pub open spec fn one_num(a: Seq<LitV>) -> Option<int> { if a.len() == 1 { match a[0] { LitV::Num(n) => if n <= 4095 { Some(n) } else { None }, _ => None } } else { None } }
/// The meaning of a directive, None where it is malformed.
pub open spec fn dir_of(name: Seq<char>, args: Seq<LitV>) -> Option<DirV> {
    let l = lower(name);
    if l == seq!['o', 'r', 'g'] { match one_num(args) { Some(n) => Some(DirV::Org(n)), None => None } }
    else if l == seq!['e', 'q', 'u'] { match one_num(args) { Some(n) => Some(DirV::Equ(n)), None => None } }
    else if l == seq!['d', 'b'] { if args.len() > 0 && (forall|i: int| 0 <= i < args.len() ==> byte_ok(#[trigger] args[i])) { Some(DirV::Db(lits_bytes(args))) } else { None } }
    else { None }
}

// ================================================================ instructions
/// The value of an operand that denotes one.
pub open spec fn value(f: FieldV, labels: Map<Seq<char>, int>) -> Option<int> {
    match f { FieldV::Num(n) => Some(n), FieldV::Id(l) => if labels.dom().contains(l) { Some(labels[l]) } else { None }, _ => None }
}
pub open spec fn w12(hi: int, v: Option<int>) -> Option<int> { match v { Some(n) => Some(hi * 4096 + n), None => None } }
pub open spec fn w8(hi: int, x: int, v: Option<int>) -> Option<int> { match v { Some(n) => if n <= 255 { Some(hi * 4096 + x * 256 + n) } else { None }, None => None } }
pub open spec fn wxy(hi: int, x: int, y: int, lo: int) -> Option<int> { Some(hi * 4096 + x * 256 + y * 16 + lo) }
/// The opcode table: the instruction word of a mnemonic (lower case) and its operands; None where
/// there is no such instruction or an operand has no admissible value.
pub open spec fn enc(m: Seq<char>, f: Seq<FieldV>, labels: Map<Seq<char>, int>) -> Option<int> {
    if f.len() == 0 { enc0(m) } else if f.len() == 1 { enc1(m, f[0], labels) } else if f.len() == 2 { enc2(m, f[0], f[1], labels) } else if f.len() == 3 { enc3(m, f[0], f[1], f[2], labels) } else { None }
}
pub open spec fn enc0(m: Seq<char>) -> Option<int> {
    if m == "nop"@ { Some(0x0000) }
    else if m == "cls"@ { Some(0x00E0) }
    else if m == "ret"@ { Some(0x00EE) }
    else if m == "trapret"@ { Some(0x00F9) }
    else if m == "trap"@ { Some(0x00FA) }
    else { None }
}
pub open spec fn enc1(m: Seq<char>, a: FieldV, labels: Map<Seq<char>, int>) -> Option<int> {
    if m == "jp"@ { w12(0x1, value(a, labels)) }
    else if m == "call"@ { w12(0x2, value(a, labels)) }
    else { match a {
        FieldV::Reg(x) =>
            if m == "shr"@ { wxy(0x8, x, 0, 0x6) }
            else if m == "shl"@ { wxy(0x8, x, 0, 0xE) }
            else if m == "skp"@ { Some(0xE09E + x * 256) }
            else if m == "sknp"@ { Some(0xE0A1 + x * 256) }
            else { None },
        _ => None,
    } }
}
pub open spec fn enc2(m: Seq<char>, a: FieldV, b: FieldV, labels: Map<Seq<char>, int>) -> Option<int> {
    match a {
        FieldV::Reg(x) => match b {
            FieldV::Reg(y) =>
                if m == "se"@ { wxy(0x5, x, y, 0x0) }
                else if m == "ld"@ { wxy(0x8, x, y, 0x0) }
                else if m == "or"@ { wxy(0x8, x, y, 0x1) }
                else if m == "and"@ { wxy(0x8, x, y, 0x2) }
                else if m == "xor"@ { wxy(0x8, x, y, 0x3) }
                else if m == "add"@ { wxy(0x8, x, y, 0x4) }
                else if m == "sub"@ { wxy(0x8, x, y, 0x5) }
                else if m == "subn"@ { wxy(0x8, x, y, 0x7) }
                else if m == "sne"@ { wxy(0x9, x, y, 0x0) }
                else { None },
            FieldV::Num(_) | FieldV::Id(_) =>
                if m == "se"@ { w8(0x3, x, value(b, labels)) }
                else if m == "sne"@ { w8(0x4, x, value(b, labels)) }
                else if m == "ld"@ { w8(0x6, x, value(b, labels)) }
                else if m == "add"@ { w8(0x7, x, value(b, labels)) }
                else if m == "rnd"@ { w8(0xC, x, value(b, labels)) }
                else if m == "jp"@ && x == 0 { w12(0xB, value(b, labels)) }
                else { None },
            FieldV::DT => if m == "ld"@ { Some(0xF007 + x * 256) } else { None },
            FieldV::Key => if m == "ld"@ { Some(0xF00A + x * 256) } else { None },
            FieldV::II => if m == "ld"@ { Some(0xF065 + x * 256) } else { None },
            _ => None,
        },
        FieldV::I => match b {
            FieldV::Reg(x) => if m == "add"@ { Some(0xF01E + x * 256) } else { None },
            FieldV::Num(_) | FieldV::Id(_) => if m == "ld"@ { w12(0xA, value(b, labels)) } else { None },
            FieldV::II => if m == "ld"@ { Some(0x00F8) } else { None },
            _ => None,
        },
        FieldV::DT => match b { FieldV::Reg(x) => if m == "ld"@ { Some(0xF015 + x * 256) } else { None }, _ => None },
        FieldV::ST => match b { FieldV::Reg(x) => if m == "ld"@ { Some(0xF018 + x * 256) } else { None }, _ => None },
        FieldV::F => match b { FieldV::Reg(x) => if m == "ld"@ { Some(0xF029 + x * 256) } else { None }, _ => None },
        FieldV::B => match b { FieldV::Reg(x) => if m == "ld"@ { Some(0xF033 + x * 256) } else { None }, _ => None },
        FieldV::II => match b { FieldV::Reg(x) => if m == "ld"@ { Some(0xF055 + x * 256) } else { None }, _ => None },
        _ => None,
    }
}
pub open spec fn enc3(m: Seq<char>, a: FieldV, b: FieldV, c: FieldV, labels: Map<Seq<char>, int>) -> Option<int> {
    match (a, b) {
        (FieldV::Reg(x), FieldV::Reg(y)) => if m == "drw"@ { match value(c, labels) { Some(n) => if n <= 15 { wxy(0xD, x, y, n) } else { None }, None => None } } else { None },
        _ => None,
    }
}
pub open spec fn word_bytes(w: int) -> Seq<u8> { seq![(w / 256) as u8, (w % 256) as u8] }
pub open spec fn field_ok(f: FieldV) -> bool { match f { FieldV::Num(n) => 0 <= n <= 4095, FieldV::Reg(x) => 0 <= x <= 15, FieldV::Id(s) => true, _ => true } }
pub open spec fn fields_ok(f: Seq<FieldV>) -> bool { forall|i: int| 0 <= i < f.len() ==> field_ok(#[trigger] f[i]) }
pub open spec fn lit_ok(l: LitV) -> bool { match l { LitV::Num(n) => 0 <= n <= 4095, LitV::Str(s) => blen(s) <= isize::MAX } }
pub open spec fn lits_ok(f: Seq<LitV>) -> bool { forall|i: int| 0 <= i < f.len() ==> lit_ok(#[trigger] f[i]) }
pub open spec fn node_wf(n: NodeV) -> bool { match n {
    NodeV::Dir { loc, name, args } => loc_ok(loc) && is_ascii(name) && lits_ok(args),
    NodeV::Label { loc, name } => loc_ok(loc) && is_ascii(name),
    NodeV::Instr { loc, name, fields } => loc_ok(loc) && is_ascii(name) && fields_ok(fields),
} }
pub open spec fn nodes_wf(ns: Seq<NodeV>) -> bool { forall|i: int| 0 <= i < ns.len() ==> node_wf(#[trigger] ns[i]) }
pub open spec fn tok_ok(t: TokV) -> bool { loc_ok(t.loc) && match t.k { K::Num(n) => 0 <= n <= 4095, K::Ident(s) => is_ascii(s), K::Str(s) => blen(s) <= isize::MAX, _ => true } }
pub open spec fn toks_ok(ts: Seq<TokV>) -> bool { forall|i: int| 0 <= i < ts.len() ==> tok_ok(#[trigger] ts[i]) }

// ================================================================ layout
pub open spec fn as_dir(n: NodeV) -> Option<DirV> { match n { NodeV::Dir { loc, name, args } => dir_of(name, args), _ => None } }
pub open spec fn as_equ(n: NodeV) -> Option<int> { match as_dir(n) { Some(DirV::Equ(c)) => Some(c), _ => None } }
/// The address counter after a statement.
pub open spec fn step(n: NodeV, a: int) -> int {
    match n {
        NodeV::Instr { .. } => a + 2,
        NodeV::Label { .. } => a,
        NodeV::Dir { .. } => match as_dir(n) { Some(DirV::Org(x)) => x, Some(DirV::Db(b)) => a + b.len(), _ => a },
    }
}
/// The address counter in front of statement i: 0 at the start of the program.
pub open spec fn counter(ns: Seq<NodeV>, i: int) -> int decreases i { if i <= 0 { 0 } else { step(ns[i - 1], counter(ns, i - 1)) } }
/// A label's value: the constant of the .EQU right after it, otherwise the address counter.
pub open spec fn label_value(ns: Seq<NodeV>, i: int) -> int {
    if i + 1 < ns.len() && as_equ(ns[i + 1]) is Some { as_equ(ns[i + 1])->Some_0 } else { counter(ns, i) }
}
pub open spec fn is_label(n: NodeV) -> bool { n is Label }
pub open spec fn defines(n: NodeV, name: Seq<char>) -> bool { n is Label && n->Label_name == name }
pub open spec fn defined_before(ns: Seq<NodeV>, i: int, name: Seq<char>) -> bool { exists|j: int| 0 <= j < i && defines(#[trigger] ns[j], name) }
/// Statement i is acceptable in the first pass.
pub open spec fn ok1(ns: Seq<NodeV>, i: int) -> bool {
    match ns[i] {
        NodeV::Label { loc, name } => !defined_before(ns, i, name),
        NodeV::Instr { .. } => counter(ns, i) + 2 <= 4095,
        NodeV::Dir { .. } => match as_dir(ns[i]) {
            None => false,
            Some(DirV::Org(_)) => true,
            Some(DirV::Db(b)) => b.len() <= 4095 && counter(ns, i) + b.len() <= 4095,
            Some(DirV::Equ(_)) => i > 0 && ns[i - 1] is Label,
        },
    }
}
pub open spec fn all_ok1(ns: Seq<NodeV>, n: int) -> bool { forall|i: int| 0 <= i < n ==> #[trigger] ok1(ns, i) }
/// The labels of the first n statements.
pub open spec fn label_map(ns: Seq<NodeV>, n: int) -> Map<Seq<char>, int> decreases n {
    if n <= 0 { Map::empty() } else { match ns[n - 1] { NodeV::Label { loc, name } => label_map(ns, n - 1).insert(name, label_value(ns, n - 1)), _ => label_map(ns, n - 1) } }
}
/// The bytes a statement emits; None where it cannot be assembled.
pub open spec fn bytes_of(n: NodeV, labels: Map<Seq<char>, int>) -> Option<Seq<u8>> {
    match n {
        NodeV::Label { .. } => Some(Seq::empty()),
        NodeV::Instr { loc, name, fields } => match enc(lower(name), fields, labels) { Some(w) => Some(word_bytes(w)), None => None },
        NodeV::Dir { .. } => match as_dir(n) { Some(DirV::Db(b)) => Some(b), _ => Some(Seq::empty()) },
    }
}
pub open spec fn at(a: int, b: Seq<u8>) -> Seq<(int, u8)> { Seq::new(b.len(), |k: int| (a + k, b[k])) }
/// Every byte the first n statements place, with its address, in order.
pub open spec fn placed(ns: Seq<NodeV>, labels: Map<Seq<char>, int>, n: int) -> Seq<(int, u8)> decreases n {
    if n <= 0 { Seq::empty() } else {
        placed(ns, labels, n - 1) + at(counter(ns, n - 1), bytes_of(ns[n - 1], labels)->Some_0)
    }
}
pub open spec fn all_enc(ns: Seq<NodeV>, labels: Map<Seq<char>, int>, n: int) -> bool { forall|i: int| 0 <= i < n ==> bytes_of(#[trigger] ns[i], labels) is Some }

/// The outcome of assembling a list of statements: the bytes placed, or the location of the
/// statement at fault.
pub open spec fn asm_ok(ns: Seq<NodeV>) -> bool { all_ok1(ns, ns.len() as int) && all_enc(ns, label_map(ns, ns.len() as int), ns.len() as int) }
pub open spec fn asm_image(ns: Seq<NodeV>) -> Seq<(int, u8)> { placed(ns, label_map(ns, ns.len() as int), ns.len() as int) }
/// `loc` is the location of the first statement the rejecting pass cannot accept.
pub open spec fn asm_fault(ns: Seq<NodeV>, loc: LocV) -> bool {
    let n = ns.len() as int;
    if all_ok1(ns, n) {
        exists|i: int| 0 <= i < n && all_enc(ns, label_map(ns, n), i) && bytes_of(#[trigger] ns[i], label_map(ns, n)) is None && loc == ns[i].loc()
    } else {
        exists|i: int| 0 <= i < n && all_ok1(ns, i) && !(#[trigger] ok1(ns, i)) && loc == ns[i].loc()
    }
}

// ================================================================ data ranges
pub struct RangeV { pub start: int, pub data: Seq<u8> }
pub open spec fn flat(rs: Seq<RangeV>) -> Seq<(int, u8)> decreases rs.len() { if rs.len() == 0 { Seq::empty() } else { flat(rs.drop_last()) + at(rs.last().start, rs.last().data) } }
pub open spec fn range_ok(r: RangeV) -> bool { 0 <= r.start && r.start + r.data.len() <= 4095 }
pub open spec fn ranges_ok(rs: Seq<RangeV>) -> bool { forall|i: int| 0 <= i < rs.len() ==> range_ok(#[trigger] rs[i]) }
pub open spec fn covers(r: RangeV, a: int) -> bool { r.start <= a < r.start + r.data.len() }
/// Two ranges share an address.
pub open spec fn meet(a: RangeV, b: RangeV) -> bool { exists|x: int| covers(a, x) && covers(b, x) }
pub open spec fn clash(rs: Seq<RangeV>) -> bool { exists|i: int, j: int| 0 <= i < j < rs.len() && meet(rs[i], rs[j]) }

// ================================================================ Intel HEX
pub enum RecV { Data(int, Seq<u8>), Eof, Other }
/// Data records: the bytes they place, in order.
pub open spec fn recs_flat(rs: Seq<RecV>) -> Seq<(int, u8)> decreases rs.len() {
    if rs.len() == 0 { Seq::empty() } else { recs_flat(rs.drop_last()) + (match rs.last() { RecV::Data(a, d) => at(a, d), _ => Seq::empty() }) }
}
pub open spec fn rec_ok(r: RecV) -> bool { match r { RecV::Data(a, d) => 0 <= a <= 0xFFFF && 1 <= d.len() <= 16 && a + d.len() <= 0x10000, _ => false } }
/// Well-formed file: data records of 1 to 16 bytes, then one end-of-file record.
pub open spec fn hex_ok(rs: Seq<RecV>) -> bool {
    rs.len() > 0 && rs.last() is Eof && (forall|i: int| 0 <= i < rs.len() - 1 ==> rec_ok(#[trigger] rs[i]))
}
pub open spec fn hexd(n: int) -> char { if n < 10 { (0x30 + n) as u8 as char } else { (0x37 + n) as u8 as char } }
pub open spec fn hex2(b: int) -> Seq<char> { seq![hexd(b / 16), hexd(b % 16)] }
pub open spec fn hexs(b: Seq<int>) -> Seq<char> decreases b.len() { if b.len() == 0 { Seq::empty() } else { hexs(b.drop_last()) + hex2(b.last()) } }
pub open spec fn sum(b: Seq<int>) -> int decreases b.len() { if b.len() == 0 { 0 } else { sum(b.drop_last()) + b.last() } }
/// Length, address, type, data; then the two's complement of their sum.
pub open spec fn rec_body(r: RecV) -> Seq<int> { match r {
    RecV::Data(a, d) => seq![d.len() as int, a / 256, a % 256, 0] + d.map_values(|x: u8| x as int),
    _ => seq![0int, 0, 0, 1],
} }
pub open spec fn checksum(b: Seq<int>) -> int { (256 - sum(b) % 256) % 256 }
pub open spec fn rec_line(r: RecV) -> Seq<char> { seq![':'] + hexs(rec_body(r).push(checksum(rec_body(r)))) }
pub open spec fn hex_text(rs: Seq<RecV>) -> Seq<char> decreases rs.len() {
    if rs.len() == 0 { Seq::empty() } else { hex_text(rs.drop_last()) + rec_line(rs.last()) + seq!['\n'] }
}

// ================================================================ the program
/// Some address holds two bytes.
pub open spec fn dup(img: Seq<(int, u8)>) -> bool { exists|p: int, q: int| 0 <= p < q < img.len() && (#[trigger] img[p]).0 == (#[trigger] img[q]).0 }
/// What a run has done so far: the text on the standard streams, the files created (in order),
/// the text written to them, whether creating or writing failed, and whether it was standard output that failed.
pub struct Io { pub out: Seq<char>, pub err: Seq<char>, pub created: Seq<Seq<char>>, pub file: Seq<char>, pub bad: bool, pub stuck: bool }
pub open spec fn io0() -> Io { Io { out: Seq::empty(), err: Seq::empty(), created: Seq::empty(), file: Seq::empty(), bad: false, stuck: false } }
/// What a run finds: its arguments, and the files that can be read as text.
pub struct Env { pub args: Seq<Seq<char>>, pub files: Map<Seq<char>, Seq<char>> }
pub open spec fn said(io: Io) -> bool { io.out.len() > 0 || io.err.len() > 0 }
/// A message on a standard stream starts with `head`.
pub open spec fn told(io: Io, head: Seq<char>) -> bool { starts(io.out, head) || starts(io.err, head) }
pub open spec fn untouched(io: Io) -> bool { io.created.len() == 0 && io.file.len() == 0 }
/// Only text was printed between two moments.
pub open spec fn talked(a: Io, b: Io) -> bool {
    b.created == a.created && b.file == a.file && b.bad == a.bad && b.stuck == a.stuck && pre(a.out, b.out) && pre(a.err, b.err)
    && (b.out.len() > a.out.len() || b.err.len() > a.err.len())
}
/// Status 1, something printed, no output file touched.
pub open spec fn failed(io: Io, code: int) -> bool { /*@C14*/ code == 1 && /*@C14*/ said(io) && /*@C14*/ untouched(io) }
/// The text `t`, and nothing else, is at the requested place.
pub open spec fn delivered(io: Io, outp: Seq<char>, t: Seq<char>) -> bool {
    io.err.len() == 0 && (if outp == "-"@ { io.out == t && untouched(io) } else { io.out.len() == 0 && io.created == seq![outp] && io.file == t })
}
/// The statements of an acceptable text.
pub open spec fn stmts_of(text: Seq<char>, inp: Seq<char>) -> GR { g_stmts(tokens(text, inp, 1, 1), Seq::empty()) }
// ---------------------------------------------------------------- command line
pub struct OptV { pub short: Seq<char>, pub long: Seq<char>, pub value: bool }
/// A parsed command line: free arguments, options present, option values.
pub struct CliV { pub free: Seq<Seq<char>>, pub has: Set<OptV>, pub val: Map<OptV, Seq<char>> }
pub open spec fn opt_o() -> OptV { OptV { short: "o"@, long: "output"@, value: true } }
pub open spec fn opt_h() -> OptV { OptV { short: "h"@, long: "help"@, value: false } }
pub open spec fn opt_v() -> OptV { OptV { short: "v"@, long: "version"@, value: false } }
pub open spec fn c8s_opts() -> Set<OptV> { Set::<OptV>::empty().insert(opt_o()).insert(opt_h()).insert(opt_v()) }
pub enum Cmd { Bad, Info, Usage, Job(Seq<char>, Seq<char>) }
pub open spec fn cmd(args: Seq<Seq<char>>) -> Cmd {
    match getopts(c8s_opts(), args.skip(1)) {
        None => Cmd::Bad,
        Some(m) => if m.has.contains(opt_h()) || m.has.contains(opt_v()) { Cmd::Info }
            else if m.free.len() != 1 { Cmd::Usage }
            else { Cmd::Job(m.free[0], if m.val.dom().contains(opt_o()) { m.val[opt_o()] } else { "a.hex"@ }) },
    }
}
/// The program may end with status `code`: status, something said on failure, output file untouched.
pub open spec fn end_status(env: Env, io: Io, code: int) -> bool {
    match cmd(env.args) {
        Cmd::Bad => failed(io, code),
        Cmd::Usage => failed(io, code),
        Cmd::Info => code == 0 && said(io) && untouched(io),
        Cmd::Job(i, o) => if !env.files.dom().contains(i) { failed(io, code) } else {
            match stmts_of(env.files[i], i) {
                GR::Err(e) => failed(io, code),
                GR::Ok(ns) =>
                    if !asm_ok(ns) || dup(asm_image(ns)) { failed(io, code) }
                    else if io.bad { code == 1 && said(io) }
                    else { code == 0 && delivered(io, o, if o == "-"@ { io.out } else { io.file }) },
            }
        },
    }
}
/// The diagnostic starts with the place of the text it is about.
pub open spec fn end_where(env: Env, io: Io, code: int) -> bool {
    match cmd(env.args) {
        Cmd::Job(i, o) => env.files.dom().contains(i) ==> match stmts_of(env.files[i], i) {
            GR::Err(e) => told(io, perr_head(e)),
            GR::Ok(ns) => !asm_ok(ns) ==> (exists|l: LocV| asm_fault(ns, l) && told(io, #[trigger] diag_head(l))),
        },
        _ => true,
    }
}
/// Overlaps, and only overlaps, are rejected once a text assembles.
pub open spec fn end_overlap(env: Env, io: Io, code: int) -> bool {
    match cmd(env.args) {
        Cmd::Job(i, o) => env.files.dom().contains(i) ==> match stmts_of(env.files[i], i) {
            GR::Ok(ns) => asm_ok(ns) ==> (if dup(asm_image(ns)) { code == 1 && untouched(io) } else { code == 1 ==> io.bad }),
            _ => true,
        },
        _ => true,
    }
}
/// What is delivered is Intel HEX of exactly the image.
pub open spec fn end_hex(env: Env, io: Io, code: int) -> bool {
    match cmd(env.args) {
        Cmd::Job(i, o) => code == 0 && env.files.dom().contains(i) ==> match stmts_of(env.files[i], i) {
            GR::Ok(ns) => exists|recs: Seq<RecV>| hex_ok(recs) && recs_flat(recs) =~= asm_image(ns) && delivered(io, o, #[trigger] hex_text(recs)),
            _ => false,
        },
        _ => true,
    }
}
/// The whole program.
pub open spec fn exit_ok(env: Env, io: Io, code: int) -> bool { end_status(env, io, code) && end_where(env, io, code) && end_overlap(env, io, code) && end_hex(env, io, code) }
} // verus!
}
