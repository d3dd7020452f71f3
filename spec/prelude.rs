// Trusted primitives: specifications of the std / crate operations the sources use.
// Most have a body that is verified here against the contract (text, formatting, numbers, vectors, cursors, maps), so the
// contract asks nothing impossible, and that body is what runs when the extracted crate is built as a program and compared
// with the real one. Every `external_body` and every axiom below is an assumption; evidence lists them by scanning.
// `real!` is what such a primitive stands for; it is compiled when the extracted crate is built to be run.
#[cfg(c8exec)]
macro_rules! real { ($($t:tt)*) => { { $($t)* } } }
#[cfg(not(c8exec))]
macro_rules! real { ($($t:tt)*) => { unimplemented!() } }
#[cfg(c8exec)]
pub mod exr {
    pub use getopts::{Matches, Options};
    pub use regex::Regex;
    pub use twelve_bit::u12::{FailableInto, MAX, MIN, U12 as U};
    pub fn tb(x: crate::prelude::U12) -> U { x.x_u16().unchecked_into() }
    pub fn mk(x: U) -> crate::prelude::U12 { crate::prelude::U12::x_new(u16::from(x)) }
    pub fn ihex_create(rs: &[crate::prelude::Record]) -> Result<String, crate::prelude::WriterError> {
        use crate::prelude::Record as R;
        use ihex::record::Record as X;
        let v: Vec<X> = rs.iter().map(|r| match r {
            R::Data { offset, value } => X::Data { offset: *offset, value: value.clone() },
            R::EndOfFile => X::EndOfFile,
            R::ExtendedSegmentAddress(a) => X::ExtendedSegmentAddress(*a),
            R::StartSegmentAddress { cs, ip } => X::StartSegmentAddress { cs: *cs, ip: *ip },
            R::ExtendedLinearAddress(a) => X::ExtendedLinearAddress(*a),
            R::StartLinearAddress(a) => X::StartLinearAddress(*a),
        }).collect();
        ihex::writer::create_object_file_representation(&v).map_err(|_| crate::prelude::WriterError { e: () })
    }
}
#[cfg(not(c8exec))]
pub mod exr { pub struct Matches; pub struct Options; }
pub mod prelude {
use crate::exr;
use vstd::prelude::*;
pub use vstd::utf8::encode_utf8;
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;
use core::cmp::Ordering;
verus! {

global size_of usize == 8;

// ---------------------------------------------------------------- text
/// Length of a character in UTF-8.
pub open spec fn ulen(c: char) -> nat {
    if (c as u32) < 0x80 { 1 } else if (c as u32) < 0x800 { 2 } else if (c as u32) < 0x10000 { 3 } else { 4 }
}
/// Length of a text in UTF-8.
#[verifier::opaque]
pub open spec fn blen(s: Seq<char>) -> nat decreases s.len() {
    if s.len() == 0 { 0 } else { blen(s.drop_last()) + ulen(s.last()) }
}
/// Byte offset `b` is the boundary in front of character `i`.
pub open spec fn bnd(s: Seq<char>, b: int, i: int) -> bool {
    0 <= i <= s.len() && b == blen(s.take(i))
}
#[verifier::opaque]
pub open spec fn on_bnd(s: Seq<char>, b: int) -> bool { exists|i: int| bnd(s, b, i) }
/// The character index of byte offset `b`.
#[verifier::opaque]
pub open spec fn cidx(s: Seq<char>, b: int) -> int { choose|i: int| bnd(s, b, i) }

pub proof fn lemma_blen_take(s: Seq<char>, i: int, j: int)
    requires 0 <= i <= j <= s.len()
    ensures blen(s.take(j)) == blen(s.take(i)) + blen(s.subrange(i, j)),
            blen(s.subrange(i, j)) >= j - i,
    decreases j - i
{
    reveal_with_fuel(blen, 2);
    if i == j {
        assert(s.subrange(i, j) =~= Seq::<char>::empty());
    } else {
        lemma_blen_take(s, i, j - 1);
        assert(s.take(j).drop_last() =~= s.take(j - 1));
        assert(s.subrange(i, j).drop_last() =~= s.subrange(i, j - 1));
        assert(s.take(j).last() == s[j - 1]);
        assert(s.subrange(i, j).last() == s[j - 1]);
    }
}
pub proof fn lemma_cidx(s: Seq<char>, b: int, i: int)
    requires bnd(s, b, i)
    ensures cidx(s, b) == i, on_bnd(s, b)
{
    reveal(on_bnd); reveal(cidx);
    let k = cidx(s, b);
    assert(bnd(s, b, k));
    if k < i { lemma_blen_take(s, k, i); }
    if i < k { lemma_blen_take(s, i, k); }
}
/// cidx is the index.
pub proof fn lemma_bnd(s: Seq<char>, b: int)
    requires on_bnd(s, b)
    ensures bnd(s, b, cidx(s, b))
{ reveal(on_bnd); reveal(cidx); }
pub proof fn lemma_blen_suffix(s: Seq<char>, i: int)
    requires 0 <= i <= s.len()
    ensures blen(s) == blen(s.take(i)) + blen(s.skip(i)), blen(s.skip(i)) >= s.len() - i
{
    lemma_blen_take(s, i, s.len() as int);
    assert(s.take(s.len() as int) =~= s);
    assert(s.subrange(i, s.len() as int) =~= s.skip(i));
}
pub proof fn lemma_blen_ge(s: Seq<char>)
    ensures blen(s) >= s.len()
{
    reveal_with_fuel(blen, 2);
    lemma_blen_suffix(s, 0);
    assert(s.skip(0) =~= s);
    assert(s.take(0) =~= Seq::<char>::empty());
}
pub proof fn lemma_blen1(c: char)
    ensures blen(seq![c]) == ulen(c)
{
    reveal_with_fuel(blen, 2);
    assert(seq![c].drop_last() =~= Seq::<char>::empty());
    assert(blen(Seq::<char>::empty()) == 0);
}
pub proof fn lemma_blen_push(s: Seq<char>, i: int)
    requires 0 <= i < s.len()
    ensures blen(s.take(i + 1)) == blen(s.take(i)) + ulen(s[i])
{
    reveal_with_fuel(blen, 2);
    assert(s.take(i + 1).drop_last() =~= s.take(i));
}
pub proof fn lemma_blen0(s: Seq<char>)
    ensures blen(s) == 0 <==> s.len() == 0
{ reveal_with_fuel(blen, 2); }

/// The encoding of a text, cut in front of character `i`.
proof fn lemma_enc_first(s: Seq<char>)
    requires s.len() > 0
    ensures vstd::utf8::pop_first_scalar(encode_utf8(s)) == encode_utf8(s.drop_first()), vstd::utf8::length_of_first_scalar(encode_utf8(s)) == ulen(s[0]),
        vstd::utf8::valid_utf8(encode_utf8(s)), encode_utf8(s).len() == ulen(s[0]) + encode_utf8(s.drop_first()).len()
{ vstd::utf8::encode_utf8_first_scalar(s); vstd::utf8::encode_utf8_valid_utf8(s); }
proof fn lemma_enc1(c: char) ensures encode_utf8(seq![c]).len() == ulen(c)
{ reveal_with_fuel(encode_utf8, 2); }
pub proof fn lemma_enc_len(s: Seq<char>)
    ensures encode_utf8(s).len() == blen(s)
    decreases s.len()
{
    reveal_with_fuel(encode_utf8, 2);
    reveal_with_fuel(blen, 2);
    if s.len() > 0 {
        lemma_enc_len(s.drop_last());
        vstd::utf8::encode_utf8_concat(s.drop_last(), seq![s.last()]);
        assert(s.drop_last() + seq![s.last()] =~= s);
        lemma_enc1(s.last());
    }
}
proof fn lemma_enc_cut(s: Seq<char>, i: int)
    requires 0 <= i <= s.len()
    ensures vstd::utf8::is_char_boundary(encode_utf8(s), blen(s.take(i)) as int),
        encode_utf8(s.take(i)) == encode_utf8(s).take(blen(s.take(i)) as int),
        encode_utf8(s.skip(i)) == encode_utf8(s).skip(blen(s.take(i)) as int)
    decreases s.len()
{
    vstd::utf8::encode_utf8_valid_utf8(s);
    lemma_enc_len(s.take(i));
    assert(s.take(i) + s.skip(i) =~= s);
    vstd::utf8::encode_utf8_concat(s.take(i), s.skip(i));
    assert(encode_utf8(s.take(i)) =~= encode_utf8(s).take(encode_utf8(s.take(i)).len() as int));
    assert(encode_utf8(s.skip(i)) =~= encode_utf8(s).skip(encode_utf8(s.take(i)).len() as int));
    if i > 0 {
        lemma_enc_first(s);
        lemma_enc_cut(s.drop_first(), i - 1);
        lemma_enc_first(s.take(i));
        assert(s.take(i).drop_first() =~= s.drop_first().take(i - 1));
        lemma_enc_len(s.drop_first().take(i - 1));
    }
}
proof fn lemma_enc_uncut(s: Seq<char>, b: int) -> (i: int)
    requires vstd::utf8::is_char_boundary(encode_utf8(s), b)
    ensures bnd(s, b, i)
    decreases s.len()
{
    vstd::utf8::encode_utf8_valid_utf8(s);
    if b == 0 { assert(s.take(0) =~= Seq::<char>::empty()); lemma_blen0(s.take(0)); 0 }
    else if s.len() == 0 { 0 }
    else {
        lemma_enc_first(s);
        let j = lemma_enc_uncut(s.drop_first(), b - ulen(s[0]));
        lemma_enc_first(s.take(j + 1));
        assert(s.take(j + 1).drop_first() =~= s.drop_first().take(j));
        lemma_enc_len(s.take(j + 1));
        lemma_enc_len(s.drop_first().take(j));
        j + 1
    }
}
proof fn lemma_enc_inj(a: Seq<char>, b: Seq<char>) requires encode_utf8(a) == encode_utf8(b) ensures a == b
{ vstd::utf8::encode_utf8_decode_utf8(a); vstd::utf8::encode_utf8_decode_utf8(b); }
/// Both parts of a text.
fn v_cut(s: &str, a: usize) -> (r: (&str, &str))
    requires on_bnd(s@, a as int)
    ensures r.0@ == s@.take(cidx(s@, a as int)), r.1@ == s@.skip(cidx(s@, a as int))
{
    proof { lemma_bnd(s@, a as int); lemma_enc_cut(s@, cidx(s@, a as int)); vstd::utf8::encode_utf8_valid_utf8(s@); }
    let r = s.split_at(a);
    proof { lemma_enc_inj(r.0@, s@.take(cidx(s@, a as int))); lemma_enc_inj(r.1@, s@.skip(cidx(s@, a as int))); }
    r
}
/// The characters of a text.
fn v_char_vec(s: &str) -> (r: Vec<char>)
    ensures r@ == s@
{
    let mut v = Vec::new();
    for c in iter: s.chars() invariant v@ == iter.seq().take(iter.index@ as int) { v.push(c); }
    v
}
fn v_string_of(v: &Vec<char>) -> (r: String)
    ensures r@ == v@
{
    let mut s = String::new();
    let mut i = 0;
    while i < v.len()
        invariant i <= v@.len(), s@ == v@.take(i as int)
        decreases v@.len() - i
    { s.push(v[i]); i += 1; proof { assert(s@ =~= v@.take(i as int)); } }
    proof { assert(v@.take(i as int) =~= v@); }
    s
}
fn v_lower_c(c: char) -> (r: char) ensures r == lower_c(c) { if 'A' <= c && c <= 'Z' { (c as u8 + 32) as char } else { c } }
fn v_upper_c(c: char) -> (r: char) ensures r == upper_c(c) { if 'a' <= c && c <= 'z' { (c as u8 - 32) as char } else { c } }
fn v_lower(s: &str) -> (r: String)
    ensures r@ == lower(s@)
{
    let v = v_char_vec(s);
    let mut t = String::new();
    let mut i = 0;
    while i < v.len()
        invariant i <= v@.len(), v@ == s@, t@ == lower(s@).take(i as int)
        decreases v@.len() - i
    { t.push(v_lower_c(v[i])); i += 1; proof { assert(t@ =~= lower(s@).take(i as int)); } }
    proof { assert(lower(s@).take(i as int) =~= lower(s@)); }
    t
}
fn v_upper(s: &str) -> (r: String)
    ensures r@ == upper(s@)
{
    let v = v_char_vec(s);
    let mut t = String::new();
    let mut i = 0;
    while i < v.len()
        invariant i <= v@.len(), v@ == s@, t@ == upper(s@).take(i as int)
        decreases v@.len() - i
    { t.push(v_upper_c(v[i])); i += 1; proof { assert(t@ =~= upper(s@).take(i as int)); } }
    proof { assert(upper(s@).take(i as int) =~= upper(s@)); }
    t
}
fn v_all_ascii(s: &str) -> (r: bool)
    ensures r == is_ascii(s@)
{
    let v = v_char_vec(s);
    let mut i = 0;
    while i < v.len()
        invariant i <= v@.len(), v@ == s@, forall|j: int| 0 <= j < i ==> (#[trigger] s@[j] as u32) < 128
        decreases v@.len() - i
    { if v[i] as u32 >= 128 { proof { assert(!((s@[i as int] as u32) < 128)); } return false; } i += 1; }
    true
}
fn v_same_chars(a: &Vec<char>, from: usize, b: &Vec<char>) -> (r: bool)
    requires from <= a@.len()
    ensures r == (from + b@.len() <= a@.len() && a@.subrange(from as int, from + b@.len()) == b@)
{
    let n = a.len();
    if b.len() > n - from { return false; }
    let mut i = 0;
    while i < b.len()
        invariant i <= b@.len(), n == a@.len(), from + b@.len() <= n, forall|j: int| 0 <= j < i ==> a@[from + j] == b@[j]
        decreases b@.len() - i
    {
        if a[from + i] != b[i] { proof { let t = a@.subrange(from as int, from + b@.len()); assert(t[i as int] == a@[from + i]); } return false; }
        i += 1;
    }
    proof { assert(a@.subrange(from as int, from + b@.len()) =~= b@); }
    true
}
/// What std does to letters outside ASCII.
#[verifier::external_body] fn x_to_lowercase(s: &str) -> String { real!(s.to_lowercase()) }
#[verifier::external_body] fn x_to_uppercase(s: &str) -> String { real!(s.to_uppercase()) }

/// Texts are equal when their characters are.
pub uninterp spec fn str_of(s: Seq<char>) -> &'static str;
pub broadcast axiom fn axiom_str_of(s: &str)
    ensures str_of(#[trigger] s@) == s;
/// No text is longer than isize::MAX bytes.
pub broadcast axiom fn axiom_str_len(s: &str)
    ensures blen(#[trigger] s@) <= isize::MAX;

pub broadcast group group_str { axiom_str_of, axiom_str_len }

// ---------------------------------------------------------------- letter case, digits
pub open spec fn is_ascii(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i] as u32) < 128 }
/// ASCII text has as many bytes as characters.
pub proof fn lemma_blen_ascii(s: Seq<char>)
    requires is_ascii(s)
    ensures blen(s) == s.len()
    decreases s.len()
{
    reveal_with_fuel(blen, 2);
    if s.len() > 0 {
        assert forall|i: int| 0 <= i < s.drop_last().len() implies (#[trigger] s.drop_last()[i] as u32) < 128 by { assert(s.drop_last()[i] == s[i]); }
        assert((s[s.len() - 1] as u32) < 128);
        lemma_blen_ascii(s.drop_last());
    }
}
pub open spec fn lower_c(c: char) -> char { if 'A' <= c && c <= 'Z' { ((c as u32 + 32) as u32) as char } else { c } }
pub open spec fn upper_c(c: char) -> char { if 'a' <= c && c <= 'z' { ((c as u32 - 32) as u32) as char } else { c } }
pub open spec fn lower(s: Seq<char>) -> Seq<char> { s.map_values(|c: char| lower_c(c)) }
pub open spec fn upper(s: Seq<char>) -> Seq<char> { s.map_values(|c: char| upper_c(c)) }
pub open spec fn dig(c: char) -> int {
    if '0' <= c && c <= '9' { c as int - '0' as int }
    else if 'a' <= c && c <= 'z' { c as int - 'a' as int + 10 }
    else if 'A' <= c && c <= 'Z' { c as int - 'A' as int + 10 }
    else { 99 }
}
/// The number written by the digits `s` in `radix`.
pub open spec fn val(s: Seq<char>, radix: int) -> int decreases s.len() {
    if s.len() == 0 { 0 } else { val(s.drop_last(), radix) * radix + dig(s.last()) }
}
pub open spec fn digits(s: Seq<char>, radix: int) -> bool { s.len() > 0 && forall|i: int| 0 <= i < s.len() ==> dig(#[trigger] s[i]) < radix }
/// T::from_str_radix, for unsigned T with largest value `max`.
pub open spec fn parse_uint(s: Seq<char>, radix: int, max: int) -> Option<int> {
    let d = if s.len() > 1 && s[0] == '+' { s.skip(1) } else { s };
    if digits(d, radix) && val(d, radix) <= max { Some(val(d, radix)) } else { None }
}
pub struct ParseErr { pub e: () }
fn v_radix(s: &str, radix: u32, max: u64) -> (r: Option<u64>)
    requires 2 <= radix <= 36
    ensures match parse_uint(s@, radix as int, max as int) { Some(n) => r is Some && r->Some_0 == n, None => r is None }
{
    let v = v_char_vec(s);
    let from = if v.len() > 1 && v[0] == '+' { 1 } else { 0usize };
    let ghost d = v@.skip(from as int);
    proof { assert(v@.skip(0) =~= v@); }
    if v.len() == 0 { return None; }
    let mut i = from;
    let mut n: u64 = 0;
    let mut over = false;
    while i < v.len()
        invariant from <= i <= v@.len(), 2 <= radix <= 36, d == v@.skip(from as int), from < v@.len(),
            (if s@.len() > 1 && s@[0] == '+' { s@.skip(1) } else { s@ }) == d, forall|j: int| 0 <= j < i - from ==> dig(#[trigger] d[j]) < radix,
            val(d.take(i - from), radix as int) >= 0,
            over ==> val(d.take(i - from), radix as int) > max,
            !over ==> n == val(d.take(i - from), radix as int) && n <= max,
        decreases v@.len() - i
    {
        let c = v_dig(v[i]);
        proof {
            assert(d[i - from] == v@[i as int]);
            assert(d.take(i - from + 1).drop_last() =~= d.take(i - from));
            assert(val(d.take(i - from + 1), radix as int) == val(d.take(i - from), radix as int) * radix + dig(v@[i as int]));
            let x = val(d.take(i - from), radix as int);
            assert(x >= 0 ==> x * radix >= x) by (nonlinear_arith) requires radix >= 2;
        }
        if c >= radix { proof { assert(!(dig(d[i - from]) < radix)); assert(!digits(d, radix as int)); } return None; }
        if !over {
            let t: u128 = n as u128;
            proof { assert(t * radix <= 0xffff_ffff_ffff_ffff * 36) by (nonlinear_arith) requires t <= 0xffff_ffff_ffff_ffff, radix <= 36; }
            let m: u128 = t * (radix as u128) + (c as u128);
            if m > max as u128 { over = true; } else { n = m as u64; }
        }
        i += 1;
        proof { assert(d.take(i - from) == d.take(i - 1 - from + 1)); }
    }
    proof { assert(d.take(i - from) =~= d); }
    if over { None } else { Some(n) }
}
macro_rules! from_radix { ($f:ident, $t:ty, $max:expr) => { verus! {
    pub fn $f(s: &str, radix: u32) -> (r: Result<$t, ParseErr>)
        requires 2 <= radix <= 36
        ensures match parse_uint(s@, radix as int, $max as int) { Some(n) => r is Ok && r->Ok_0 == n, None => r is Err }
    { match v_radix(s, radix, $max as u64) { Some(n) => Ok(n as $t), None => Err(ParseErr { e: () }) } }
} } }
from_radix!(v_u8_from_str_radix, u8, u8::MAX);
from_radix!(v_u16_from_str_radix, u16, u16::MAX);
from_radix!(v_u32_from_str_radix, u32, u32::MAX);
from_radix!(v_u64_from_str_radix, u64, u64::MAX);
from_radix!(v_usize_from_str_radix, usize, usize::MAX);

// ---------------------------------------------------------------- str / String methods
pub trait VText {
    spec fn text(&self) -> Seq<char>;
    fn v_to_lowercase(&self) -> (r: String) ensures is_ascii(self.text()) ==> r@ == lower(self.text());
    fn v_to_uppercase(&self) -> (r: String) ensures is_ascii(self.text()) ==> r@ == upper(self.text());
    fn v_to_ascii_lowercase(&self) -> (r: String) ensures r@ == lower(self.text());
    fn v_to_ascii_uppercase(&self) -> (r: String) ensures r@ == upper(self.text());
    fn v_eq_ignore_ascii_case(&self, o: &str) -> (r: bool) ensures r == (lower(self.text()) == lower(o@));
    fn v_starts_with<P: VPat>(&self, p: P) -> (r: bool) ensures r == (p.pat().len() <= self.text().len() && self.text().take(p.pat().len() as int) == p.pat());
    fn v_ends_with<P: VPat>(&self, p: P) -> (r: bool) ensures r == (p.pat().len() <= self.text().len() && self.text().skip(self.text().len() - p.pat().len()) == p.pat());
    fn v_chars(&self) -> (r: Cursor<char>) ensures r.rem() == self.text();
    fn v_bytes(&self) -> (r: Cursor<u8>) ensures r.rem() == encode_utf8(self.text());
    fn v_as_bytes(&self) -> (r: &[u8]) ensures r@ == encode_utf8(self.text());
    fn v_as_str(&self) -> (r: &str) ensures r@ == self.text();
    fn v_is_char_boundary(&self, b: usize) -> (r: bool) ensures r == on_bnd(self.text(), b as int);
    fn v_slice_from(&self, a: usize) -> (r: &str)
        requires on_bnd(self.text(), a as int)
        ensures r@ == self.text().skip(cidx(self.text(), a as int));
    fn v_slice(&self, a: usize, b: usize) -> (r: &str)
        requires a <= b, on_bnd(self.text(), a as int), on_bnd(self.text(), b as int)
        ensures r@ == self.text().subrange(cidx(self.text(), a as int), cidx(self.text(), b as int));
}
macro_rules! vtext { ($t:ty, $s:ident, $str:expr) => { verus! {
impl VText for $t {
    open spec fn text(&self) -> Seq<char> { self@ }
    fn v_to_lowercase(&self) -> (r: String) { let $s = self; let s = $str; if v_all_ascii(s) { v_lower(s) } else { x_to_lowercase(s) } }
    fn v_to_uppercase(&self) -> (r: String) { let $s = self; let s = $str; if v_all_ascii(s) { v_upper(s) } else { x_to_uppercase(s) } }
    fn v_to_ascii_lowercase(&self) -> (r: String) { let $s = self; v_lower($str) }
    fn v_to_ascii_uppercase(&self) -> (r: String) { let $s = self; v_upper($str) }
    fn v_eq_ignore_ascii_case(&self, o: &str) -> (r: bool) { let $s = self; let a = v_lower($str); let b = v_lower(o); a.as_str() == b.as_str() }
    fn v_starts_with<P: VPat>(&self, p: P) -> (r: bool) {
        let $s = self; let a = v_char_vec($str); let b = p.x_pat();
        proof { assert(b@.len() <= a@.len() ==> a@.subrange(0, b@.len() as int) =~= a@.take(b@.len() as int)); }
        v_same_chars(&a, 0, &b)
    }
    fn v_ends_with<P: VPat>(&self, p: P) -> (r: bool) {
        let $s = self; let a = v_char_vec($str); let b = p.x_pat();
        if b.len() > a.len() { return false; }
        proof { assert(a@.subrange(a@.len() - b@.len(), a@.len() as int) =~= a@.skip(a@.len() - b@.len())); }
        v_same_chars(&a, a.len() - b.len(), &b)
    }
    fn v_chars(&self) -> (r: Cursor<char>) { let $s = self; Cursor::v_of(v_char_vec($str)) }
    fn v_bytes(&self) -> (r: Cursor<u8>) { let $s = self; Cursor::v_of(v_vec_from($str.as_bytes())) }
    fn v_as_bytes(&self) -> (r: &[u8]) { let $s = self; $str.as_bytes() }
    fn v_as_str(&self) -> (r: &str) { let $s = self; $str }
    fn v_is_char_boundary(&self, b: usize) -> (r: bool) {
        let $s = self; let s = $str;
        let r = s.is_char_boundary(b);
        proof {
            if r { let i = lemma_enc_uncut(s@, b as int); lemma_cidx(s@, b as int, i); }
            if on_bnd(s@, b as int) { lemma_bnd(s@, b as int); lemma_enc_cut(s@, cidx(s@, b as int)); }
        }
        r
    }
    fn v_slice_from(&self, a: usize) -> (r: &str) { let $s = self; v_cut($str, a).1 }
    fn v_slice(&self, a: usize, b: usize) -> (r: &str) {
        let $s = self; let s = $str;
        let t = v_cut(s, b).0;
        proof {
            lemma_bnd(s@, a as int); lemma_bnd(s@, b as int);
            let (i, j) = (cidx(s@, a as int), cidx(s@, b as int));
            if j < i { lemma_blen_take(s@, j, i); }
            assert(t@.take(i) =~= s@.take(i));
            lemma_cidx(t@, a as int, i);
            assert(t@.skip(i) =~= s@.subrange(i, j));
        }
        v_cut(t, a).1
    }
}
} } }
vtext!(str, x, x);
vtext!(String, x, x.as_str());
pub trait VPat { spec fn pat(&self) -> Seq<char>; fn x_pat(&self) -> (r: Vec<char>) ensures r@ == self.pat(); }
impl VPat for &str { open spec fn pat(&self) -> Seq<char> { self@ } fn x_pat(&self) -> (r: Vec<char>) { v_char_vec(self) } }
impl VPat for char { open spec fn pat(&self) -> Seq<char> { seq![*self] } fn x_pat(&self) -> (r: Vec<char>) { let mut v = Vec::new(); v.push(*self); proof { assert(v@ =~= seq![*self]); } v } }

// ---------------------------------------------------------------- str: trimming, searching, replacing
pub open spec fn occurs(s: Seq<char>, i: int, p: Seq<char>) -> bool { 0 <= i && i + p.len() <= s.len() && s.subrange(i, i + p.len()) == p }
pub open spec fn trim_l(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() > 0 && white(s[0]) { trim_l(s.skip(1)) } else { s } }
pub open spec fn trim_r(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() > 0 && white(s.last()) { trim_r(s.drop_last()) } else { s } }
pub open spec fn strip_l(s: Seq<char>, p: Seq<char>) -> Seq<char> decreases s.len() { if p.len() > 0 && occurs(s, 0, p) { strip_l(s.skip(p.len() as int), p) } else { s } }
pub open spec fn strip_r(s: Seq<char>, p: Seq<char>) -> Seq<char> decreases s.len() { if p.len() > 0 && occurs(s, s.len() - p.len(), p) { strip_r(s.take(s.len() - p.len()), p) } else { s } }
/// Non-overlapping occurrences of `p` (not empty), from the left, replaced by `q`.
pub open spec fn replaced(s: Seq<char>, p: Seq<char>, q: Seq<char>) -> Seq<char> decreases s.len()
{ if p.len() == 0 || s.len() == 0 { s } else if occurs(s, 0, p) { q + replaced(s.skip(p.len() as int), p, q) } else { seq![s[0]] + replaced(s.skip(1), p, q) } }
pub open spec fn found(s: Seq<char>, p: Seq<char>, r: Option<usize>) -> bool
{ match r { Some(b) => exists|i: int| #[trigger] occurs(s, i, p) && b == blen(s.take(i)) && (forall|j: int| 0 <= j < i ==> !#[trigger] occurs(s, j, p)), None => forall|j: int| !#[trigger] occurs(s, j, p) } }
pub open spec fn found_last(s: Seq<char>, p: Seq<char>, r: Option<usize>) -> bool
{ match r { Some(b) => exists|i: int| #[trigger] occurs(s, i, p) && b == blen(s.take(i)) && (forall|j: int| j > i ==> !#[trigger] occurs(s, j, p)), None => forall|j: int| !#[trigger] occurs(s, j, p) } }
pub proof fn lemma_found1(s: Seq<char>, c: char)
    ensures forall|i: int| #[trigger] occurs(s, i, seq![c]) <==> 0 <= i < s.len() && s[i] == c
{
    assert forall|i: int| #[trigger] occurs(s, i, seq![c]) <==> 0 <= i < s.len() && s[i] == c by {
        if 0 <= i < s.len() { assert(s.subrange(i, i + 1)[0] == s[i]); if s[i] == c { assert(s.subrange(i, i + 1) =~= seq![c]); } assert(seq![c][0] == c); }
    }
}
/// The text in front of and from character `k`; the byte position is given as well.
fn v_at_char(s: &str, k: usize) -> (r: (&str, &str, usize))
    requires k <= s@.len()
    ensures r.0@ == s@.take(k as int), r.1@ == s@.skip(k as int), r.2 == blen(s@.take(k as int))
{
    let v = v_char_vec(s);
    let n = s.v_len();
    let mut b: usize = 0;
    let mut i = 0;
    proof { assert(s@.take(0) =~= Seq::<char>::empty()); lemma_blen0(s@.take(0)); }
    while i < k
        invariant i <= k <= v@.len(), v@ == s@, b == blen(s@.take(i as int)), n == blen(s@)
        decreases k - i
    {
        proof { lemma_blen_push(s@, i as int); lemma_blen_suffix(s@, i + 1); }
        b += v[i].v_len_utf8();
        i += 1;
    }
    proof { lemma_cidx(s@, b as int, k as int); }
    let r = v_cut(s, b);
    (r.0, r.1, b)
}
fn v_trim_l(s: &str) -> (r: &str) ensures r@ == trim_l(s@)
{
    let v = v_char_vec(s);
    let mut i: usize = 0;
    proof { assert(s@.skip(0) =~= s@); }
    while i < v.len() && v[i].v_is_whitespace()
        invariant i <= v@.len(), v@ == s@, trim_l(s@) == trim_l(s@.skip(i as int))
        decreases v@.len() - i
    { proof { assert(s@.skip(i as int).skip(1) =~= s@.skip(i + 1)); assert(s@.skip(i as int)[0] == s@[i as int]); } i += 1; }
    proof { if i < s@.len() { assert(s@.skip(i as int)[0] == s@[i as int]); } }
    v_at_char(s, i).1
}
fn v_trim_r(s: &str) -> (r: &str) ensures r@ == trim_r(s@)
{
    let v = v_char_vec(s);
    let mut i = v.len();
    proof { assert(s@.take(s@.len() as int) =~= s@); }
    while i > 0 && v[i - 1].v_is_whitespace()
        invariant i <= v@.len(), v@ == s@, trim_r(s@) == trim_r(s@.take(i as int))
        decreases i
    { proof { assert(s@.take(i as int).drop_last() =~= s@.take(i - 1)); assert(s@.take(i as int).last() == s@[i - 1]); } i -= 1; }
    proof { if i > 0 { assert(s@.take(i as int).last() == s@[i - 1]); } }
    v_at_char(s, i).0
}
fn v_strip_l<'b>(s: &'b str, p: &Vec<char>) -> (r: &'b str) ensures r@ == strip_l(s@, p@)
{
    if p.len() == 0 { return s; }
    let v = v_char_vec(s);
    let mut i: usize = 0;
    proof { assert(s@.skip(0) =~= s@); }
    loop
        invariant_except_break i <= v@.len()
        invariant v@ == s@, p@.len() > 0, i <= v@.len(), strip_l(s@, p@) == strip_l(s@.skip(i as int), p@)
        ensures !occurs(s@.skip(i as int), 0, p@)
        decreases v@.len() - i
    {
        proof { if i + p@.len() <= s@.len() { assert(s@.skip(i as int).subrange(0, p@.len() as int) =~= s@.subrange(i as int, i + p@.len())); } }
        if !v_same_chars(&v, i, p) { break; }
        proof { assert(s@.skip(i as int).skip(p@.len() as int) =~= s@.skip(i + p@.len())); }
        i += p.len();
    }
    v_at_char(s, i).1
}
fn v_strip_r<'b>(s: &'b str, p: &Vec<char>) -> (r: &'b str) ensures r@ == strip_r(s@, p@)
{
    if p.len() == 0 { return s; }
    let v = v_char_vec(s);
    let mut i = v.len();
    proof { assert(s@.take(s@.len() as int) =~= s@); }
    loop
        invariant v@ == s@, p@.len() > 0, i <= v@.len(), strip_r(s@, p@) == strip_r(s@.take(i as int), p@)
        ensures !occurs(s@.take(i as int), i - p@.len(), p@)
        decreases i
    {
        if i < p.len() { break; }
        proof { assert(s@.take(i as int).subrange(i - p@.len(), i as int) =~= s@.subrange(i - p@.len(), i as int)); }
        if !v_same_chars(&v, i - p.len(), p) { break; }
        proof { assert(s@.take(i as int).take(i - p@.len()) =~= s@.take(i - p@.len())); }
        i -= p.len();
    }
    v_at_char(s, i).0
}
fn v_first(s: &str, p: &Vec<char>) -> (r: Option<usize>) ensures found(s@, p@, r)
{
    let v = v_char_vec(s);
    let mut i: usize = 0;
    loop
        invariant v@ == s@, i <= v@.len(), forall|j: int| 0 <= j < i ==> !#[trigger] occurs(s@, j, p@)
        decreases v@.len() - i
    {
        if v_same_chars(&v, i, p) { proof { assert(occurs(s@, i as int, p@)); } return Some(v_at_char(s, i).2); }
        proof { assert(!occurs(s@, i as int, p@)); }
        if i == v.len() { return None; }
        i += 1;
    }
}
fn v_last(s: &str, p: &Vec<char>) -> (r: Option<usize>) ensures found_last(s@, p@, r)
{
    let v = v_char_vec(s);
    let mut i = v.len();
    loop
        invariant v@ == s@, i <= v@.len(), forall|j: int| j > i ==> !#[trigger] occurs(s@, j, p@)
        decreases i
    {
        if v_same_chars(&v, i, p) { proof { assert(occurs(s@, i as int, p@)); } return Some(v_at_char(s, i).2); }
        proof { assert(!occurs(s@, i as int, p@)); }
        if i == 0 { return None; }
        i -= 1;
    }
}
fn v_replaced(s: &str, p: &Vec<char>, q: &str) -> (r: String) requires p@.len() > 0 ensures r@ == replaced(s@, p@, q@)
{
    let v = v_char_vec(s);
    let mut o = String::new();
    let mut i: usize = 0;
    proof { assert(s@.skip(0) =~= s@); assert(o@ + replaced(s@, p@, q@) =~= replaced(s@, p@, q@)); }
    while i < v.len()
        invariant v@ == s@, p@.len() > 0, i <= v@.len(), replaced(s@, p@, q@) == o@ + replaced(s@.skip(i as int), p@, q@)
        decreases v@.len() - i
    {
        let ghost t = s@.skip(i as int);
        let ghost o0 = o@;
        proof { if i + p@.len() <= s@.len() { assert(t.subrange(0, p@.len() as int) =~= s@.subrange(i as int, i + p@.len())); } }
        if v_same_chars(&v, i, p) {
            proof { assert(t.skip(p@.len() as int) =~= s@.skip(i + p@.len())); }
            o.push_str(q);
            i += p.len();
            proof { assert(o@ + replaced(s@.skip(i as int), p@, q@) =~= o0 + (q@ + replaced(s@.skip(i as int), p@, q@))); }
        } else {
            proof { assert(t.skip(1) =~= s@.skip(i + 1)); }
            o.push(v[i]);
            i += 1;
            proof { assert(t[0] == s@[i - 1]); assert(o@ + replaced(s@.skip(i as int), p@, q@) =~= o0 + (seq![t[0]] + replaced(s@.skip(i as int), p@, q@))); }
        }
    }
    proof { assert(s@.skip(i as int) =~= Seq::<char>::empty()); assert(o@ + Seq::<char>::empty() =~= o@); }
    o
}
pub trait VSearch {
    spec fn hay(&self) -> Seq<char>;
    fn v_trim(&self) -> (r: &str) ensures r@ == trim_r(trim_l(self.hay()));
    fn v_trim_start(&self) -> (r: &str) ensures r@ == trim_l(self.hay());
    fn v_trim_end(&self) -> (r: &str) ensures r@ == trim_r(self.hay());
    fn v_trim_start_matches<P: VPat>(&self, p: P) -> (r: &str) ensures r@ == strip_l(self.hay(), p.pat());
    fn v_trim_end_matches<P: VPat>(&self, p: P) -> (r: &str) ensures r@ == strip_r(self.hay(), p.pat());
    fn v_trim_matches(&self, p: char) -> (r: &str) ensures r@ == strip_r(strip_l(self.hay(), seq![p]), seq![p]);
    fn v_strip_prefix<P: VPat>(&self, p: P) -> (r: Option<&str>) ensures r is Some == occurs(self.hay(), 0, p.pat()), r is Some ==> r->0@ == self.hay().skip(p.pat().len() as int);
    fn v_strip_suffix<P: VPat>(&self, p: P) -> (r: Option<&str>) ensures r is Some == occurs(self.hay(), self.hay().len() - p.pat().len(), p.pat()), r is Some ==> r->0@ == self.hay().take(self.hay().len() - p.pat().len());
    fn v_contains<P: VPat>(&self, p: P) -> (r: bool) ensures r == exists|i: int| #[trigger] occurs(self.hay(), i, p.pat());
    fn v_find<P: VPat>(&self, p: P) -> (r: Option<usize>) ensures found(self.hay(), p.pat(), r);
    fn v_rfind<P: VPat>(&self, p: P) -> (r: Option<usize>) ensures found_last(self.hay(), p.pat(), r);
    fn v_replace<P: VPat>(&self, p: P, q: &str) -> (r: String) requires p.pat().len() > 0 ensures r@ == replaced(self.hay(), p.pat(), q@);
}
macro_rules! vsearch { ($t:ty, $s:ident, $str:expr) => { verus! {
impl VSearch for $t {
    open spec fn hay(&self) -> Seq<char> { self@ }
    fn v_trim(&self) -> (r: &str) { let $s = self; v_trim_r(v_trim_l($str)) }
    fn v_trim_start(&self) -> (r: &str) { let $s = self; v_trim_l($str) }
    fn v_trim_end(&self) -> (r: &str) { let $s = self; v_trim_r($str) }
    fn v_trim_start_matches<P: VPat>(&self, p: P) -> (r: &str) { let $s = self; v_strip_l($str, &p.x_pat()) }
    fn v_trim_end_matches<P: VPat>(&self, p: P) -> (r: &str) { let $s = self; v_strip_r($str, &p.x_pat()) }
    fn v_trim_matches(&self, p: char) -> (r: &str) { let $s = self; let q = p.x_pat(); v_strip_r(v_strip_l($str, &q), &q) }
    fn v_strip_prefix<P: VPat>(&self, p: P) -> (r: Option<&str>) { let $s = self; let q = p.x_pat(); let v = v_char_vec($str); if v_same_chars(&v, 0, &q) { Some(v_at_char($str, q.len()).1) } else { None } }
    fn v_strip_suffix<P: VPat>(&self, p: P) -> (r: Option<&str>) { let $s = self; let q = p.x_pat(); let v = v_char_vec($str); if q.len() <= v.len() && v_same_chars(&v, v.len() - q.len(), &q) { Some(v_at_char($str, v.len() - q.len()).0) } else { None } }
    fn v_contains<P: VPat>(&self, p: P) -> (r: bool) { let $s = self; let q = p.x_pat(); match v_first($str, &q) { Some(b) => { proof { let i = choose|i: int| #[trigger] occurs(self@, i, q@) && b == blen(self@.take(i)); assert(occurs(self.hay(), i, p.pat())); } true } None => { proof { assert(forall|i: int| !#[trigger] occurs(self.hay(), i, p.pat())); } false } } }
    fn v_find<P: VPat>(&self, p: P) -> (r: Option<usize>) { let $s = self; v_first($str, &p.x_pat()) }
    fn v_rfind<P: VPat>(&self, p: P) -> (r: Option<usize>) { let $s = self; v_last($str, &p.x_pat()) }
    fn v_replace<P: VPat>(&self, p: P, q: &str) -> (r: String) { let $s = self; v_replaced($str, &p.x_pat(), q) }
}
} } }
vsearch!(str, x, x);
vsearch!(String, x, x.as_str());

pub trait VChar {
    spec fn ch(&self) -> char;
    fn v_len_utf8(self) -> (r: usize) ensures r == ulen(self.ch());
    fn v_is_ascii_digit(&self) -> (r: bool) ensures r == ('0' <= self.ch() && self.ch() <= '9');
    fn v_is_ascii_hexdigit(&self) -> (r: bool) ensures r == (dig(self.ch()) < 16);
    fn v_is_ascii_alphabetic(&self) -> (r: bool) ensures r == (('a' <= self.ch() && self.ch() <= 'z') || ('A' <= self.ch() && self.ch() <= 'Z'));
    fn v_is_ascii_alphanumeric(&self) -> (r: bool) ensures r == (dig(self.ch()) < 36);
    fn v_is_ascii(&self) -> (r: bool) ensures r == ((self.ch() as u32) < 128);
    fn v_is_ascii_uppercase(&self) -> (r: bool) ensures r == ('A' <= self.ch() && self.ch() <= 'Z');
    fn v_is_ascii_lowercase(&self) -> (r: bool) ensures r == ('a' <= self.ch() && self.ch() <= 'z');
    fn v_is_ascii_whitespace(&self) -> (r: bool) ensures r == (self.ch() as u32 == 32 || self.ch() as u32 == 9 || self.ch() as u32 == 10 || self.ch() as u32 == 12 || self.ch() as u32 == 13);
    fn v_is_ascii_punctuation(&self) -> (r: bool) ensures r == (33 <= (self.ch() as u32) && (self.ch() as u32) <= 126 && dig(self.ch()) == 99);
    fn v_is_ascii_control(&self) -> (r: bool) ensures r == ((self.ch() as u32) < 32 || self.ch() as u32 == 127);
    fn v_is_ascii_graphic(&self) -> (r: bool) ensures r == (33 <= (self.ch() as u32) && (self.ch() as u32) <= 126);
    fn v_is_control(&self) -> (r: bool) ensures r == ((self.ch() as u32) < 32 || (127 <= self.ch() as u32 && self.ch() as u32 <= 159));
    /// The property White_Space of Unicode.
    fn v_is_whitespace(&self) -> (r: bool) ensures r == white(self.ch());
    /// Outside ASCII: what the tables of std say.
    fn v_is_alphabetic(&self) -> (r: bool) ensures (self.ch() as u32) < 128 ==> r == (('a' <= self.ch() && self.ch() <= 'z') || ('A' <= self.ch() && self.ch() <= 'Z'));
    fn v_is_alphanumeric(&self) -> (r: bool) ensures (self.ch() as u32) < 128 ==> r == (dig(self.ch()) < 36);
    fn v_is_numeric(&self) -> (r: bool) ensures (self.ch() as u32) < 128 ==> r == ('0' <= self.ch() && self.ch() <= '9');
    fn v_is_digit(self, radix: u32) -> (r: bool) requires 2 <= radix <= 36 ensures r == (dig(self.ch()) < radix);
    fn v_to_ascii_lowercase(&self) -> (r: char) ensures r == lower_c(self.ch());
    fn v_to_ascii_uppercase(&self) -> (r: char) ensures r == upper_c(self.ch());
    fn v_eq_ignore_ascii_case(&self, o: &char) -> (r: bool) ensures r == (lower_c(self.ch()) == lower_c(*o));
    fn v_to_digit(self, radix: u32) -> (r: Option<u32>) requires 2 <= radix <= 36 ensures r == (if dig(self.ch()) < radix { Some(dig(self.ch()) as u32) } else { None::<u32> });
}
pub open spec fn white(c: char) -> bool {
    let n = c as u32;
    (9 <= n && n <= 13) || n == 32 || n == 0x85 || n == 0xA0 || n == 0x1680 || (0x2000 <= n && n <= 0x200A) || n == 0x2028 || n == 0x2029 || n == 0x202F || n == 0x205F || n == 0x3000
}
#[verifier::external_body] fn x_is_alphabetic(c: char) -> bool { real!(c.is_alphabetic()) }
#[verifier::external_body] fn x_is_alphanumeric(c: char) -> bool { real!(c.is_alphanumeric()) }
#[verifier::external_body] fn x_is_numeric(c: char) -> bool { real!(c.is_numeric()) }
pub fn v_dig(c: char) -> (r: u32) ensures r == dig(c) {
    if '0' <= c && c <= '9' { c as u32 - 48 } else if 'a' <= c && c <= 'z' { c as u32 - 97 + 10 } else if 'A' <= c && c <= 'Z' { c as u32 - 65 + 10 } else { 99 }
}
impl VChar for char {
    open spec fn ch(&self) -> char { *self }
    fn v_len_utf8(self) -> (r: usize) { proof { lemma_enc1(self); } self.len_utf8() }
    fn v_is_ascii_digit(&self) -> (r: bool) { '0' <= *self && *self <= '9' }
    fn v_is_ascii_hexdigit(&self) -> (r: bool) { v_dig(*self) < 16 }
    fn v_is_ascii_alphabetic(&self) -> (r: bool) { ('a' <= *self && *self <= 'z') || ('A' <= *self && *self <= 'Z') }
    fn v_is_ascii_alphanumeric(&self) -> (r: bool) { v_dig(*self) < 36 }
    fn v_is_ascii(&self) -> (r: bool) { (*self as u32) < 128 }
    fn v_is_ascii_uppercase(&self) -> (r: bool) { 'A' <= *self && *self <= 'Z' }
    fn v_is_ascii_lowercase(&self) -> (r: bool) { 'a' <= *self && *self <= 'z' }
    fn v_is_ascii_whitespace(&self) -> (r: bool) { let n = *self as u32; n == 32 || n == 9 || n == 10 || n == 12 || n == 13 }
    fn v_is_ascii_punctuation(&self) -> (r: bool) { let n = *self as u32; 33 <= n && n <= 126 && v_dig(*self) == 99 }
    fn v_is_ascii_control(&self) -> (r: bool) { let n = *self as u32; n < 32 || n == 127 }
    fn v_is_ascii_graphic(&self) -> (r: bool) { let n = *self as u32; 33 <= n && n <= 126 }
    fn v_is_control(&self) -> (r: bool) { let n = *self as u32; n < 32 || (127 <= n && n <= 159) }
    fn v_is_whitespace(&self) -> (r: bool) {
        let n = *self as u32;
        (9 <= n && n <= 13) || n == 32 || n == 0x85 || n == 0xA0 || n == 0x1680 || (0x2000 <= n && n <= 0x200A) || n == 0x2028 || n == 0x2029 || n == 0x202F || n == 0x205F || n == 0x3000
    }
    fn v_is_alphabetic(&self) -> (r: bool) { if (*self as u32) < 128 { self.v_is_ascii_alphabetic() } else { x_is_alphabetic(*self) } }
    fn v_is_alphanumeric(&self) -> (r: bool) { if (*self as u32) < 128 { v_dig(*self) < 36 } else { x_is_alphanumeric(*self) } }
    fn v_is_numeric(&self) -> (r: bool) { if (*self as u32) < 128 { self.v_is_ascii_digit() } else { x_is_numeric(*self) } }
    fn v_is_digit(self, radix: u32) -> (r: bool) { v_dig(self) < radix }
    fn v_to_ascii_lowercase(&self) -> (r: char) { v_lower_c(*self) }
    fn v_to_ascii_uppercase(&self) -> (r: char) { v_upper_c(*self) }
    fn v_eq_ignore_ascii_case(&self, o: &char) -> (r: bool) { v_lower_c(*self) == v_lower_c(*o) }
    fn v_to_digit(self, radix: u32) -> (r: Option<u32>) { let d = v_dig(self); if d < radix { Some(d) } else { None } }
}
pub fn v_string_from(s: &str) -> (r: String) ensures r@ == s@ { s.to_owned() }
pub fn v_string_new() -> (r: String) ensures r@.len() == 0 { String::new() }
pub fn v_concat(a: String, b: &str) -> (r: String) ensures r@ == a@ + b@ { let mut t = a; t.push_str(b); t }
/// The texts of `t`, `sep` between them.
pub open spec fn joined(t: Seq<Seq<char>>, sep: Seq<char>) -> Seq<char> decreases t.len() {
    if t.len() == 0 { Seq::empty() } else if t.len() == 1 { t[0] } else { joined(t.drop_last(), sep) + sep + t.last() }
}
pub open spec fn texts(s: Seq<String>) -> Seq<Seq<char>> { s.map_values(|x: String| x@) }
pub open spec fn str_texts(s: Seq<&str>) -> Seq<Seq<char>> { s.map_values(|x: &str| x@) }
fn v_join_strs(v: &Vec<&str>, s: &str) -> (r: String)
    ensures r@ == joined(str_texts(v@), s@)
{
    let mut t = String::new();
    let mut i = 0;
    proof { assert(str_texts(v@).take(0) =~= Seq::<Seq<char>>::empty()); }
    while i < v.len()
        invariant i <= v@.len(), t@ == joined(str_texts(v@).take(i as int), s@)
        decreases v@.len() - i
    {
        if i > 0 { t.push_str(s); }
        t.push_str(v[i]);
        i += 1;
        proof {
            let p = str_texts(v@).take(i as int);
            assert(p.drop_last() =~= str_texts(v@).take(i - 1));
            assert(p.last() == v@[i - 1]@);
            if i == 1 { assert(t@ =~= p[0]); }
        }
    }
    proof { assert(str_texts(v@).take(i as int) =~= str_texts(v@)); }
    t
}
pub trait VJoin { spec fn parts(&self) -> Seq<Seq<char>>; fn v_join(&self, s: &str) -> (r: String) ensures r@ == joined(self.parts(), s@); }
impl<'b> VJoin for Vec<&'b str> { open spec fn parts(&self) -> Seq<Seq<char>> { str_texts(self@) } fn v_join(&self, s: &str) -> (r: String) {
    let mut v: Vec<&str> = Vec::new();
    let mut i = 0;
    while i < self.len()
        invariant i <= self@.len(), v@.len() == i, forall|j: int| 0 <= j < i ==> (#[trigger] v@[j])@ == self@[j]@
        decreases self@.len() - i
    { v.push(self[i]); i += 1; }
    proof { assert(str_texts(v@) =~= str_texts(self@)); }
    v_join_strs(&v, s)
} }
impl VJoin for [String] { open spec fn parts(&self) -> Seq<Seq<char>> { texts(self@) } fn v_join(&self, s: &str) -> (r: String) {
    let mut v: Vec<&str> = Vec::new();
    let mut i = 0;
    while i < self.len()
        invariant i <= self@.len(), v@.len() == i, forall|j: int| 0 <= j < i ==> (#[trigger] v@[j])@ == self@[j]@
        decreases self@.len() - i
    { v.push(self[i].as_str()); i += 1; }
    proof { assert(str_texts(v@) =~= texts(self@)); }
    v_join_strs(&v, s)
} }
impl<'b> VJoin for [&'b str] { open spec fn parts(&self) -> Seq<Seq<char>> { str_texts(self@) } fn v_join(&self, s: &str) -> (r: String) {
    let mut v: Vec<&str> = Vec::new();
    let mut i = 0;
    while i < self.len()
        invariant i <= self@.len(), v@.len() == i, forall|j: int| 0 <= j < i ==> (#[trigger] v@[j])@ == self@[j]@
        decreases self@.len() - i
    { v.push(self[i]); i += 1; }
    proof { assert(str_texts(v@) =~= str_texts(self@)); }
    v_join_strs(&v, s)
} }
impl VJoin for Vec<String> { open spec fn parts(&self) -> Seq<Seq<char>> { texts(self@) } fn v_join(&self, s: &str) -> (r: String) {
    let mut v: Vec<&str> = Vec::new();
    let mut i = 0;
    while i < self.len()
        invariant i <= self@.len(), v@.len() == i, forall|j: int| 0 <= j < i ==> (#[trigger] v@[j])@ == self@[j]@
        decreases self@.len() - i
    { v.push(self[i].as_str()); i += 1; }
    proof { assert(str_texts(v@) =~= texts(self@)); }
    v_join_strs(&v, s)
} }
pub assume_specification [ String::with_capacity ] (n: usize) -> (r: String) requires n <= isize::MAX ensures r@.len() == 0;
/// env!, concat!, ...: a compile-time text.
#[verifier::external_body]
pub fn v_const_text() -> (r: &'static str) { real!("?") }

// ---------------------------------------------------------------- formatting
/// std::fmt::Formatter writing to memory: the text written so far. Writing never fails.
pub struct Formatter { s: String }
pub struct FmtError { pub e: () }
impl View for Formatter { type V = Seq<char>; closed spec fn view(&self) -> Seq<char> { self.s@ } }
proof fn lemma_pre_add(a: Seq<char>, t: Seq<char>) ensures pre(a, a + t), a.len() == 0 ==> a + t == t
{ reveal(pre); assert(a =~= (a + t).subrange(0, a.len() as int)); if a.len() == 0 { assert(a + t =~= t); } }
impl Formatter {
    pub fn v_new() -> (r: Formatter) ensures r@.len() == 0 { Formatter { s: String::new() } }
    /// literal text of a format string
    pub fn v_lit(&mut self, s: &str) ensures final(self)@ == old(self)@ + s@, old(self)@.len() == 0 ==> final(self)@ == s@, pre(old(self)@, final(self)@) { proof { lemma_pre_add(self.s@, s@); } self.s.push_str(s) }
    pub fn v_write_str(&mut self, s: &str) -> (r: Result<(), FmtError>) ensures r is Ok, final(self)@ == old(self)@ + s@, old(self)@.len() == 0 ==> final(self)@ == s@, pre(old(self)@, final(self)@) { self.v_lit(s); Ok(()) }
    /// `{:?}`, ...: some text
    pub fn v_any<T: ?Sized>(&mut self, x: &T) ensures pre(old(self)@, final(self)@) { self.v_lit("?") }
    /// `{:0wX}`, `{:X}` (w = 0)
    pub fn v_hex_upper<T: VHex>(&mut self, x: &T, w: usize) ensures final(self)@ == old(self)@ + xpad(xdigits(x.hexv(), true), w as nat), pre(old(self)@, final(self)@) { let t = v_xpad(v_xdigits(x.x_hex(), true), w); self.v_lit(v_string_of(&t).as_str()); }
    /// `{:0wx}`, `{:x}` (w = 0)
    pub fn v_hex_lower<T: VHex>(&mut self, x: &T, w: usize) ensures final(self)@ == old(self)@ + xpad(xdigits(x.hexv(), false), w as nat), pre(old(self)@, final(self)@) { let t = v_xpad(v_xdigits(x.x_hex(), false), w); self.v_lit(v_string_of(&t).as_str()); }
    pub fn v_done(self) -> (r: String) ensures r@ == self@ { self.s }
}
fn v_xdigits(n: u64, up: bool) -> (r: Vec<char>)
    ensures r@ == xdigits(n as nat, up)
    decreases n
{
    let d = (n % 16) as u8;
    let c = if d < 10 { (0x30 + d) as char } else if up { (0x37 + d) as char } else { (0x57 + d) as char };
    let mut v = if n < 16 { Vec::new() } else { v_xdigits(n / 16, up) };
    v.push(c);
    proof { assert(v@ =~= xdigits(n as nat, up)); }
    v
}
fn v_xpad(t: Vec<char>, w: usize) -> (r: Vec<char>)
    ensures r@ == xpad(t@, w as nat)
{
    let mut v: Vec<char> = Vec::new();
    let n = if t.len() < w { w - t.len() } else { 0 };
    let mut i = 0;
    while i < n invariant i <= n, v@ == Seq::new(i as nat, |i: int| '0') decreases n - i
    { v.push('0'); i += 1; proof { assert(v@ =~= Seq::new(i as nat, |i: int| '0')); } }
    i = 0;
    while i < t.len()
        invariant i <= t@.len(), v@ == Seq::new(n as nat, |i: int| '0') + t@.take(i as int)
        decreases t@.len() - i
    { v.push(t[i]); i += 1; proof { assert(v@ =~= Seq::new(n as nat, |i: int| '0') + t@.take(i as int)); } }
    proof { assert(t@.take(i as int) =~= t@); assert(v@ =~= xpad(t@, w as nat)); }
    v
}
fn v_dec(n: u64) -> (r: Vec<char>)
    ensures r@ == dec(n as nat)
    decreases n
{
    let c = (0x30 + (n % 10) as u8) as char;
    let mut v = if n < 10 { Vec::new() } else { v_dec(n / 10) };
    v.push(c);
    proof { assert(v@ =~= dec(n as nat)); }
    v
}
/// std::fmt::UpperHex and LowerHex of unsigned numbers
pub trait VHex { spec fn hexv(&self) -> nat; fn x_hex(&self) -> (r: u64) ensures r == self.hexv(); }
impl VHex for u8 { open spec fn hexv(&self) -> nat { *self as nat } fn x_hex(&self) -> (r: u64) { *self as u64 } }
impl VHex for u16 { open spec fn hexv(&self) -> nat { *self as nat } fn x_hex(&self) -> (r: u64) { *self as u64 } }
impl VHex for u32 { open spec fn hexv(&self) -> nat { *self as nat } fn x_hex(&self) -> (r: u64) { *self as u64 } }
impl VHex for u64 { open spec fn hexv(&self) -> nat { *self as nat } fn x_hex(&self) -> (r: u64) { *self as u64 } }
impl VHex for usize { open spec fn hexv(&self) -> nat { *self as nat } fn x_hex(&self) -> (r: u64) { *self as u64 } }
impl<T: VHex> VHex for &T { open spec fn hexv(&self) -> nat { (**self).hexv() } fn x_hex(&self) -> (r: u64) { (**self).x_hex() } }
pub open spec fn xdigit(n: nat, up: bool) -> char { if n < 10 { (0x30 + n) as u8 as char } else if up { (0x37 + n) as u8 as char } else { (0x57 + n) as u8 as char } }
pub open spec fn xdigits(n: nat, up: bool) -> Seq<char> decreases n { if n < 16 { seq![xdigit(n, up)] } else { xdigits(n / 16, up) + seq![xdigit(n % 16, up)] } }
/// Filled up with zeros on the left, to the width `w`.
pub open spec fn xpad(t: Seq<char>, w: nat) -> Seq<char> { if t.len() < w { Seq::new((w - t.len()) as nat, |i: int| '0') + t } else { t } }
/// write! to a String
pub trait VAppend { spec fn now(&self) -> Seq<char>; fn v_append(&mut self, s: String) ensures final(self).now() == old(self).now() + s@; }
impl VAppend for String { open spec fn now(&self) -> Seq<char> { self@ } fn v_append(&mut self, s: String) { self.push_str(s.as_str()) } }
pub fn v_fmt_ok() -> (r: Result<(), FmtError>) ensures r is Ok { Ok(()) }
pub open spec fn dec(n: nat) -> Seq<char> decreases n { if n < 10 { seq![(0x30 + n) as u8 as char] } else { dec(n / 10) + seq![(0x30 + n % 10) as u8 as char] } }
/// `a` is a prefix of `b`.
#[verifier::opaque]
pub open spec fn pre(a: Seq<char>, b: Seq<char>) -> bool { a.is_prefix_of(b) }
pub broadcast proof fn lemma_pre_trans(a: Seq<char>, b: Seq<char>, c: Seq<char>)
    requires #[trigger] pre(a, b), #[trigger] pre(b, c)
    ensures pre(a, c)
{ reveal(pre); assert(a =~= c.subrange(0, a.len() as int)); }
pub broadcast proof fn lemma_pre_len(a: Seq<char>, b: Seq<char>) requires #[trigger] pre(a, b) ensures a.len() <= b.len() { reveal(pre); }
pub broadcast proof fn lemma_pre_self(a: Seq<char>) ensures #[trigger] pre(a, a) { reveal(pre); }
pub broadcast group group_fmt { lemma_pre_trans, lemma_pre_len, lemma_pre_self }
/// std::fmt::Display: `can_show` where it does not panic, `shows` the texts it may write.
/// An implementation only appends, so it is specified on an empty formatter.
pub trait VShow {
    spec fn can_show(&self) -> bool;
    spec fn shows(&self, t: Seq<char>) -> bool;
    fn v_fmt(&self, f: &mut Formatter) -> (r: Result<(), FmtError>)
        requires self.can_show(), old(f)@.len() == 0
        ensures r is Ok, self.shows(final(f)@);
}
/// `{}`
pub fn v_show<T: VShow + ?Sized>(x: &T, f: &mut Formatter) -> (r: Result<(), FmtError>)
    requires x.can_show()
    ensures r is Ok, exists|t: Seq<char>| #[trigger] x.shows(t) && final(f)@ == old(f)@ + t,
        old(f)@.len() == 0 ==> x.shows(final(f)@), pre(old(f)@, final(f)@)
{
    let mut g = Formatter::v_new();
    let r = x.v_fmt(&mut g);
    let s = g.v_done();
    f.v_lit(s.v_as_str());
    r
}
macro_rules! show { ($t:ty, $s:ident, $x:ident, $e:expr, $f:ident, $b:expr) => { verus! {
impl VShow for $t {
    open spec fn can_show(&self) -> bool { true }
    open spec fn shows(&self, $x: Seq<char>) -> bool { let $s = self; $e }
    fn v_fmt(&self, $f: &mut Formatter) -> (r: Result<(), FmtError>) { let $s = self; $b; Ok(()) }
}
} } }
show!(str, s, t, t == s.view(), f, f.v_lit(s));
show!(String, s, t, t == s.view(), f, f.v_lit(s.as_str()));
show!(char, s, t, t == seq![*s], f, f.v_lit(v_string_of(&s.x_pat()).as_str()));
show!(bool, s, t, true, f, f.v_lit(if *s { "true" } else { "false" }));
show!(u8, s, t, t == dec(*s as nat), f, f.v_lit(v_string_of(&v_dec(*s as u64)).as_str()));
show!(u16, s, t, t == dec(*s as nat), f, f.v_lit(v_string_of(&v_dec(*s as u64)).as_str()));
show!(u32, s, t, t == dec(*s as nat), f, f.v_lit(v_string_of(&v_dec(*s as u64)).as_str()));
show!(u64, s, t, t == dec(*s as nat), f, f.v_lit(v_string_of(&v_dec(*s)).as_str()));
show!(usize, s, t, t == dec(*s as nat), f, f.v_lit(v_string_of(&v_dec(*s as u64)).as_str()));
#[verifier::external_body] fn x_show_int(n: i64) -> String { real!(n.to_string()) }
show!(i32, s, t, true, f, f.v_lit(x_show_int(*s as i64).as_str()));
show!(isize, s, t, true, f, f.v_lit(x_show_int(*s as i64).as_str()));
impl<T: VShow + ?Sized> VShow for &T {
    open spec fn can_show(&self) -> bool { (**self).can_show() }
    open spec fn shows(&self, t: Seq<char>) -> bool { (**self).shows(t) }
    fn v_fmt(&self, f: &mut Formatter) -> (r: Result<(), FmtError>) { (**self).v_fmt(f) }
}
/// ToString, for everything that implements Display.
pub trait VToString { spec fn str_can(&self) -> bool; spec fn str_is(&self, t: Seq<char>) -> bool; fn v_to_string(&self) -> (r: String) requires self.str_can() ensures self.str_is(r@); }
impl<T: VShow + ?Sized> VToString for T {
    open spec fn str_can(&self) -> bool { self.can_show() }
    open spec fn str_is(&self, t: Seq<char>) -> bool { self.shows(t) }
    fn v_to_string(&self) -> (r: String) {
        let mut f = Formatter::v_new();
        let _ = self.v_fmt(&mut f);
        f.v_done()
    }
}

// ---------------------------------------------------------------- lengths
pub trait VLen {
    spec fn len_spec(&self) -> int;
    fn v_len(&self) -> (r: usize) ensures r == self.len_spec();
    fn v_is_empty(&self) -> (r: bool) ensures r == (self.len_spec() == 0);
}
impl<T> VLen for Vec<T> {
    open spec fn len_spec(&self) -> int { self@.len() as int }
    fn v_len(&self) -> (r: usize) { self.len() }
    fn v_is_empty(&self) -> (r: bool) { self.len() == 0 }
}
impl<T> VLen for [T] {
    open spec fn len_spec(&self) -> int { self@.len() as int }
    fn v_len(&self) -> (r: usize) { self.len() }
    fn v_is_empty(&self) -> (r: bool) { self.len() == 0 }
}
impl VLen for str {
    open spec fn len_spec(&self) -> int { blen(self@) as int }
    fn v_len(&self) -> (r: usize) { proof { lemma_enc_len(self@); } self.as_bytes().len() }
    fn v_is_empty(&self) -> (r: bool) { proof { lemma_blen0(self@); } self.is_empty() }
}
impl VLen for String {
    open spec fn len_spec(&self) -> int { blen(self@) as int }
    fn v_len(&self) -> (r: usize) { self.as_str().v_len() }
    fn v_is_empty(&self) -> (r: bool) { self.as_str().v_is_empty() }
}

// ---------------------------------------------------------------- panics
/// Either kind of build: unknown.
#[verifier::external_body]
pub fn v_debug_build() -> bool { real!(cfg!(debug_assertions)) }
pub fn v_assert(b: bool) requires b { if !b { v_panic() } }
#[verifier::external_body]
pub fn v_panic() -> ! requires false { real!(panic!("v_panic")) }
pub trait VUnwrap: Sized {
    type Out;
    spec fn is_good(self) -> bool;
    spec fn good(self) -> Self::Out;
    fn v_unwrap(self) -> (r: Self::Out) requires self.is_good() ensures r == self.good();
}
impl<T> VUnwrap for Option<T> {
    type Out = T;
    open spec fn is_good(self) -> bool { self is Some }
    open spec fn good(self) -> T { self->Some_0 }
    fn v_unwrap(self) -> (r: T) { match self { Some(x) => x, None => v_panic() } }
}
impl<T, E> VUnwrap for Result<T, E> {
    type Out = T;
    open spec fn is_good(self) -> bool { self is Ok }
    open spec fn good(self) -> T { self->Ok_0 }
    fn v_unwrap(self) -> (r: T) { match self { Ok(x) => x, Err(_) => v_panic() } }
}

// ---------------------------------------------------------------- iteration
/// An iterator over a finite sequence that is already determined.
/// (Kept in reverse, so that the next element is the last one.)
#[verifier::reject_recursive_types(T)]
pub struct Cursor<T> { v: Vec<T> }
pub open spec fn rev<T>(s: Seq<T>) -> Seq<T> { Seq::new(s.len(), |i: int| s[s.len() - 1 - i]) }
impl<T> Cursor<T> {
    pub closed spec fn rem(&self) -> Seq<T> { rev(self.v@) }
    pub fn v_of(v: Vec<T>) -> (r: Cursor<T>)
        ensures r.rem() == v@
    {
        let mut v = v;
        let ghost all = v@;
        let mut t: Vec<T> = Vec::new();
        while v.len() > 0
            invariant v@.len() <= all.len(), v@ == all.take(v@.len() as int), t@ == rev(all.skip(v@.len() as int))
            decreases v@.len()
        {
            let n = v.len();
            let x = v.pop().unwrap();
            t.push(x);
            proof { assert(t@ =~= rev(all.skip(v@.len() as int))); assert(v@ =~= all.take(v@.len() as int)); }
        }
        proof { assert(rev(t@) =~= all); }
        Cursor { v: t }
    }
    pub open spec fn wf(&self) -> bool { true }
    pub fn has_next(&self) -> (r: bool) ensures r == (self.rem().len() > 0) { self.v.len() > 0 }
    pub fn take_next(&mut self) -> (r: T)
        requires old(self).rem().len() > 0
        ensures r == old(self).rem()[0], final(self).rem() == old(self).rem().skip(1)
    { let r = self.v.pop().unwrap(); proof { assert(self.rem() =~= old(self).rem().skip(1)); } r }
    pub fn next(&mut self) -> (r: Option<T>)
        ensures old(self).rem().len() == 0 ==> r is None && final(self).rem().len() == 0,
                old(self).rem().len() > 0 ==> r is Some && r->Some_0 == old(self).rem()[0] && final(self).rem() == old(self).rem().skip(1)
    { let r = self.v.pop(); proof { if old(self).rem().len() > 0 { assert(self.rem() =~= old(self).rem().skip(1)); } } r }
    pub fn peek(&self) -> (r: Option<&T>)
        ensures self.rem().len() == 0 ==> r is None,
                self.rem().len() > 0 ==> r is Some && *r->Some_0 == self.rem()[0]
    { if self.v.len() == 0 { None } else { Some(&self.v[self.v.len() - 1]) } }
    pub fn count(self) -> (r: usize) requires self.rem().len() <= usize::MAX ensures r == self.rem().len() { self.v.len() }
    pub fn v_skip(self, n: usize) -> (r: Cursor<T>)
        ensures r.rem() == self.rem().skip(if n <= self.rem().len() { n as int } else { self.rem().len() as int })
    {
        let mut c = self;
        let ghost all = self.rem();
        let mut k = n;
        proof { assert(all.skip(0) =~= all); }
        while k > 0 && c.has_next()
            invariant k <= n, n - k <= all.len(), c.rem() == all.skip(n - k)
            decreases k
        { c.take_next(); proof { assert(c.rem() =~= all.skip(n - k + 1)); } k -= 1; }
        proof { if k > 0 { assert(c.rem() =~= all.skip(all.len() as int)); } }
        c
    }
    pub fn v_take(self, n: usize) -> (r: Cursor<T>)
        ensures r.rem() == self.rem().take(if n <= self.rem().len() { n as int } else { self.rem().len() as int })
    {
        let mut c = self;
        let ghost all = self.rem();
        let mut k = n;
        let mut t: Vec<T> = Vec::new();
        proof { assert(all.skip(0) =~= all); assert(all.take(0) =~= t@); }
        while k > 0 && c.has_next()
            invariant k <= n, n - k <= all.len(), c.rem() == all.skip(n - k), t@ == all.take(n - k)
            decreases k
        { t.push(c.take_next()); proof { assert(c.rem() =~= all.skip(n - k + 1)); assert(t@ =~= all.take(n - k + 1)); } k -= 1; }
        proof { assert(c.rem().len() == all.len() - (n - k)); if k > 0 { assert(n - k == all.len()); } }
        Cursor::v_of(t)
    }
    pub fn v_rev(self) -> (r: Cursor<T>)
        ensures r.rem() == rev(self.rem())
    {
        let t = self.v_rest();
        let r = Cursor { v: t };
        proof { assert(r.rem() =~= rev(self.rem())); }
        r
    }
    pub fn v_nth(&mut self, n: usize) -> (r: Option<T>)
        ensures n < old(self).rem().len() ==> r == Some(old(self).rem()[n as int]) && final(self).rem() == old(self).rem().skip(n + 1),
                n >= old(self).rem().len() ==> r is None && final(self).rem().len() == 0
    {
        let ghost all = self.rem();
        let mut k = n;
        proof { assert(all.skip(0) =~= all); }
        while k > 0 && self.has_next()
            invariant k <= n, n - k <= all.len(), self.rem() == all.skip(n - k)
            decreases k
        { self.take_next(); proof { assert(self.rem() =~= all.skip(n - k + 1)); } k -= 1; }
        proof { assert(self.rem().len() == all.len() - (n - k)); if n - k < all.len() { assert(all.skip(n - k).skip(1) =~= all.skip(n - k + 1)); } }
        self.next()
    }
    pub fn v_last_one(self) -> (r: Option<T>)
        ensures self.rem().len() == 0 ==> r is None, self.rem().len() > 0 ==> r == Some(self.rem().last())
    { let mut t = self.v_rest(); t.pop() }
    /// All that is left.
    pub fn v_rest(self) -> (r: Vec<T>)
        ensures r@ == self.rem()
    {
        let mut c = self;
        let ghost all = self.rem();
        let mut t: Vec<T> = Vec::new();
        while c.has_next()
            invariant c.rem().len() <= all.len(), c.rem() == all.skip(all.len() - c.rem().len()), t@ == all.take(all.len() - c.rem().len())
            decreases c.rem().len()
        {
            let ghost n = c.rem().len();
            t.push(c.take_next());
            proof { assert(c.rem() =~= all.skip(all.len() - c.rem().len())); assert(t@ =~= all.take(all.len() - c.rem().len())); }
        }
        proof { assert(t@ =~= all); }
        t
    }
}
fn v_refs<T>(s: &[T]) -> (r: Cursor<&T>)
    ensures refs_of(r.rem(), s@)
{
    let mut v: Vec<&T> = Vec::new();
    let mut i = 0;
    while i < s.len()
        invariant i <= s@.len(), v@.len() == i, forall|j: int| 0 <= j < i ==> *(#[trigger] v@[j]) == s@[j]
        decreases s@.len() - i
    { v.push(&s[i]); i += 1; }
    Cursor::v_of(v)
}
pub open spec fn refs_of<T>(r: Seq<&T>, s: Seq<T>) -> bool { r.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> *(#[trigger] r[i]) == s[i] }
pub trait VIter { type E; spec fn elems(&self) -> Seq<Self::E>; fn v_iter(&self) -> (r: Cursor<&Self::E>) ensures refs_of(r.rem(), self.elems()); }
impl<T> VIter for Vec<T> { type E = T; open spec fn elems(&self) -> Seq<T> { self@ } fn v_iter(&self) -> (r: Cursor<&T>) { v_refs(self.as_slice()) } }
impl<T> VIter for [T] { type E = T; open spec fn elems(&self) -> Seq<T> { self@ } fn v_iter(&self) -> (r: Cursor<&T>) { v_refs(self) } }
pub trait VInto: Sized { type E; spec fn into_ok(self, r: Seq<Self::E>) -> bool; fn v_into(self) -> (r: Cursor<Self::E>) ensures self.into_ok(r.rem()); }
impl<T> VInto for Vec<T> { type E = T; open spec fn into_ok(self, r: Seq<T>) -> bool { r == self@ } fn v_into(self) -> (r: Cursor<T>) { Cursor::v_of(self) } }
impl<'b, T> VInto for &'b Vec<T> { type E = &'b T; open spec fn into_ok(self, r: Seq<&'b T>) -> bool { refs_of(r, self@) } fn v_into(self) -> (r: Cursor<&'b T>) { v_refs(self.as_slice()) } }
impl<'b, T> VInto for &'b [T] { type E = &'b T; open spec fn into_ok(self, r: Seq<&'b T>) -> bool { refs_of(r, self@) } fn v_into(self) -> (r: Cursor<&'b T>) { v_refs(self) } }
impl<T> VInto for Cursor<T> { type E = T; open spec fn into_ok(self, r: Seq<T>) -> bool { r == self.rem() } fn v_into(self) -> (r: Cursor<T>) { self } }
pub open spec fn chunk_count(len: int, n: int) -> int { if len % n == 0 { len / n } else { len / n + 1 } }
pub open spec fn chunk<T>(s: Seq<T>, n: int, i: int) -> Seq<T> { s.subrange(i * n, if (i + 1) * n <= s.len() { (i + 1) * n } else { s.len() as int }) }
fn v_chunk_list<T>(s: &[T], n: usize) -> (r: Cursor<&[T]>)
    requires n > 0
    ensures r.rem().len() == chunk_count(s@.len() as int, n as int),
            forall|i: int| 0 <= i < r.rem().len() ==> (#[trigger] r.rem()[i])@ == chunk(s@, n as int, i)
{
    let mut v: Vec<&[T]> = Vec::new();
    let mut at = 0;
    proof { assert(0 * n == 0) by (nonlinear_arith); if s@.len() == 0 { lemma_chunk_count0(n as int); } }
    while at < s.len()
        invariant at <= s@.len(), n > 0, at < s@.len() ==> at == v@.len() * n, at == s@.len() ==> v@.len() == chunk_count(s@.len() as int, n as int),
            forall|i: int| 0 <= i < v@.len() ==> (#[trigger] v@[i])@ == chunk(s@, n as int, i)
        decreases s@.len() - at
    {
        let k = if s.len() - at < n { s.len() - at } else { n };
        proof {
            let m = v@.len() as int;
            assert((m + 1) * n == m * n + n) by (nonlinear_arith);
            if at + k == s@.len() { lemma_chunk_count(s@.len() as int, n as int, m); }
        }
        v.push(&s[at..at + k]);
        at = at + k;
    }
    Cursor::v_of(v)
}
proof fn lemma_chunk_count(len: int, n: int, m: int)
    requires n > 0, 0 <= m, m * n < len <= m * n + n
    ensures chunk_count(len, n) == m + 1
{
    let r = len - m * n;
    assert((m + 1) * n == m * n + n) by (nonlinear_arith);
    if r == n { vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(len, n, m + 1, 0); } else { vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(len, n, m, r); }
}
proof fn lemma_chunk_count0(n: int) requires n > 0 ensures chunk_count(0, n) == 0 { assert(0int % n == 0 && 0int / n == 0) by (nonlinear_arith) requires n > 0; }
pub trait VChunks { type E; spec fn whole(&self) -> Seq<Self::E>;
    fn v_chunks(&self, n: usize) -> (r: Cursor<&[Self::E]>)
        requires n > 0
        ensures r.rem().len() == chunk_count(self.whole().len() as int, n as int),
                forall|i: int| 0 <= i < r.rem().len() ==> (#[trigger] r.rem()[i])@ == chunk(self.whole(), n as int, i); }
impl<T> VChunks for [T] { type E = T; open spec fn whole(&self) -> Seq<T> { self@ } fn v_chunks(&self, n: usize) -> (r: Cursor<&[T]>) { v_chunk_list(self, n) } }
impl<T> VChunks for Vec<T> { type E = T; open spec fn whole(&self) -> Seq<T> { self@ } fn v_chunks(&self, n: usize) -> (r: Cursor<&[T]>) { v_chunk_list(self.as_slice(), n) } }
/// `a .. b` as an iterator.
pub struct RangeCur { pub a: usize, pub b: usize }
impl RangeCur {
    pub open spec fn rem(&self) -> Seq<usize> { if self.a <= self.b { Seq::new((self.b - self.a) as nat, |i: int| (self.a + i) as usize) } else { Seq::empty() } }
    pub open spec fn wf(&self) -> bool { true }
    pub fn has_next(&self) -> (r: bool) ensures r == (self.rem().len() > 0) { self.a < self.b }
    pub fn take_next(&mut self) -> (r: usize)
        requires old(self).rem().len() > 0
        ensures r == old(self).rem()[0], r == old(self).a, final(self).a == old(self).a + 1, final(self).b == old(self).b, final(self).rem() == old(self).rem().skip(1)
    { let x = self.a; self.a = x + 1; proof { assert(self.rem() =~= old(self).rem().skip(1)); } x }
}
pub fn v_range(a: usize, b: usize) -> (r: RangeCur) ensures r.a == a, r.b == b { RangeCur { a, b } }

// ---------------------------------------------------------------- moves, slices, ordering
pub fn v_mem_replace<T>(d: &mut T, v: T) -> (r: T) ensures r == *old(d), *final(d) == v { let mut x = v; std::mem::swap(d, &mut x); x }
pub fn v_add_all<T: Copy>(v: &mut Vec<T>, s: &[T])
    ensures final(v)@ == old(v)@ + s@
{
    let ghost v0 = v@;
    let mut i = 0;
    proof { assert(v@ =~= v0 + s@.take(0)); }
    while i < s.len()
        invariant i <= s@.len(), v@ == v0 + s@.take(i as int)
        decreases s@.len() - i
    { v.push(s[i]); i += 1; proof { assert(v@ =~= v0 + s@.take(i as int)); } }
    proof { assert(s@.take(i as int) =~= s@); }
}
pub fn v_vec_from<T: Copy>(s: &[T]) -> (r: Vec<T>) ensures r@ == s@ { let mut v = Vec::new(); v_add_all(&mut v, s); proof { assert(v@ =~= s@); } v }
pub trait VToVec { type E; spec fn src(&self) -> Seq<Self::E>; fn v_to_vec(&self) -> (r: Vec<Self::E>) ensures r@ == self.src(); }
impl<T: Copy> VToVec for [T] { type E = T; open spec fn src(&self) -> Seq<T> { self@ } fn v_to_vec(&self) -> (r: Vec<T>) { v_vec_from(self) } }
pub trait VExtend { type E; spec fn all(&self) -> Seq<Self::E>; fn v_extend_from_slice(&mut self, o: &[Self::E]) ensures final(self).all() == old(self).all() + o@; }
impl<T: Copy> VExtend for Vec<T> { type E = T; open spec fn all(&self) -> Seq<T> { self@ } fn v_extend_from_slice(&mut self, o: &[T]) { v_add_all(self, o) } }
impl<'b, T: Copy> Cursor<&'b T> {
    pub fn v_cloned(self) -> (r: Cursor<T>)
        ensures r.rem().len() == self.rem().len(), forall|i: int| 0 <= i < r.rem().len() ==> r.rem()[i] == *self.rem()[i], forall|s: Seq<T>| #[trigger] refs_of(self.rem(), s) ==> r.rem() == s
    {
        let mut c = self;
        let ghost all = c.rem();
        let mut v: Vec<T> = Vec::new();
        while c.has_next()
            invariant c.rem() == all.skip(v@.len() as int), v@.len() <= all.len(), forall|i: int| 0 <= i < v@.len() ==> v@[i] == *all[i]
            decreases c.rem().len()
        { let x = c.take_next(); v.push(*x); proof { assert(c.rem() =~= all.skip(v@.len() as int)); } }
        proof { assert forall|s: Seq<T>| #[trigger] refs_of(self.rem(), s) implies v@ == s by { assert forall|i: int| 0 <= i < s.len() implies #[trigger] v@[i] == s[i] by { assert(*self.rem()[i] == s[i]); } assert(v@ =~= s); } }
        Cursor::v_of(v)
    }
    pub fn v_copied(self) -> (r: Cursor<T>)
        ensures r.rem().len() == self.rem().len(), forall|i: int| 0 <= i < r.rem().len() ==> r.rem()[i] == *self.rem()[i], forall|s: Seq<T>| #[trigger] refs_of(self.rem(), s) ==> r.rem() == s
    { self.v_cloned() }
}
/// What a vector can be extended with.
pub trait VSource<T>: Sized { spec fn gives(self) -> Seq<T>; fn x_vec(self) -> (r: Vec<T>) ensures r@ == self.gives(); }
impl<T> VSource<T> for Cursor<T> { open spec fn gives(self) -> Seq<T> { self.rem() } fn x_vec(self) -> (r: Vec<T>) { self.v_rest() } }
impl<T> VSource<T> for Vec<T> { open spec fn gives(self) -> Seq<T> { self@ } fn x_vec(self) -> (r: Vec<T>) { self } }
impl<'b, T: Copy> VSource<T> for &'b Vec<T> { open spec fn gives(self) -> Seq<T> { self@ } fn x_vec(self) -> (r: Vec<T>) { v_vec_from(self.as_slice()) } }
impl<'b, T: Copy> VSource<T> for &'b [T] { open spec fn gives(self) -> Seq<T> { self@ } fn x_vec(self) -> (r: Vec<T>) { v_vec_from(self) } }
pub trait VExtendAny<T> { spec fn every(&self) -> Seq<T>; fn v_extend<X: VSource<T>>(&mut self, x: X) ensures final(self).every() == old(self).every() + x.gives(); }
impl<T> VExtendAny<T> for Vec<T> { open spec fn every(&self) -> Seq<T> { self@ } fn v_extend<X: VSource<T>>(&mut self, x: X) { let mut v = x.x_vec(); self.append(&mut v); } }
pub trait VOrd: Copy { spec fn ord(self) -> int; fn x_gt(self, o: Self) -> (r: bool) ensures r == (self.ord() > o.ord()); }
impl VOrd for U12 { open spec fn ord(self) -> int { self@ } fn x_gt(self, o: Self) -> (r: bool) { self > o } }
impl VOrd for usize { open spec fn ord(self) -> int { self as int } fn x_gt(self, o: Self) -> (r: bool) { self > o } }
impl VOrd for u8 { open spec fn ord(self) -> int { self as int } fn x_gt(self, o: Self) -> (r: bool) { self > o } }
impl VOrd for u32 { open spec fn ord(self) -> int { self as int } fn x_gt(self, o: Self) -> (r: bool) { self > o } }
impl VOrd for i32 { open spec fn ord(self) -> int { self as int } fn x_gt(self, o: Self) -> (r: bool) { self > o } }
impl VOrd for u64 { open spec fn ord(self) -> int { self as int } fn x_gt(self, o: Self) -> (r: bool) { self > o } }
impl VOrd for u16 { open spec fn ord(self) -> int { self as int } fn x_gt(self, o: Self) -> (r: bool) { self > o } }
pub fn v_max2<T: VOrd>(a: T, b: T) -> (r: T) ensures r == (if a.ord() > b.ord() { a } else { b }) { if a.x_gt(b) { a } else { b } }
pub fn v_min2<T: VOrd>(a: T, b: T) -> (r: T) ensures r == (if a.ord() <= b.ord() { a } else { b }) { if a.x_gt(b) { b } else { a } }
pub trait VMinMax: VOrd { fn v_max(self, o: Self) -> (r: Self) ensures r == (if self.ord() > o.ord() { self } else { o }); fn v_min(self, o: Self) -> (r: Self) ensures r == (if self.ord() <= o.ord() { self } else { o }); }
impl VMinMax for U12 { fn v_max(self, o: Self) -> (r: Self) { v_max2(self, o) } fn v_min(self, o: Self) -> (r: Self) { v_min2(self, o) } }
impl VMinMax for u8 { fn v_max(self, o: Self) -> (r: Self) { v_max2(self, o) } fn v_min(self, o: Self) -> (r: Self) { v_min2(self, o) } }
impl VMinMax for u16 { fn v_max(self, o: Self) -> (r: Self) { v_max2(self, o) } fn v_min(self, o: Self) -> (r: Self) { v_min2(self, o) } }
impl VMinMax for u32 { fn v_max(self, o: Self) -> (r: Self) { v_max2(self, o) } fn v_min(self, o: Self) -> (r: Self) { v_min2(self, o) } }
impl VMinMax for i32 { fn v_max(self, o: Self) -> (r: Self) { v_max2(self, o) } fn v_min(self, o: Self) -> (r: Self) { v_min2(self, o) } }
impl VMinMax for usize { fn v_max(self, o: Self) -> (r: Self) { v_max2(self, o) } fn v_min(self, o: Self) -> (r: Self) { v_min2(self, o) } }

// ---------------------------------------------------------------- maps from names
/// std::collections::HashMap with names as keys, as a list of pairs: a later pair hides an earlier one.
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct HashMap<K, V> { e: Vec<(String, V)>, k: std::marker::PhantomData<K> }
pub open spec fn map_of<V>(e: Seq<(String, V)>) -> Map<Seq<char>, V> decreases e.len() {
    if e.len() == 0 { Map::empty() } else { map_of(e.drop_last()).insert(e.last().0@, e.last().1) }
}
proof fn lemma_map_of<V>(e: Seq<(String, V)>, i: int, k: Seq<char>)
    requires -1 <= i < e.len(), forall|j: int| i < j < e.len() ==> (#[trigger] e[j]).0@ != k, i >= 0 ==> e[i].0@ == k
    ensures map_of(e).dom().contains(k) == (i >= 0), i >= 0 ==> map_of(e)[k] == e[i].1
    decreases e.len()
{
    if e.len() > 0 && i < e.len() - 1 {
        assert(e[e.len() - 1].0@ != k);
        assert forall|j: int| i < j < e.drop_last().len() implies (#[trigger] e.drop_last()[j]).0@ != k by { assert(e.drop_last()[j] == e[j]); }
        lemma_map_of(e.drop_last(), i, k);
    }
}
proof fn lemma_map_remove<V>(e: Seq<(String, V)>, i: int, v: V)
    requires 0 <= i < e.len()
    ensures map_of(e.remove(i)).insert(e[i].0@, v) == map_of(e).insert(e[i].0@, v)
    decreases e.len()
{
    let k = e[i].0@;
    if i == e.len() - 1 {
        assert(e.remove(i) =~= e.drop_last());
        assert(map_of(e.drop_last()).insert(k, e.last().1).insert(k, v) =~= map_of(e.drop_last()).insert(k, v));
    } else {
        let d = e.drop_last();
        lemma_map_remove(d, i, v);
        assert(e.remove(i).drop_last() =~= d.remove(i));
        assert(e.remove(i).last() == e.last());
        let (l, w) = (e.last().0@, e.last().1);
        if l == k {
            assert(map_of(d.remove(i)).insert(k, w).insert(k, v) =~= map_of(d.remove(i)).insert(k, v));
            assert(map_of(d).insert(k, w).insert(k, v) =~= map_of(d).insert(k, v));
        } else {
            assert(map_of(d.remove(i)).insert(l, w).insert(k, v) =~= map_of(d.remove(i)).insert(k, v).insert(l, w));
            assert(map_of(d).insert(l, w).insert(k, v) =~= map_of(d).insert(k, v).insert(l, w));
        }
    }
}
pub trait KeyLike { spec fn key(&self) -> Seq<char>; fn x_key(&self) -> (r: String) ensures r@ == self.key(); }
impl KeyLike for str { open spec fn key(&self) -> Seq<char> { self@ } fn x_key(&self) -> (r: String) { self.to_owned() } }
impl KeyLike for &str { open spec fn key(&self) -> Seq<char> { self@ } fn x_key(&self) -> (r: String) { v_string_from(self) } }
impl KeyLike for String { open spec fn key(&self) -> Seq<char> { self@ } fn x_key(&self) -> (r: String) { v_string_from(self.as_str()) } }
impl<K: KeyLike, V> HashMap<K, V> {
    pub closed spec fn view(&self) -> Map<Seq<char>, V> { map_of(self.e@) }
    fn find(&self, k: &str) -> (r: Option<usize>)
        ensures match r { Some(i) => i < self.e@.len() && self.e@[i as int].0@ == k@ && self@.dom().contains(k@) && self@[k@] == self.e@[i as int].1, None => !self@.dom().contains(k@) }
    {
        let mut i = self.e.len();
        while i > 0
            invariant i <= self.e@.len(), forall|j: int| i <= j < self.e@.len() ==> (#[trigger] self.e@[j]).0@ != k@
            decreases i
        {
            i -= 1;
            if self.e[i].0.as_str() == k { proof { lemma_map_of(self.e@, i as int, k@); } return Some(i); }
        }
        proof { lemma_map_of(self.e@, -1, k@); }
        None
    }
    pub fn new() -> (r: Self) ensures r@ == Map::<Seq<char>, V>::empty() { HashMap { e: Vec::new(), k: std::marker::PhantomData } }
    pub fn get<Q: KeyLike + ?Sized>(&self, k: &Q) -> (r: Option<&V>) ensures r is Some == self@.dom().contains(k.key()), r is Some ==> *r->Some_0 == self@[k.key()] { match self.find(k.x_key().as_str()) { Some(i) => Some(&self.e[i].1), None => None } }
    pub fn remove<Q: KeyLike + ?Sized>(&mut self, k: &Q) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.remove(k.key()), r is Some == old(self)@.dom().contains(k.key()), r is Some ==> r->Some_0 == old(self)@[k.key()]
    {
        let s = k.x_key();
        let mut r: Option<V> = None;
        let ghost m0 = self@;
        loop
            invariant m0 == old(self)@, self@.remove(s@) == m0.remove(s@), r is None ==> self@ == m0, r is Some ==> m0.dom().contains(s@) && r->Some_0 == m0[s@], s@ == k.key()
            decreases self.e@.len()
        {
            match self.find(s.as_str()) {
                None => { proof { assert(self@ =~= self@.remove(s@)); } return r; }
                Some(i) => {
                    let ghost e0 = self.e@;
                    let x = self.e.remove(i);
                    proof {
                        lemma_map_remove(e0, i as int, e0[i as int].1);
                        let (a, b) = (map_of(e0.remove(i as int)), map_of(e0));
                        assert(a.insert(s@, e0[i as int].1).remove(s@) =~= a.remove(s@));
                        assert(b.insert(s@, e0[i as int].1).remove(s@) =~= b.remove(s@));
                    }
                    if r.is_none() { r = Some(x.1); }
                }
            }
        }
    }
    pub fn contains_key<Q: KeyLike + ?Sized>(&self, k: &Q) -> (r: bool) ensures r == self@.dom().contains(k.key()) { self.find(k.x_key().as_str()).is_some() }
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.insert(k.key(), v), r is Some == old(self)@.dom().contains(k.key()), r is Some ==> r->Some_0 == old(self)@[k.key()]
    {
        let s = k.x_key();
        let at = self.find(s.as_str());
        let r = match at { Some(i) => { proof { lemma_map_remove(self.e@, i as int, v); } Some(self.e.remove(i).1) }, None => None };
        let ghost e1 = self.e@;
        self.e.push((s, v));
        proof { assert(self.e@.drop_last() =~= e1); }
        r
    }
}

// ---------------------------------------------------------------- twelve_bit::U12
//@@U12 (the contracts up to the end marker are proved against the sources of the dependency by `c8x deps`)
#[verifier::external_body]
pub struct U12 { v: u16 }
impl Clone for U12 { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { real!(*self) } }
impl Copy for U12 {}
//@@X
impl U12 { #[verifier::external_body] pub fn x_u16(self) -> u16 { real!(self.v) } #[verifier::external_body] pub fn x_new(v: u16) -> U12 { real!(U12 { v }) } }
//@@ENDX
impl View for U12 { type V = int; uninterp spec fn view(&self) -> int; }
/// The 12-bit value n.
pub uninterp spec fn u12(n: int) -> U12;
pub broadcast axiom fn axiom_u12_range(x: U12) ensures 0 <= #[trigger] x@ <= 4095, u12(x@) == x;
pub broadcast axiom fn axiom_u12_make(n: int) ensures 0 <= n <= 4095 ==> (#[trigger] u12(n))@ == n;
pub broadcast group group_u12 { axiom_u12_range, axiom_u12_make }
impl U12 {
    #[verifier::external_body]
    pub fn min_value() -> (r: U12) ensures r@ == 0 { real!(exr::mk(exr::U::min_value())) }
    #[verifier::external_body]
    pub fn max_value() -> (r: U12) ensures r@ == 4095 { real!(exr::mk(exr::U::max_value())) }
    #[verifier::external_body]
    pub fn checked_add(self, o: U12) -> (r: Option<U12>) ensures r == (if self@ + o@ <= 4095 { Some(u12(self@ + o@)) } else { None::<U12> }) { real!(exr::tb(self).checked_add(exr::tb(o)).map(exr::mk)) }
    #[verifier::external_body]
    pub fn wrapping_add(self, o: U12) -> (r: U12) ensures r@ == (self@ + o@) % 4096 { real!(exr::mk(exr::tb(self).wrapping_add(exr::tb(o)))) }
    #[verifier::external_body]
    pub fn saturating_add(self, o: U12) -> (r: U12) ensures r@ == (if self@ + o@ <= 4095 { self@ + o@ } else { 4095 }) { real!(exr::mk(exr::tb(self).saturating_add(exr::tb(o)))) }
    #[verifier::external_body]
    pub fn overflowing_add(self, o: U12) -> (r: (U12, bool)) ensures r.0@ == (self@ + o@) % 4096, r.1 == (self@ + o@ > 4095) { real!(let (a, b) = exr::tb(self).overflowing_add(exr::tb(o)); (exr::mk(a), b)) }
    #[verifier::external_body]
    pub fn checked_sub(self, o: U12) -> (r: Option<U12>) ensures r == (if self@ >= o@ { Some(u12(self@ - o@)) } else { None::<U12> }) { real!(exr::tb(self).checked_sub(exr::tb(o)).map(exr::mk)) }
    #[verifier::external_body]
    pub fn wrapping_sub(self, o: U12) -> (r: U12) ensures r@ == (if self@ >= o@ { self@ - o@ } else { self@ - o@ + 4096 }) { real!(exr::mk(exr::tb(self).wrapping_sub(exr::tb(o)))) }
    #[verifier::external_body]
    pub fn saturating_sub(self, o: U12) -> (r: U12) ensures r@ == (if self@ >= o@ { self@ - o@ } else { 0 }) { real!(exr::mk(exr::tb(self).saturating_sub(exr::tb(o)))) }
    #[verifier::external_body]
    pub fn overflowing_sub(self, o: U12) -> (r: (U12, bool)) ensures r.0@ == (if self@ >= o@ { self@ - o@ } else { self@ - o@ + 4096 }), r.1 == (self@ < o@) { real!(let (a, b) = exr::tb(self).overflowing_sub(exr::tb(o)); (exr::mk(a), b)) }
    #[verifier::external_body]
    pub fn checked_mul(self, o: U12) -> (r: Option<U12>) ensures r == (if self@ * o@ <= 4095 { Some(u12(self@ * o@)) } else { None::<U12> }) { real!(exr::tb(self).checked_mul(exr::tb(o)).map(exr::mk)) }
    #[verifier::external_body]
    pub fn saturating_mul(self, o: U12) -> (r: U12) ensures r@ == (if self@ * o@ <= 4095 { self@ * o@ } else { 4095 }) { real!(exr::mk(exr::tb(self).saturating_mul(exr::tb(o)))) }
    #[verifier::external_body]
    pub fn wrapping_mul(self, o: U12) -> (r: U12) ensures r@ == (self@ * o@) % 4096 { real!(exr::mk(exr::tb(self).wrapping_mul(exr::tb(o)))) }
    #[verifier::external_body]
    pub fn checked_div(self, o: U12) -> (r: Option<U12>) ensures r == (if o@ != 0 { Some(u12(self@ / o@)) } else { None::<U12> }) { real!(exr::tb(self).checked_div(exr::tb(o)).map(exr::mk)) }
    #[verifier::external_body]
    pub fn checked_rem(self, o: U12) -> (r: Option<U12>) ensures r == (if o@ != 0 { Some(u12(self@ % o@)) } else { None::<U12> }) { real!(exr::tb(self).checked_rem(exr::tb(o)).map(exr::mk)) }
}
impl AddSpecImpl<U12> for U12 {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, o: U12) -> bool { self@ + o@ <= 4095 }
    open spec fn add_spec(self, o: U12) -> U12 { u12(self@ + o@) }
}
impl core::ops::Add<U12> for U12 { type Output = U12;
    #[verifier::external_body] fn add(self, o: U12) -> U12 { real!(exr::mk(exr::tb(self) + exr::tb(o))) }
}
impl SubSpecImpl<U12> for U12 {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, o: U12) -> bool { self@ >= o@ }
    open spec fn sub_spec(self, o: U12) -> U12 { u12(self@ - o@) }
}
impl core::ops::Sub<U12> for U12 { type Output = U12;
    #[verifier::external_body] fn sub(self, o: U12) -> U12 { real!(exr::mk(exr::tb(self) - exr::tb(o))) }
}
impl MulSpecImpl<U12> for U12 {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, o: U12) -> bool { self@ * o@ <= 4095 }
    open spec fn mul_spec(self, o: U12) -> U12 { u12(self@ * o@) }
}
impl core::ops::Mul<U12> for U12 { type Output = U12;
    #[verifier::external_body] fn mul(self, o: U12) -> U12 { real!(exr::mk(exr::tb(self) * exr::tb(o))) }
}
impl DivSpecImpl<U12> for U12 {
    open spec fn obeys_div_spec() -> bool { true }
    open spec fn div_req(self, o: U12) -> bool { o@ != 0 }
    open spec fn div_spec(self, o: U12) -> U12 { u12(self@ / o@) }
}
impl core::ops::Div<U12> for U12 { type Output = U12;
    #[verifier::external_body] fn div(self, o: U12) -> U12 { real!(exr::mk(exr::tb(self) / exr::tb(o))) }
}
impl RemSpecImpl<U12> for U12 {
    open spec fn obeys_rem_spec() -> bool { true }
    open spec fn rem_req(self, o: U12) -> bool { o@ != 0 }
    open spec fn rem_spec(self, o: U12) -> U12 { u12(self@ % o@) }
}
impl core::ops::Rem<U12> for U12 { type Output = U12;
    #[verifier::external_body] fn rem(self, o: U12) -> U12 { real!(exr::mk(exr::tb(self) % exr::tb(o))) }
}
impl PartialEqSpecImpl for U12 {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &U12) -> bool { self@ == o@ }
}
impl PartialEq for U12 {
    #[verifier::external_body] fn eq(&self, o: &U12) -> bool { real!(exr::tb(*self) == exr::tb(*o)) }
}
impl PartialOrdSpecImpl for U12 {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &U12) -> Option<Ordering> { if self@ < o@ { Some(Ordering::Less) } else if self@ > o@ { Some(Ordering::Greater) } else { Some(Ordering::Equal) } }
}
impl PartialOrd for U12 {
    #[verifier::external_body] fn partial_cmp(&self, o: &U12) -> Option<Ordering> { real!(exr::tb(*self).partial_cmp(&exr::tb(*o))) }
}
/// u12::MAX, u12::MIN and the macro u12!
#[verifier::external_body]
pub fn v_u12_max() -> (r: U12) ensures r@ == 4095 { real!(exr::mk(exr::MAX)) }
#[verifier::external_body]
pub fn v_u12_min() -> (r: U12) ensures r@ == 0 { real!(exr::mk(exr::MIN)) }
#[verifier::external_body]
pub fn v_u12_lit(n: u16) -> (r: U12) requires n <= 4095 ensures r == u12(n as int) { real!(exr::mk(exr::FailableInto::<exr::U>::unchecked_into(n))) }
/// U12::from
#[verifier::external_body]
pub fn v_u12_from(small: u8) -> (r: U12) ensures r == u12(small as int) { real!(exr::mk(exr::U::from(small))) }
#[verifier::external_body]
pub fn v_u12_default() -> (r: U12) ensures r@ == 0 { real!(exr::mk(exr::U::default())) }
/// Conversions that may fail; `unchecked_into` panics where `failable_into` is None.
pub trait FailableInto<T>: Sized {
    spec fn fits(self) -> bool;
    spec fn fit(self) -> T;
    fn failable_into(self) -> (r: Option<T>) ensures r == (if self.fits() { Some(self.fit()) } else { None::<T> });
    fn unchecked_into(self) -> (r: T) requires self.fits() ensures r == self.fit();
}
impl FailableInto<u8> for U12 {
    open spec fn fits(self) -> bool { self@ <= 255 }
    open spec fn fit(self) -> u8 { self@ as u8 }
    #[verifier::external_body] fn failable_into(self) -> (r: Option<u8>) { real!(exr::FailableInto::<u8>::failable_into(exr::tb(self))) }
    #[verifier::external_body] fn unchecked_into(self) -> (r: u8) { real!(exr::FailableInto::<u8>::unchecked_into(exr::tb(self))) }
}
impl FailableInto<U12> for u16 {
    open spec fn fits(self) -> bool { self <= 4095 }
    open spec fn fit(self) -> U12 { u12(self as int) }
    #[verifier::external_body] fn failable_into(self) -> (r: Option<U12>) { real!(exr::FailableInto::<exr::U>::failable_into(self).map(exr::mk)) }
    #[verifier::external_body] fn unchecked_into(self) -> (r: U12) { real!(exr::mk(exr::FailableInto::<exr::U>::unchecked_into(self))) }
}
impl FailableInto<U12> for u32 {
    open spec fn fits(self) -> bool { self <= 4095 }
    open spec fn fit(self) -> U12 { u12(self as int) }
    #[verifier::external_body] fn failable_into(self) -> (r: Option<U12>) { real!(exr::FailableInto::<exr::U>::failable_into(self).map(exr::mk)) }
    #[verifier::external_body] fn unchecked_into(self) -> (r: U12) { real!(exr::mk(exr::FailableInto::<exr::U>::unchecked_into(self))) }
}
impl FailableInto<U12> for u64 {
    open spec fn fits(self) -> bool { self <= 4095 }
    open spec fn fit(self) -> U12 { u12(self as int) }
    #[verifier::external_body] fn failable_into(self) -> (r: Option<U12>) { real!(exr::FailableInto::<exr::U>::failable_into(self).map(exr::mk)) }
    #[verifier::external_body] fn unchecked_into(self) -> (r: U12) { real!(exr::mk(exr::FailableInto::<exr::U>::unchecked_into(self))) }
}
impl FailableInto<U12> for usize {
    open spec fn fits(self) -> bool { self <= 4095 }
    open spec fn fit(self) -> U12 { u12(self as int) }
    #[verifier::external_body] fn failable_into(self) -> (r: Option<U12>) { real!(exr::FailableInto::<exr::U>::failable_into(self).map(exr::mk)) }
    #[verifier::external_body] fn unchecked_into(self) -> (r: U12) { real!(exr::mk(exr::FailableInto::<exr::U>::unchecked_into(self))) }
}
//@@END
/// u16::from and usize::from.
pub trait VNum: Sized { spec fn num(self) -> int; fn x_num(self) -> (r: u16) ensures r == self.num(); }
impl VNum for U12 { open spec fn num(self) -> int { self@ } #[verifier::external_body] fn x_num(self) -> (r: u16) { real!(u16::from(exr::tb(self))) } }
impl VNum for u8 { open spec fn num(self) -> int { self as int } fn x_num(self) -> (r: u16) { self as u16 } }
impl VNum for u16 { open spec fn num(self) -> int { self as int } fn x_num(self) -> (r: u16) { self as u16 } }
impl VNum for bool { open spec fn num(self) -> int { if self { 1 } else { 0 } } fn x_num(self) -> (r: u16) { if self { 1 } else { 0 } } }
macro_rules! to_num { ($f:ident, $t:ty) => { verus! {
    pub fn $f<T: VNum>(x: T) -> (r: $t) ensures r == x.num() { x.x_num() as $t }
} } }
to_num!(v_to_usize, usize);
to_num!(v_to_u16, u16);
to_num!(v_to_u32, u32);
to_num!(v_to_u64, u64);
to_num!(v_to_i32, i32);

// ---------------------------------------------------------------- ihex
pub enum Record { Data { offset: u16, value: Vec<u8> }, EndOfFile, ExtendedSegmentAddress(u16), StartSegmentAddress { cs: u16, ip: u16 }, ExtendedLinearAddress(u16), StartLinearAddress(u32) }
impl Record {
    pub open spec fn v(&self) -> crate::spec::RecV { match *self { Record::Data { offset, value } => crate::spec::RecV::Data(offset as int, value@), Record::EndOfFile => crate::spec::RecV::Eof, _ => crate::spec::RecV::Other } }
}
pub open spec fn recs_v(a: Seq<Record>) -> Seq<crate::spec::RecV> { a.map_values(|l: Record| l.v()) }
pub struct WriterError { pub e: () }
/// ihex::writer::create_object_file_representation
#[verifier::external_body]
pub fn v_ihex_create(rs: &[Record]) -> (r: Result<String, WriterError>)
    ensures
        r is Ok <==> (rs@.len() > 0 && (forall|i: int| 0 <= i < rs@.len() ==> ((#[trigger] recs_v(rs@)[i] is Eof) <==> i == rs@.len() - 1))
            && (forall|i: int| 0 <= i < rs@.len() ==> ((#[trigger] recs_v(rs@)[i]) is Data ==> recs_v(rs@)[i]->Data_1.len() <= 255))),
        r is Ok && (forall|i: int| 0 <= i < rs@.len() ==> !((#[trigger] recs_v(rs@)[i]) is Other)) ==> r->Ok_0@ + seq!['\n'] == crate::spec::hex_text(recs_v(rs@)),
{ real!(exr::ihex_create(rs)) }

// ---------------------------------------------------------------- token streams
//@@TOKENS
/// What the parser needs of its scanner: the tokens still to come.
pub trait TokenSource<'a>: Sized {
    spec fn src_wf(&self) -> bool;
    spec fn rem(&self) -> Seq<crate::spec::TokV>;
    fn next(&mut self) -> (r: Option<crate::assembler::token::Token<'a>>)
        requires old(self).src_wf()
        ensures final(self).src_wf(),
            old(self).rem().len() == 0 ==> r is None && final(self).rem().len() == 0,
            old(self).rem().len() > 0 ==> r is Some && r->Some_0.v() == old(self).rem()[0] && final(self).rem() == old(self).rem().skip(1);
}

//@@ENDTOKENS
// ---------------------------------------------------------------- the outside world
/// What the process sees and has done. Printing to standard error does not fail, nor does printing to standard output
/// before a write to it has failed.
#[verifier::external_body]
pub struct World { x: () }
impl World {
    #[verifier::external_body]
    pub fn x_new() -> World { real!(World { x: () }) }
    pub uninterp spec fn st(&self) -> crate::spec::Io;
    pub uninterp spec fn env(&self) -> crate::spec::Env;
}
#[verifier::external_body]
pub struct IoError { e: String }
impl IoError { #[verifier::external_body] fn x_text(&self) -> String { real!(self.e.clone()) } }
impl VShow for IoError {
    open spec fn can_show(&self) -> bool { true }
    open spec fn shows(&self, t: Seq<char>) -> bool { true }
    fn v_fmt(&self, f: &mut Formatter) -> (r: Result<(), FmtError>) { f.v_lit(self.x_text().as_str()); Ok(()) }
}
/// std::env::args().collect()
#[verifier::external_body]
pub fn v_args(w: &mut World) -> (r: Vec<String>) ensures *final(w) == *old(w), texts(r@) == old(w).env().args, r@.len() > 0 { real!(std::env::args().collect()) }
/// std::process::exit
#[verifier::external_body]
pub fn v_exit(w: &mut World, code: i32) -> !
    requires
        /*@C14*/ crate::spec::end_status(old(w).env(), old(w).st(), code as int),
        /*@C15*/ crate::spec::end_where(old(w).env(), old(w).st(), code as int),
        /*@C07*/ crate::spec::end_overlap(old(w).env(), old(w).st(), code as int),
        /*@C09,C14*/ crate::spec::end_hex(old(w).env(), old(w).st(), code as int),
{ real!(std::process::exit(code)) }
/// print!, println!: panics where standard output takes no text
#[verifier::external_body]
pub fn v_print(w: &mut World, s: String)
    requires /*@C13,C14*/ !old(w).st().stuck,
    ensures final(w).env() == old(w).env(), final(w).st() == (crate::spec::Io { out: old(w).st().out + s@, ..old(w).st() }),
        pre(old(w).st().out, final(w).st().out), old(w).st().out.len() == 0 ==> final(w).st().out == s@
{ real!(print!("{}", s)) }
/// eprint!, eprintln!
#[verifier::external_body]
pub fn v_eprint(w: &mut World, s: String)
    ensures final(w).env() == old(w).env(), final(w).st() == (crate::spec::Io { err: old(w).st().err + s@, ..old(w).st() }),
        pre(old(w).st().err, final(w).st().err), old(w).st().err.len() == 0 ==> final(w).st().err == s@
{ real!(eprint!("{}", s)) }
pub enum Dest { Out, Err, Path(Seq<char>) }
/// std::fs::File
#[verifier::external_body]
pub struct File { x: std::fs::File }
impl File {
    pub uninterp spec fn path(&self) -> Seq<char>;
    /// Nothing was read yet.
    pub uninterp spec fn fresh(&self) -> bool;
    #[verifier::external_body]
    pub fn v_read_to_string(&mut self, w: &mut World, buf: &mut String) -> (r: Result<usize, IoError>)
        requires untouched(old(w).st())
        ensures *final(w) == *old(w), final(self).path() == old(self).path(), !final(self).fresh(),
            old(self).fresh() && r is Ok ==> old(w).env().files.dom().contains(old(self).path()) && final(buf)@ == old(buf)@ + old(w).env().files[old(self).path()],
            old(self).fresh() && r is Err ==> !old(w).env().files.dom().contains(old(self).path()),
    { real!(std::io::Read::read_to_string(&mut self.x, buf).map_err(|e| IoError { e: e.to_string() })) }
}
use crate::spec::untouched;
#[verifier::external_body]
pub fn v_file_open<T: VText + ?Sized>(w: &mut World, p: &T) -> (r: Result<File, IoError>)
    requires untouched(old(w).st())
    ensures *final(w) == *old(w), r is Ok ==> r->Ok_0.path() == p.text() && r->Ok_0.fresh(), r is Err ==> !old(w).env().files.dom().contains(p.text())
{ real!(std::fs::File::open(p.v_as_str()).map(|x| File { x }).map_err(|e| IoError { e: e.to_string() })) }
/// std::fs::File::create: truncates or creates
#[verifier::external_body]
pub fn v_file_create<T: VText + ?Sized>(w: &mut World, p: &T) -> (r: Result<File, IoError>)
    ensures final(w).env() == old(w).env(),
        r is Ok ==> r->Ok_0.path() == p.text() && !r->Ok_0.fresh() && final(w).st() == (crate::spec::Io { created: old(w).st().created.push(p.text()), ..old(w).st() }),
        r is Err ==> final(w).st() == (crate::spec::Io { bad: true, ..old(w).st() })
{ real!(std::fs::File::create(p.v_as_str()).map(|x| File { x }).map_err(|e| IoError { e: e.to_string() })) }
/// std::fs::read_to_string
#[verifier::external_body]
pub fn v_fs_read_to_string<T: VText + ?Sized>(w: &mut World, p: &T) -> (r: Result<String, IoError>)
    requires untouched(old(w).st())
    ensures *final(w) == *old(w),
        r is Ok ==> old(w).env().files.dom().contains(p.text()) && r->Ok_0@ == old(w).env().files[p.text()],
        r is Err ==> !old(w).env().files.dom().contains(p.text())
{ real!(std::fs::read_to_string(p.v_as_str()).map_err(|e| IoError { e: e.to_string() })) }
/// std::fs::write: create, then write everything
#[verifier::external_body]
pub fn v_fs_write<T: VText + ?Sized, B: VRaw + ?Sized>(w: &mut World, p: &T, b: &B) -> (r: Result<(), IoError>)
    ensures final(w).env() == old(w).env(),
        r is Ok ==> (forall|t: Seq<char>| #[trigger] encode_utf8(t) == b.raw() ==> final(w).st() == (crate::spec::Io { created: old(w).st().created.push(p.text()), file: old(w).st().file + t, ..old(w).st() })),
        r is Err ==> final(w).st().bad && final(w).st().stuck == old(w).st().stuck && final(w).st().out == old(w).st().out && final(w).st().err == old(w).st().err
{ real!(std::fs::write(p.v_as_str(), b.x_raw()).map_err(|e| IoError { e: e.to_string() })) }
/// std::fs::OpenOptions: the flags, then open. Without truncation the old contents may stay.
#[verifier::external_body]
pub fn v_open_with<T: VText + ?Sized>(w: &mut World, p: &T, read: bool, write: bool, create: bool, truncate: bool, append: bool, create_new: bool) -> (r: Result<File, IoError>)
    ensures final(w).env() == old(w).env(),
        read && !write && !append ==> *final(w) == *old(w) && (r is Ok ==> r->Ok_0.path() == p.text() && r->Ok_0.fresh()) && (r is Err ==> !old(w).env().files.dom().contains(p.text())),
        write && !append && r is Ok ==> r->Ok_0.path() == p.text() && !r->Ok_0.fresh() && final(w).st().created == old(w).st().created.push(p.text())
            && final(w).st().out == old(w).st().out && final(w).st().err == old(w).st().err && final(w).st().bad == old(w).st().bad && final(w).st().stuck == old(w).st().stuck
            && (create && truncate && !create_new ==> final(w).st().file == old(w).st().file),
        write && !append && create && !create_new && r is Err ==> final(w).st() == (crate::spec::Io { bad: true, ..old(w).st() })
{ real!(std::fs::OpenOptions::new().read(read).write(write).create(create).truncate(truncate).append(append).create_new(create_new).open(p.v_as_str()).map(|x| File { x }).map_err(|e| IoError { e: e.to_string() })) }
/// AsRef<[u8]>
pub trait VRaw { spec fn raw(&self) -> Seq<u8>; fn x_raw(&self) -> (r: Vec<u8>) ensures r@ == self.raw(); }
impl VRaw for str { open spec fn raw(&self) -> Seq<u8> { encode_utf8(self@) } fn x_raw(&self) -> (r: Vec<u8>) { v_vec_from(self.as_bytes()) } }
impl VRaw for String { open spec fn raw(&self) -> Seq<u8> { encode_utf8(self@) } fn x_raw(&self) -> (r: Vec<u8>) { v_vec_from(self.as_str().as_bytes()) } }
impl VRaw for [u8] { open spec fn raw(&self) -> Seq<u8> { self@ } fn x_raw(&self) -> (r: Vec<u8>) { v_vec_from(self) } }
impl VRaw for Vec<u8> { open spec fn raw(&self) -> Seq<u8> { self@ } fn x_raw(&self) -> (r: Vec<u8>) { v_vec_from(self.as_slice()) } }
impl<T: VRaw + ?Sized> VRaw for &T { open spec fn raw(&self) -> Seq<u8> { (**self).raw() } fn x_raw(&self) -> (r: Vec<u8>) { (**self).x_raw() } }
#[verifier::external_body]
pub struct Stdout { x: std::io::Stdout }
impl Stdout { #[verifier::external_body] pub fn v_lock(&self) -> (r: Stdout) { real!(Stdout { x: std::io::stdout() }) } }
#[verifier::external_body]
pub struct Stderr { x: std::io::Stderr }
impl Stderr { #[verifier::external_body] pub fn v_lock(&self) -> (r: Stderr) { real!(Stderr { x: std::io::stderr() }) } }
/// A boxed writer.
#[verifier::external_body]
pub struct Sink { x: Box<dyn std::io::Write> }
impl Sink { pub uninterp spec fn to(&self) -> Dest; pub uninterp spec fn held(&self) -> Option<Seq<char>>; }
/// std::io::BufWriter. What it holds reaches its destination when it is flushed; what dropping it does is not relied upon.
#[verifier::external_body]
pub struct BufWriter { x: Box<dyn std::io::Write> }
impl BufWriter { pub uninterp spec fn to(&self) -> Dest; pub uninterp spec fn held(&self) -> Option<Seq<char>>; }
#[verifier::external_body]
pub fn v_bufwriter<T: VWrite>(x: T) -> (r: BufWriter) ensures r.to() == x.dest(), x.buf() is None ==> r.held() == Some(Seq::<char>::empty()) { real!(BufWriter { x: Box::new(std::io::BufWriter::new(x.v_sink().x)) }) }
/// std::io::BufReader: reads the same text
pub fn v_bufreader<T>(x: T) -> (r: T) ensures r == x { x }
#[verifier::external_body]
pub fn v_stdout(w: &mut World) -> (r: Stdout) ensures *final(w) == *old(w) { real!(Stdout { x: std::io::stdout() }) }
#[verifier::external_body]
pub fn v_stderr(w: &mut World) -> (r: Stderr) ensures *final(w) == *old(w) { real!(Stderr { x: std::io::stderr() }) }
/// The state after the bytes of the text `t` were written to `d`.
pub open spec fn wrote(a: crate::spec::Io, d: Dest, t: Seq<char>) -> crate::spec::Io {
    match d { Dest::Out => crate::spec::Io { out: a.out + t, ..a }, Dest::Err => crate::spec::Io { err: a.err + t, ..a }, Dest::Path(_) => crate::spec::Io { file: a.file + t, ..a } }
}
pub open spec fn io_failed(a: crate::spec::Io, d: Dest, b: crate::spec::Io) -> bool { (!(d is Out) ==> b.stuck == a.stuck) && b.bad && b.created == a.created && pre(a.out, b.out) && pre(a.err, b.err) }
/// std::io::Write
pub trait VWrite {
    spec fn dest(&self) -> Dest;
    /// What is held back: None for a writer that holds nothing back.
    spec fn buf(&self) -> Option<Seq<char>>;
    fn v_sink(self) -> (r: Sink) where Self: Sized ensures r.to() == self.dest(), r.held() == self.buf();
    fn v_write_all(&mut self, w: &mut World, b: &[u8]) -> (r: Result<(), IoError>)
        ensures final(self).dest() == old(self).dest(), final(w).env() == old(w).env(),
            old(self).buf() is None ==> final(self).buf() is None,
            r is Ok ==> (forall|t: Seq<char>| #[trigger] encode_utf8(t) == b@ ==>
                match old(self).buf() { None => final(w).st() == wrote(old(w).st(), old(self).dest(), t), Some(h) => *final(w) == *old(w) && final(self).buf() == Some(h + t) }),
            r is Err ==> io_failed(old(w).st(), old(self).dest(), final(w).st());
    /// Some of the bytes, not all of them.
    fn v_write(&mut self, w: &mut World, b: &[u8]) -> (r: Result<usize, IoError>)
        ensures final(self).dest() == old(self).dest(), final(w).env() == old(w).env(),
            r is Ok ==> r->Ok_0 <= b@.len() && final(w).st().stuck == old(w).st().stuck && final(w).st().bad == old(w).st().bad && final(w).st().created == old(w).st().created && pre(old(w).st().out, final(w).st().out) && pre(old(w).st().err, final(w).st().err),
            r is Err ==> io_failed(old(w).st(), old(self).dest(), final(w).st());
    fn v_flush(&mut self, w: &mut World) -> (r: Result<(), IoError>)
        ensures final(self).dest() == old(self).dest(), final(w).env() == old(w).env(),
            old(self).buf() is None ==> final(self).buf() is None,
            r is Ok ==> match old(self).buf() { None => *final(w) == *old(w), Some(h) => final(w).st() == wrote(old(w).st(), old(self).dest(), h) && final(self).buf() == Some(Seq::<char>::empty()) },
            r is Err ==> io_failed(old(w).st(), old(self).dest(), final(w).st());
}
macro_rules! vwrite { ($t:ty, $s:ident, $e:expr, $h:expr) => { verus! {
impl VWrite for $t {
    open spec fn dest(&self) -> Dest { let $s = self; $e }
    open spec fn buf(&self) -> Option<Seq<char>> { let $s = self; $h }
    #[verifier::external_body] fn v_sink(self) -> (r: Sink) { real!(Sink { x: Box::new(self.x) }) }
    #[verifier::external_body] fn v_write_all(&mut self, w: &mut World, b: &[u8]) -> (r: Result<(), IoError>) { real!(std::io::Write::write_all(&mut self.x, b).map_err(|e| IoError { e: e.to_string() })) }
    #[verifier::external_body] fn v_write(&mut self, w: &mut World, b: &[u8]) -> (r: Result<usize, IoError>) { real!(std::io::Write::write(&mut self.x, b).map_err(|e| IoError { e: e.to_string() })) }
    #[verifier::external_body] fn v_flush(&mut self, w: &mut World) -> (r: Result<(), IoError>) { real!(std::io::Write::flush(&mut self.x).map_err(|e| IoError { e: e.to_string() })) }
}
} } }
vwrite!(File, s, Dest::Path(s.path()), None);
vwrite!(Stdout, s, Dest::Out, None);
vwrite!(Stderr, s, Dest::Err, None);
vwrite!(Sink, s, s.to(), s.held());
vwrite!(BufWriter, s, s.to(), s.held());
/// A parameter that is called with a text and prints it (Fn(&str)).
pub trait VLog {
    spec fn can(&self) -> bool;
    fn v_call(&self, w: &mut World, s: &str)
        requires self.can()
        ensures final(w).env() == old(w).env(), crate::spec::talked(old(w).st(), final(w).st());
}

// ---------------------------------------------------------------- getopts
/// What getopts makes of arguments, given the declared options; None where it reports an error.
pub uninterp spec fn getopts(opts: Set<crate::spec::OptV>, args: Seq<Seq<char>>) -> Option<crate::spec::CliV>;
#[verifier::external_body]
pub struct Options { x: exr::Options }
#[verifier::external_body]
pub struct Fail { e: String }
impl Fail { #[verifier::external_body] fn x_text(&self) -> String { real!(self.e.clone()) } }
impl VShow for Fail {
    open spec fn can_show(&self) -> bool { true }
    open spec fn shows(&self, t: Seq<char>) -> bool { true }
    fn v_fmt(&self, f: &mut Formatter) -> (r: Result<(), FmtError>) { f.v_lit(self.x_text().as_str()); Ok(()) }
}
pub struct Matches { pub free: Vec<String>, pub m: MatchesRest }
#[verifier::external_body]
pub struct MatchesRest { x: exr::Matches }
impl MatchesRest { pub uninterp spec fn v(&self) -> crate::spec::CliV; pub uninterp spec fn opts(&self) -> Set<crate::spec::OptV>; }
impl Options {
    pub uninterp spec fn opts(&self) -> Set<crate::spec::OptV>;
    #[verifier::external_body]
    pub fn new() -> (r: Options) ensures r.opts() == Set::<crate::spec::OptV>::empty() { real!(Options { x: exr::Options::new() }) }
    #[verifier::external_body]
    pub fn optopt(&mut self, short: &str, long: &str, desc: &str, hint: &str)
        requires short@.len() == 1
        ensures final(self).opts() == old(self).opts().insert(crate::spec::OptV { short: short@, long: long@, value: true }) { real!(self.x.optopt(short, long, desc, hint);) }
    #[verifier::external_body]
    pub fn optflag(&mut self, short: &str, long: &str, desc: &str)
        requires short@.len() == 1
        ensures final(self).opts() == old(self).opts().insert(crate::spec::OptV { short: short@, long: long@, value: false }) { real!(self.x.optflag(short, long, desc);) }
    #[verifier::external_body]
    pub fn parse(&self, args: &[String]) -> (r: Result<Matches, Fail>)
        ensures match getopts(self.opts(), texts(args@)) { None => r is Err, Some(m) => r is Ok && r->Ok_0.m.v() == m && r->Ok_0.m.opts() == self.opts() && texts(r->Ok_0.free@) == m.free } { real!(self.x.parse(args).map(|m| Matches { free: m.free.clone(), m: MatchesRest { x: m } }).map_err(|e| Fail { e: e.to_string() })) }
    #[verifier::external_body]
    pub fn usage<T: VText + ?Sized>(&self, brief: &T) -> (r: String) ensures r@.len() > 0 { real!(self.x.usage(brief.v_as_str())) }
}
impl Matches {
    #[verifier::external_body]
    pub fn opt_present(&self, n: &str) -> (r: bool)
        requires exists|o: crate::spec::OptV| #[trigger] self.m.opts().contains(o) && (o.short == n@ || o.long == n@)
        ensures forall|o: crate::spec::OptV| #[trigger] self.m.opts().contains(o) && (o.short == n@ || o.long == n@) ==> r == self.m.v().has.contains(o) { real!(self.m.x.opt_present(n)) }
    #[verifier::external_body]
    pub fn opt_str(&self, n: &str) -> (r: Option<String>)
        requires exists|o: crate::spec::OptV| #[trigger] self.m.opts().contains(o) && (o.short == n@ || o.long == n@)
        ensures forall|o: crate::spec::OptV| #[trigger] self.m.opts().contains(o) && (o.short == n@ || o.long == n@) ==> (match r { Some(s) => self.m.v().val.dom().contains(o) && s@ == self.m.v().val[o], None => !self.m.v().val.dom().contains(o) }) { real!(self.m.x.opt_str(n)) }
}
/// Slices of vectors.
pub trait VSlice { type E; spec fn items(&self) -> Seq<Self::E>;
    fn v_slice_from(&self, a: usize) -> (r: &[Self::E]) requires a <= self.items().len() ensures r@ == self.items().skip(a as int);
    fn v_slice(&self, a: usize, b: usize) -> (r: &[Self::E]) requires a <= b <= self.items().len() ensures r@ == self.items().subrange(a as int, b as int);
}
impl<T> VSlice for Vec<T> { type E = T; open spec fn items(&self) -> Seq<T> { self@ }
    fn v_slice_from(&self, a: usize) -> (r: &[T]) { proof { assert(self@.subrange(a as int, self@.len() as int) =~= self@.skip(a as int)); } &self[a..self.len()] }
    fn v_slice(&self, a: usize, b: usize) -> (r: &[T]) { &self[a..b] } }
impl<T> VSlice for [T] { type E = T; open spec fn items(&self) -> Seq<T> { self@ }
    fn v_slice_from(&self, a: usize) -> (r: &[T]) { proof { assert(self@.subrange(a as int, self@.len() as int) =~= self@.skip(a as int)); } &self[a..self.len()] }
    fn v_slice(&self, a: usize, b: usize) -> (r: &[T]) { &self[a..b] } }

// ---------------------------------------------------------------- bit packing
pub broadcast proof fn lemma_shl12(a: u16) requires a <= 15 ensures #[trigger] (a << 12) == a * 4096
{ assert((a << 12) == mul(a, 4096)) by (bit_vector) requires a <= 15; }
pub broadcast proof fn lemma_shl8(a: u16) requires a <= 255 ensures #[trigger] (a << 8) == a * 256
{ assert((a << 8) == mul(a, 256)) by (bit_vector) requires a <= 255; }
pub broadcast proof fn lemma_shl4(a: u16) requires a <= 4095 ensures #[trigger] (a << 4) == a * 16
{ assert((a << 4) == mul(a, 16)) by (bit_vector) requires a <= 4095; }
/// Disjoint bit fields: `|` adds.
pub broadcast proof fn lemma_or(a: u16, b: u16)
    ensures (a % 16 == 0 && b < 16) || (a % 256 == 0 && b < 256) || (a % 4096 == 0 && b < 4096)
            || (b % 16 == 0 && a < 16) || (b % 256 == 0 && a < 256) || (b % 4096 == 0 && a < 4096) ==> #[trigger] (a | b) == a + b
{
    assert((a % 16 == 0 && b < 16) ==> (a | b) == add(a, b) && add(a, b) >= a) by (bit_vector);
    assert((a % 256 == 0 && b < 256) ==> (a | b) == add(a, b) && add(a, b) >= a) by (bit_vector);
    assert((a % 4096 == 0 && b < 4096) ==> (a | b) == add(a, b) && add(a, b) >= a) by (bit_vector);
    assert((b % 16 == 0 && a < 16) ==> (a | b) == add(a, b) && add(a, b) >= a) by (bit_vector);
    assert((b % 256 == 0 && a < 256) ==> (a | b) == add(a, b) && add(a, b) >= a) by (bit_vector);
    assert((b % 4096 == 0 && a < 4096) ==> (a | b) == add(a, b) && add(a, b) >= a) by (bit_vector);
}
pub broadcast proof fn lemma_shr8(w: u16) ensures #[trigger] (w >> 8) == w / 256
{ assert((w >> 8) == w / 256) by (bit_vector); }
pub broadcast proof fn lemma_and_ff00(w: u16) ensures #[trigger] (w & 0xFF00) == w - w % 256, (w & 0xFF00) / 256 == w / 256
{ assert((w & 0xFF00) == sub(w, w % 256) && w % 256 <= w) by (bit_vector); assert((w & 0xFF00) / 256 == w / 256) by (bit_vector); }
pub broadcast proof fn lemma_and_ff(w: u16) ensures #[trigger] (w & 0xFF) == w % 256
{ assert((w & 0xFF) == w % 256) by (bit_vector); }
pub broadcast proof fn lemma_shr0(w: u16) ensures #[trigger] (w >> 0) == w
{ assert((w >> 0) == w) by (bit_vector); }
/// The low 12 bits.
pub broadcast proof fn lemma_and_fff(w: u16) ensures #[trigger] (w & 0xFFF) == w % 4096
{ assert((w & 0xFFF) == w % 4096) by (bit_vector); }
pub broadcast group group_u12_bits { lemma_and_fff, lemma_and_ff }
pub broadcast proof fn lemma_b_shl4(a: u8) requires a <= 15 ensures #[trigger] (a << 4) == a * 16
{ assert((a << 4) == mul(a, 16)) by (bit_vector) requires a <= 15; }
pub broadcast proof fn lemma_b_or(a: u8, b: u8)
    ensures a % 16 == 0 && b < 16 ==> #[trigger] (a | b) == a + b, b % 16 == 0 && a < 16 ==> (a | b) == a + b
{
    assert((a % 16 == 0 && b < 16) ==> (a | b) == add(a, b) && add(a, b) >= a) by (bit_vector);
    assert((b % 16 == 0 && a < 16) ==> (a | b) == add(a, b) && add(a, b) >= a) by (bit_vector);
}
pub broadcast proof fn lemma_b_and(a: u8) ensures #[trigger] (a & 0xF) == a % 16
{ assert((a & 0xF) == a % 16) by (bit_vector); }
pub broadcast proof fn lemma_b_shr4(a: u8) ensures #[trigger] (a >> 4) == a / 16
{ assert((a >> 4) == a / 16) by (bit_vector); }
pub broadcast proof fn lemma_and_f(w: u16) ensures #[trigger] (w & 0xF) == w % 16
{ assert((w & 0xF) == w % 16) by (bit_vector); }
pub broadcast proof fn lemma_shr4(w: u16) ensures #[trigger] (w >> 4) == w / 16
{ assert((w >> 4) == w / 16) by (bit_vector); }
pub broadcast group group_bits { lemma_b_shl4, lemma_b_or, lemma_b_and, lemma_b_shr4, lemma_and_f, lemma_shr4, lemma_shl12, lemma_shl8, lemma_shl4, lemma_or, lemma_shr8, lemma_and_ff00, lemma_and_ff, lemma_shr0 }
} // verus!
}
