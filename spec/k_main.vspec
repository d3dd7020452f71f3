//@module main_rs
use crate::assembler::scanner::*;
use crate::assembler::data_range::*;
use crate::assembler::token::*;
/// The tokens of a text are in range and have printable locations.
pub proof fn lemma_tokens_ok(s: Seq<char>, file: Seq<char>, line: int, col: int)
    requires line >= 1, col >= 1, col + s.len() <= usize::MAX, blen(s) <= isize::MAX
    ensures toks_ok(tokens(s, file, line, col))
    decreases s.len()
{
    let w = run(s, |c: char| is_ws(c)) as int;
    lemma_run(s, |c: char| is_ws(c));
    let t = s.skip(w);
    if t.len() > 0 {
        lemma_lex1(t);
        let (n, k) = lex1(t);
        lemma_first_line(t, n - 1);
        lemma_blen_suffix(s, w);
        lemma_lex1_ok(t);
        lemma_blen_suffix(t, n);
        lemma_adv_bounds(line, col + w, t.take(n));
        let tok = TokV { k, loc: LocV { file, line, col: col + w, len: first_line(t.take(n)) } };
        assert(tok_ok(tok));
        if !(k is Err) {
            let (l2, c2) = adv(line, col + w, t.take(n));
            lemma_tokens_ok(t.skip(n), file, l2, c2);
            let rest = tokens(t.skip(n), file, l2, c2);
            let all = seq![tok] + rest;
            assert(tokens(s, file, line, col) == all);
            assert forall|i: int| 0 <= i < all.len() implies tok_ok(#[trigger] all[i]) by { if i > 0 { assert(all[i] == rest[i - 1]); } }
        }
    }
}
pub proof fn lemma_val_nonneg(s: Seq<char>, radix: int)
    requires digits(s, radix) || s.len() == 0, radix >= 0
    ensures val(s, radix) >= 0
    decreases s.len()
{
    if s.len() > 0 {
        assert(dig(s[s.len() - 1]) < radix);
        assert forall|i: int| 0 <= i < s.drop_last().len() implies dig(#[trigger] s.drop_last()[i]) < radix by { assert(s.drop_last()[i] == s[i]); }
        lemma_val_nonneg(s.drop_last(), radix);
        assert(val(s.drop_last(), radix) * radix >= 0) by (nonlinear_arith) requires val(s.drop_last(), radix) >= 0, radix >= 0;
    }
}
/// A token's content is in range.
pub proof fn lemma_lex1_ok(s: Seq<char>)
    requires s.len() > 0, blen(s) <= isize::MAX
    ensures match lex1(s).1 { K::Num(n) => 0 <= n <= 4095, K::Ident(x) => is_ascii(x), K::Str(x) => blen(x) <= isize::MAX, _ => true }
{
    let (n, k) = lex1(s);
    lemma_lex1(s);
    if s[0] == '"' && m_str(s) is Some {
        lemma_str_body(s.skip(1));
        lemma_blen_take(s, 1, n - 1); lemma_blen_suffix(s, n - 1);
    }
    if (s[0] == '$' || s[0] == '#') && m_hex(s) is Some { lemma_hex_digits(s, n); lemma_val_bound(s.subrange(1, n), 16); }
    if s[0] == '%' && m_bin(s) is Some { lemma_bval_mono(s.subrange(1, n), n - 1); }
    if is_digit(s[0]) && m_dec(s) is Some { lemma_dec_digits(s, n); lemma_val_nonneg(s.take(n), 10); }
    if is_alpha_(s[0]) && m_ident(s) is Some {
        lemma_run(s.skip(1), |c: char| is_identc(c));
        assert forall|i: int| 0 <= i < n implies (#[trigger] s.take(n)[i] as u32) < 128 by { if i > 0 { assert(s.take(n)[i] == s.skip(1)[i - 1]); assert(is_identc(s.skip(1)[i - 1])); } }
    }
}
/// An address occurs in the bytes of the ranges when some range covers it.
pub open spec fn holds(img: Seq<(int, u8)>, a: int) -> bool { exists|p: int| 0 <= p < img.len() && (#[trigger] img[p]).0 == a }
pub open spec fn covered(rs: Seq<RangeV>, a: int) -> bool { exists|i: int| 0 <= i < rs.len() && covers(#[trigger] rs[i], a) }
pub proof fn lemma_flat_has(rs: Seq<RangeV>, a: int)
    ensures holds(flat(rs), a) <==> covered(rs, a)
    decreases rs.len()
{
    if rs.len() > 0 {
        let p0 = rs.drop_last(); let l = rs.last();
        let x = flat(p0); let y = at(l.start, l.data);
        lemma_flat_has(p0, a);
        if holds(flat(rs), a) {
            let p = choose|p: int| 0 <= p < flat(rs).len() && (#[trigger] flat(rs)[p]).0 == a;
            if p < x.len() { assert(x[p].0 == a); assert(holds(x, a)); let i = choose|i: int| 0 <= i < p0.len() && covers(#[trigger] p0[i], a); assert(covers(rs[i], a)); }
            else { assert(flat(rs)[p] == y[p - x.len()]); assert(covers(rs[rs.len() - 1], a)); }
        }
        if covered(rs, a) {
            let i = choose|i: int| 0 <= i < rs.len() && covers(#[trigger] rs[i], a);
            if i < p0.len() { assert(covers(p0[i], a)); let p = choose|p: int| 0 <= p < x.len() && (#[trigger] x[p]).0 == a; assert(flat(rs)[p].0 == a); }
            else { let p = x.len() + (a - l.start); assert(flat(rs)[p] == y[a - l.start]); assert(flat(rs)[p].0 == a); }
        }
    }
}
/// Ranges share an address when some address holds two bytes.
pub proof fn lemma_clash(rs: Seq<RangeV>)
    ensures clash(rs) <==> dup(flat(rs))
    decreases rs.len()
{
    if rs.len() > 0 {
        let p0 = rs.drop_last(); let l = rs.last();
        let x = flat(p0); let y = at(l.start, l.data); let z = flat(rs);
        lemma_clash(p0);
        if clash(rs) {
            let (i, j) = choose|i: int, j: int| 0 <= i < j < rs.len() && meet(rs[i], rs[j]);
            if j < p0.len() {
                assert(meet(p0[i], p0[j])); assert(clash(p0));
                let (p, q) = choose|p: int, q: int| 0 <= p < q < x.len() && (#[trigger] x[p]).0 == (#[trigger] x[q]).0;
                assert(z[p] == x[p] && z[q] == x[q]);
            } else {
                let a = choose|a: int| covers(rs[i], a) && covers(rs[j], a);
                assert(covers(p0[i], a)); assert(covered(p0, a));
                lemma_flat_has(p0, a);
                let p = choose|p: int| 0 <= p < x.len() && (#[trigger] x[p]).0 == a;
                let q = x.len() + (a - l.start);
                assert(z[p].0 == a); assert(z[q] == y[a - l.start]); assert(z[q].0 == a);
            }
        }
        if dup(z) {
            let (p, q) = choose|p: int, q: int| 0 <= p < q < z.len() && (#[trigger] z[p]).0 == (#[trigger] z[q]).0;
            if q < x.len() {
                assert(x[p] == z[p] && x[q] == z[q]); assert(dup(x));
                let (i, j) = choose|i: int, j: int| 0 <= i < j < p0.len() && meet(p0[i], p0[j]);
                assert(meet(rs[i], rs[j]));
            } else {
                assert(z[q] == y[q - x.len()]);
                let a = z[q].0;
                if p < x.len() {
                    assert(x[p].0 == a); assert(holds(x, a)); lemma_flat_has(p0, a);
                    let i = choose|i: int| 0 <= i < p0.len() && covers(#[trigger] p0[i], a);
                    assert(covers(rs[i], a) && covers(rs[rs.len() - 1], a));
                    assert(meet(rs[i], rs[rs.len() - 1]));
                } else { assert(z[p] == y[p - x.len()]); }
            }
        }
    }
}
/// The same facts where the proofs of the functions below need them.
pub broadcast proof fn b_tokens(t: Seq<char>, f: Seq<char>)
    requires blen(t) <= isize::MAX
    ensures toks_ok(#[trigger] tokens(t, f, 1, 1))
{ lemma_blen_ge(t); lemma_tokens_ok(t, f, 1, 1); }
pub broadcast proof fn b_clash(rs: Seq<RangeV>) ensures #[trigger] clash(rs) <==> dup(flat(rs)) { lemma_clash(rs); }
pub broadcast proof fn b_fault(ns: Seq<NodeV>, l: LocV)
    requires #[trigger] asm_fault(ns, l), nodes_wf(ns)
    ensures loc_ok(l)
{}
pub broadcast proof fn b_opts(s: Set<OptV>, a: Seq<Seq<char>>)
    requires forall|x: OptV| s.contains(x) <==> (x == opt_o() || x == opt_h() || x == opt_v())
    ensures #[trigger] getopts(s, a) == getopts(c8s_opts(), a), s == c8s_opts(), s.contains(opt_o()), s.contains(opt_h()), s.contains(opt_v())
{ assert(s =~= c8s_opts()); }
pub broadcast proof fn b_texts(s: Seq<String>, k: int)
    requires 0 <= k <= s.len()
    ensures #[trigger] texts(s.skip(k)) == texts(s).skip(k)
{ assert(texts(s.skip(k)) =~= texts(s).skip(k)); }
pub broadcast group group_main { b_tokens, b_clash, b_fault, b_opts, b_texts }
//@fn main_rs::assemble_file
//@props C07,C09,C13,C14,C15
//@params input_path,output_path,log_program_error
    requires
        log_program_error.can(), old(__w).st() == io0(),
        cmd(old(__w).env().args) == Cmd::Job(input_path@, output_path@),
    ensures
        /*@C14*/ end_status(final(__w).env(), final(__w).st(), 0),
        /*@C15*/ end_where(final(__w).env(), final(__w).st(), 0),
        /*@C07*/ end_overlap(final(__w).env(), final(__w).st(), 0),
        /*@C09,C14*/ end_hex(final(__w).env(), final(__w).st(), 0),
//@at entry
    proof { broadcast use group_str, group_fmt, group_main; }
//@loop 0
    invariant
        forall|k: int| 0 <= k < $seq.len() ==> pair_ok(#[trigger] $seq[k]),
        __w.env() == old(__w).env(), untouched(__w.st()), said(__w.st()),
//@fn main_rs::print_usage
//@props C14
//@params program,options
    requires !old(__w).st().stuck,
    ensures final(__w).env() == old(__w).env(), /*@C14*/ talked(old(__w).st(), final(__w).st()),
//@at entry
    proof { broadcast use group_fmt; reveal(pre); }
//@fn main_rs::print_version
//@props C14
    requires !old(__w).st().stuck,
    ensures final(__w).env() == old(__w).env(), /*@C14*/ talked(old(__w).st(), final(__w).st()),
//@at entry
    proof { broadcast use group_fmt; reveal(pre); }
//@fn main_rs::main
//@props C07,C09,C13,C14,C15
    requires old(__w).st() == io0(),
    ensures
        /*@C14*/ end_status(final(__w).env(), final(__w).st(), 0),
        /*@C15*/ end_where(final(__w).env(), final(__w).st(), 0),
        /*@C07*/ end_overlap(final(__w).env(), final(__w).st(), 0),
        /*@C09,C14*/ end_hex(final(__w).env(), final(__w).st(), 0),
//@at entry
    proof { broadcast use group_str, group_fmt, group_main; reveal(pre); }
//@endfn
