//@module scanner
use crate::assembler::token::*;
impl<'a> Scanner<'a> {
    pub open spec fn ci(&self) -> int { cidx(self.input@, self.position as int) }
    /// The text not yet scanned.
    pub open spec fn rest(&self) -> Seq<char> { self.input@.skip(self.ci()) }
    pub open spec fn wf(&self) -> bool {
        on_bnd(self.input@, self.position as int)
        && 1 <= self.current_line <= self.ci() + 1 && 1 <= self.current_line_offset <= self.ci() + 1
    }
    pub open spec fn toks(&self) -> Seq<TokV> { tokens(self.rest(), self.file_name@, self.current_line as int, self.current_line_offset as int) }
    pub open spec fn loc(&self, n: int) -> LocV { LocV { file: self.file_name@, line: self.current_line as int, col: self.current_line_offset as int, len: first_line(self.rest().take(n)) } }
    /// `self` is `o` after its next `n` characters.
    pub open spec fn after(&self, o: &Self, n: int) -> bool {
        self.wf() && self.input == o.input && self.file_name == o.file_name && self.ci() == o.ci() + n && self.position == o.position + blen(o.rest().take(n))
        && (self.current_line as int, self.current_line_offset as int) == adv(o.current_line as int, o.current_line_offset as int, o.rest().take(n))
    }
    /// `r` is the token at the position of `o`, and `self` is the scanner behind it.
    pub open spec fn lexed(&self, o: &Self, r: Token) -> bool {
        let (n, k) = lex1(o.rest());
        &&& self.wf() && self.input == o.input && self.file_name == o.file_name
        &&& /*@C10,C11,C16,C17*/ r.v().k == k
        &&& /*@C15*/ r.v().loc == o.loc(n)
        &&& (if k is Err { self.rest().len() == 0 } else { self.after(o, n) })
    }
    pub open spec fn starts(&self, c: char) -> bool { self.rest().len() > 0 && self.rest()[0] == c }
}
/// Character index, remaining length and byte offsets behind the position.
pub proof fn lemma_pos(s: Seq<char>, p: int, j: int)
    requires on_bnd(s, p), 0 <= j <= s.len() - cidx(s, p)
    ensures
        0 <= cidx(s, p) <= s.len(), bnd(s, p, cidx(s, p)),
        s.skip(cidx(s, p)).len() == s.len() - cidx(s, p),
        bnd(s, p + blen(s.skip(cidx(s, p)).take(j)), cidx(s, p) + j),
        on_bnd(s, p + blen(s.skip(cidx(s, p)).take(j))),
        cidx(s, p + blen(s.skip(cidx(s, p)).take(j))) == cidx(s, p) + j,
        p + blen(s.skip(cidx(s, p)).take(j)) <= blen(s),
        blen(s.skip(cidx(s, p)).take(j)) >= j,
{
    let i = cidx(s, p);
    lemma_bnd(s, p);
    lemma_blen_take(s, i, i + j);
    assert(s.subrange(i, i + j) =~= s.skip(i).take(j));
    lemma_cidx(s, p + blen(s.skip(i).take(j)), i + j);
    lemma_blen_suffix(s, i + j);
}
pub proof fn lemma_at_end(s: Seq<char>, p: int)
    requires on_bnd(s, p)
    ensures p >= blen(s) <==> s.skip(cidx(s, p)).len() == 0, 0 <= cidx(s, p) <= s.len(), bnd(s, blen(s) as int, s.len() as int), cidx(s, blen(s) as int) == s.len(), on_bnd(s, blen(s) as int), cidx(s, p) <= blen(s)
{
    let i = cidx(s, p);
    lemma_bnd(s, p);
    lemma_blen_suffix(s, i); lemma_blen0(s.skip(i));
    assert(s.take(s.len() as int) =~= s);
    assert(bnd(s, blen(s) as int, s.len() as int));
    lemma_cidx(s, blen(s) as int, s.len() as int);
    lemma_blen_ge(s);
}
/// Everything a scanning function needs to know about the text of `n` characters at the position.
pub proof fn lemma_here(sc: &Scanner, n: int)
    requires sc.wf(), 0 <= n <= sc.rest().len()
    ensures
        ({ let s = sc.rest(); let b = blen(s.take(n)) as int; let p = sc.position as int; let i = sc.ci(); let t = sc.input@;
            &&& 0 <= i && i + n <= t.len() && s.len() == t.len() - i && i <= p
            &&& s == t.skip(i)
            &&& (p >= blen(t) <==> s.len() == 0)
            &&& on_bnd(t, blen(t) as int) && cidx(t, blen(t) as int) == t.len() && t.len() <= blen(t) && blen(t) <= isize::MAX
            &&& n <= b && p + b <= blen(t) && on_bnd(t, p + b) && cidx(t, p + b) == i + n
            &&& on_bnd(s, b) && cidx(s, b) == n && b <= blen(s) && p + blen(s) == blen(t)
            &&& (n == 0 ==> b == 0)
            &&& t.subrange(i, i + n) == s.take(n) && s.subrange(0, n) == s.take(n)
            &&& t.skip(i + n) == s.skip(n) })
{
    broadcast use group_str;
    let s = sc.rest(); let p = sc.position as int; let i = sc.ci(); let t = sc.input@;
    lemma_bnd(t, p);
    lemma_pos(t, p, n);
    lemma_at_end(t, p);
    lemma_blen_ge(t);
    lemma_blen_ge(t.take(i));
    lemma_cidx(s, blen(s.take(n)) as int, n);
    lemma_blen_suffix(t, i);
    lemma_blen_suffix(s, n);
    lemma_blen0(s.take(n));
    assert(t.subrange(i, i + n) =~= s.take(n));
    assert(s.subrange(0, n) =~= s.take(n));
    assert(t.skip(i + n) =~= s.skip(n));
}
/// The same for the text from character m to character n.
pub proof fn lemma_part(sc: &Scanner, m: int, n: int)
    requires sc.wf(), 0 <= m <= n <= sc.rest().len()
    ensures
        sc.input@.subrange(sc.ci() + m, sc.ci() + n) == sc.rest().subrange(m, n),
        blen(sc.rest().take(n)) == blen(sc.rest().take(m)) + blen(sc.rest().subrange(m, n)), blen(sc.rest().subrange(m, n)) >= n - m,
        n == m + 1 ==> blen(sc.rest().take(n)) == blen(sc.rest().take(m)) + ulen(sc.rest()[m]),
{
    lemma_bnd(sc.input@, sc.position as int);
    lemma_blen_take(sc.rest(), m, n);
    if n == m + 1 { lemma_blen_push(sc.rest(), m); }
    assert(sc.input@.subrange(sc.ci() + m, sc.ci() + n) =~= sc.rest().subrange(m, n));
}
pub proof fn lemma_adv_step(l: int, c: int, s: Seq<char>, k: int)
    requires 0 <= k < s.len()
    ensures adv(l, c, s.take(k + 1)) == ({ let (a, b) = adv(l, c, s.take(k)); if s[k] == '\n' { (a + 1, 1) } else { (a, b + 1) } })
{ reveal_with_fuel(adv, 2); assert(s.take(k + 1).drop_last() =~= s.take(k)); }
pub proof fn lemma_adv0(l: int, c: int, s: Seq<char>)
    requires s.len() == 0
    ensures adv(l, c, s) == (l, c), first_line(s) == 0, !has_nl(s)
{ reveal_with_fuel(adv, 2); reveal(first_line); reveal(has_nl); }
#[verifier::opaque]
pub open spec fn has_nl(s: Seq<char>) -> bool { exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == '\n' }
pub proof fn lemma_first_line(s: Seq<char>, k: int)
    requires 0 <= k < s.len()
    ensures
        first_line(s.take(k + 1)) == (if has_nl(s.take(k)) { first_line(s.take(k)) } else { k + 1 }),
        has_nl(s.take(k + 1)) <==> has_nl(s.take(k)) || s[k] == '\n',
        !has_nl(s.take(k)) ==> first_line(s.take(k)) == k,
        0 <= first_line(s.take(k)) <= k,
        first_line(s.take(k + 1)) >= 1,
{
    reveal(first_line); reveal(has_nl);
    let p = |c: char| not_nl(c);
    let a = s.take(k); let b = s.take(k + 1);
    lemma_run(a, p);
    lemma_run(b, p);
    assert forall|i: int| 0 <= i < k implies a[i] == b[i] by { }
    assert(b[k] == s[k]);
    if has_nl(a) {
        let i = choose|i: int| 0 <= i < a.len() && #[trigger] a[i] == '\n';
        assert(b[i] == '\n');
        let n = run(a, p) as int;
        if n == a.len() { assert(p(a[i])); }
        lemma_run_is(b, p, n);
    } else {
        lemma_run_is(a, p, k);
        if s[k] == '\n' { assert(b[k] == '\n'); lemma_run_is(b, p, k); } else { lemma_run_is(b, p, k + 1); }
    }
    if has_nl(b) {
        let i = choose|i: int| 0 <= i < b.len() && #[trigger] b[i] == '\n';
        if i < k { assert(a[i] == '\n'); }
    }
}
/// Over characters other than the newline the column advances and the line does not.
pub proof fn lemma_adv_nonl(l: int, c: int, s: Seq<char>)
    requires forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != '\n'
    ensures adv(l, c, s) == (l, c + s.len())
    decreases s.len()
{
    reveal_with_fuel(adv, 2);
    if s.len() > 0 { lemma_adv_nonl(l, c, s.drop_last()); assert(s[s.len() - 1] != '\n'); }
}
pub proof fn lemma_adv_bounds(l: int, c: int, s: Seq<char>)
    requires l >= 1, c >= 1
    ensures l <= adv(l, c, s).0 <= l + s.len(), 1 <= adv(l, c, s).1 <= c + s.len()
    decreases s.len()
{
    reveal_with_fuel(adv, 2);
    if s.len() > 0 { lemma_adv_bounds(l, c, s.drop_last()); }
}
pub proof fn lemma_first_line1(s: Seq<char>)
    requires s.len() > 0
    ensures first_line(s.take(1)) == 1
{
    reveal(first_line); reveal(has_nl);
    let p = |c: char| not_nl(c);
    assert(s.take(1)[0] == s[0]);
    if s[0] == '\n' { lemma_run_is(s.take(1), p, 0); } else { lemma_run_is(s.take(1), p, 1); }
}
pub proof fn lemma_bval_mono(s: Seq<char>, k: int)
    requires 0 <= k <= s.len()
    ensures 0 <= bval(s.take(k)) <= bval(s)
    decreases s.len()
{
    if k == s.len() {
        assert(s.take(k) =~= s);
        if s.len() > 0 { lemma_bval_mono(s.drop_last(), s.len() - 1); assert(s.drop_last().take(s.len() - 1) =~= s.drop_last()); }
    } else {
        lemma_bval_mono(s.drop_last(), k);
        assert(s.drop_last().take(k) =~= s.take(k));
    }
}
pub proof fn lemma_bval_step(s: Seq<char>, k: int)
    requires 0 <= k < s.len()
    ensures bval(s.take(k + 1)) == bval(s.take(k)) * 2 + bit(s[k])
{ assert(s.take(k + 1).drop_last() =~= s.take(k)); }
//@fn scanner::parse_12_bit_bin_str
//@props C10,C13
//@params bin_str
//@lets accumulator
    requires forall|i: int| 0 <= i < bin_str@.len() ==> is_bin(#[trigger] bin_str@[i]),
    ensures
        /*@C10*/ match r { Ok(v) => bval(bin_str@) <= 4095 && v == bval(bin_str@), Err(e) => bval(bin_str@) > 4095 && e.v() == LexErr::BinRange(bin_str@) },
//@at entry
    let ghost s = bin_str@;
    proof {
        assert(s.take(0) =~= Seq::empty());
        assert(s.take(s.len() as int) =~= s);
        assert forall|a: usize, b: usize| a % 2 == 0 && b <= 1 implies #[trigger] (a | b) == a + b by { assert((a | b) == add(a, b) && add(a, b) >= a) by (bit_vector) requires a % 2 == 0, b <= 1; }
    }
//@loop 0
    invariant
        s == bin_str@, $seq == s,
        accumulator == bval(s.take($pos)),
//@at loopstart 0
    proof {
        let p = $pos;
        if p < s.len() {
            assert(is_bin(s[p]));
            lemma_bval_step(s, p);
            lemma_bval_mono(s, p + 1);
        }
    }
//@fn scanner::Scanner::consume_whitespace
//@props C15,C16,C13
    requires old(self).wf(),
    ensures
        /*@C15,C16*/ final(self).after(old(self), run(old(self).rest(), |c: char| is_ws(c)) as int),
        run(old(self).rest(), |c: char| is_ws(c)) <= old(self).rest().len(),
//@regex WHITESPACE
    hand: m_ws(s)
    class 0: is_ws
//@at entry
    let ghost s = self.rest();
    let ghost n = run(s, |c: char| is_ws(c)) as int;
    proof {
        lemma_bnd(self.input@, self.position as int);
        lemma_run(s, |c: char| is_ws(c));
        lemma_here(self, n); lemma_here(self, 0);
        lemma_adv0(self.current_line as int, self.current_line_offset as int, s.take(0));
    }
//@fn scanner::Scanner::consume_char
//@props C15,C17,C13
    requires old(self).wf(), old(self).rest().len() > 0,
    ensures
        /*@C17*/ r.0 == old(self).rest()[0],
        /*@C15*/ r.1.v() == old(self).loc(1),
        final(self).after(old(self), 1),
//@at entry
    proof {
        lemma_here(self, 0);
        lemma_here(self, 1);
        lemma_part(self, 0, 1);
    }
//@fn scanner::Scanner::char_at
//@props C17,C13
//@params offset
    requires self.wf(), self.rest().len() > 0, offset == 0,
    ensures r == self.rest()[0],
//@at entry
    proof { lemma_here(self, 0); }
//@fn scanner::Scanner::advance_by
//@attr #[verifier::rlimit(30)]
//@props C15,C16,C17,C13
//@params bytes
//@lets range,total_byte_count,number_of_newlines,characters_on_first_line,last_line_offset,location
    requires old(self).wf(), on_bnd(old(self).rest(), bytes as int), bytes > 0,
    ensures
        /*@C15,C17*/ final(self).after(old(self), cidx(old(self).rest(), bytes as int)),
        /*@C15*/ r.v() == old(self).loc(cidx(old(self).rest(), bytes as int)),
//@at entry
    let ghost rest = self.rest();
    let ghost n = cidx(rest, bytes as int);
    let ghost cs = rest.take(n);
    proof {
        lemma_bnd(rest, bytes as int);
        lemma_here(self, n);
        lemma_here(self, 0);
        lemma_blen0(cs);
        lemma_blen0(cs.take(0));
        lemma_adv_bounds(self.current_line as int, self.current_line_offset as int, cs);
        assert(cs.take(0) =~= Seq::empty());
        assert(cs.take(n) =~= cs);
        lemma_adv0(self.current_line as int, self.current_line_offset as int, cs.take(0));
    }
//@loop 0 optional
    invariant
        $seq == cs,
        $acc == blen(cs.take($pos)),
//@at loopstart 0
    proof { lemma_blen_push(cs, $pos); lemma_blen_take(cs, $pos + 1, n); }
//@loop 1
    invariant
        $seq == cs, bytes == blen(cs),
        number_of_newlines == 0 <==> !has_nl(cs.take($pos)),
        characters_on_first_line == first_line(cs.take($pos)),
        $pos > 0 ==> characters_on_first_line >= 1,
        number_of_newlines <= $pos, last_line_offset <= old(self).current_line_offset + $pos, characters_on_first_line <= $pos,
        (old(self).current_line + number_of_newlines, last_line_offset as int) == adv(old(self).current_line as int, old(self).current_line_offset as int, cs.take($pos)),
//@at loopstart 1
    proof { lemma_first_line(cs, $pos); lemma_adv_step(old(self).current_line as int, old(self).current_line_offset as int, cs, $pos); }
//@fn scanner::Scanner::is_at_end
//@props C17
    requires self.wf(),
    ensures r == (self.rest().len() == 0),
//@at entry
    proof { lemma_here(self, 0); }
//@fn scanner::Scanner::new
//@props C15,C17
//@params file_name,input
    ensures r.wf(), /*@C15,C17*/ r.toks() == tokens(input@, file_name@, 1, 1),
//@at entry
    proof { assert(input@.take(0) =~= Seq::empty()); lemma_blen0(input@.take(0)); assert(bnd(input@, 0, 0)); lemma_cidx(input@, 0, 0); assert(input@.skip(0) =~= input@); }
//@endfn
