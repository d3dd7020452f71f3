//@module scanner
pub proof fn lemma_str_body(s: Seq<char>)
    ensures str_body(s) <= s.len()
    decreases s.len()
{
    if s.len() >= 1 && s[0] != '"' && s[0] != '\\' { lemma_str_body(s.skip(1)); }
    else if s.len() >= 2 && s[0] == '\\' && s[1] != '\n' { lemma_str_body(s.skip(2)); }
}
pub proof fn lemma_blen3(s: Seq<char>)
    requires s.len() == 3, is_ascii(s)
    ensures blen(s) == 3
{
    lemma_blen_push(s, 0); lemma_blen_push(s, 1); lemma_blen_push(s, 2); lemma_blen0(s.take(0));
    assert(s.take(3) =~= s); assert(s.take(0) =~= Seq::empty());
}
pub proof fn lemma_hex_digits(s: Seq<char>, n: int)
    requires m_hex(s) == Some(n)
    ensures 2 <= n <= 4, n <= s.len(), digits(s.subrange(1, n), 16), s.subrange(1, n)[0] != '+'
{
    lemma_run(s.skip(1), |c: char| is_hex(c));
    assert forall|i: int| 0 <= i < n - 1 implies dig(#[trigger] s.subrange(1, n)[i]) < 16 && s.subrange(1, n)[i] != '+' by { assert(s.subrange(1, n)[i] == s.skip(1)[i]); assert(is_hex(s.skip(1)[i])); }
}
pub proof fn lemma_dec_digits(s: Seq<char>, n: int)
    requires m_dec(s) == Some(n)
    ensures 1 <= n <= s.len(), digits(s.take(n), 10), s.take(n)[0] != '+'
{
    lemma_run(s, |c: char| is_digit(c));
    assert forall|i: int| 0 <= i < n implies dig(#[trigger] s.take(n)[i]) < 10 && s.take(n)[i] != '+' by { assert(s.take(n)[i] == s[i]); assert(is_digit(s[i])); }
}
pub proof fn lemma_val_bound(s: Seq<char>, radix: int)
    requires digits(s, radix), s.len() <= 3, radix == 16
    ensures 0 <= val(s, radix) <= 4095
{
    reveal_with_fuel(val, 5);
    assert(forall|i: int| 0 <= i < s.len() ==> 0 <= dig(#[trigger] s[i]) < 16);
    assert(s.drop_last().len() == s.len() - 1);
    if s.len() == 1 { assert(val(s, 16) == dig(s[0])); }
    else if s.len() == 2 { assert(val(s, 16) == dig(s[0]) * 16 + dig(s[1])); }
    else { assert(val(s, 16) == (dig(s[0]) * 16 + dig(s[1])) * 16 + dig(s[2])); }
}
//@fn scanner::Scanner::consume_newline
//@props C17,C16,C15,C13
    requires old(self).wf(), old(self).starts('\n'),
    ensures final(self).lexed(old(self), r),
//@at entry
    let ghost s = self.rest();
    let ghost n = lex1(s).0;
    proof {
        lemma_bnd(self.input@, self.position as int);
        lemma_lex1(s);
        lemma_here(self, 0); lemma_here(self, 1); lemma_here(self, n); lemma_here(self, n - 1);
        lemma_part(self, 0, 1); lemma_part(self, 1, n); lemma_part(self, n - 1, n);
        lemma_first_line1(s);
    }
//@fn scanner::Scanner::consume_directive_marker
//@props C17,C16,C15,C13
    requires old(self).wf(), old(self).starts('.'),
    ensures final(self).lexed(old(self), r),
//@at entry
    let ghost s = self.rest();
    let ghost n = lex1(s).0;
    proof {
        lemma_bnd(self.input@, self.position as int);
        lemma_lex1(s);
        lemma_here(self, 0); lemma_here(self, 1); lemma_here(self, n); lemma_here(self, n - 1);
        lemma_part(self, 0, 1); lemma_part(self, 1, n); lemma_part(self, n - 1, n);
        lemma_first_line1(s);
    }
//@fn scanner::Scanner::consume_label_marker
//@props C17,C16,C15,C13
    requires old(self).wf(), old(self).starts(':'),
    ensures final(self).lexed(old(self), r),
//@at entry
    let ghost s = self.rest();
    let ghost n = lex1(s).0;
    proof {
        lemma_bnd(self.input@, self.position as int);
        lemma_lex1(s);
        lemma_here(self, 0); lemma_here(self, 1); lemma_here(self, n); lemma_here(self, n - 1);
        lemma_part(self, 0, 1); lemma_part(self, 1, n); lemma_part(self, n - 1, n);
        lemma_first_line1(s);
    }
//@fn scanner::Scanner::consume_comma
//@props C17,C16,C15,C13
    requires old(self).wf(), old(self).starts(','),
    ensures final(self).lexed(old(self), r),
//@at entry
    let ghost s = self.rest();
    let ghost n = lex1(s).0;
    proof {
        lemma_bnd(self.input@, self.position as int);
        lemma_lex1(s);
        lemma_here(self, 0); lemma_here(self, 1); lemma_here(self, n); lemma_here(self, n - 1);
        lemma_part(self, 0, 1); lemma_part(self, 1, n); lemma_part(self, n - 1, n);
        lemma_first_line1(s);
    }
//@fn scanner::Scanner::consume_string_literal
//@props C11,C17,C15,C13
    requires old(self).wf(), old(self).starts('"'),
    ensures final(self).lexed(old(self), r),
//@regex STRING_LITERAL
    hand: m_str(s)
    group: str_body
//@at entry
    let ghost s = self.rest();
    let ghost n = lex1(s).0;
    proof {
        lemma_bnd(self.input@, self.position as int);
        lemma_lex1(s);
        lemma_here(self, 0); lemma_here(self, 1); lemma_here(self, n); lemma_here(self, n - 1);
        lemma_part(self, 0, 1); lemma_part(self, 1, n); lemma_part(self, n - 1, n);
        lemma_first_line1(s);
        lemma_str_body(s.skip(1));
        if 2 <= n { lemma_part(self, 1, n - 1); }
    }
//@fn scanner::Scanner::consume_hex_literal
//@props C10,C17,C15,C13
    requires old(self).wf(), old(self).starts('$') || old(self).starts('#'),
    ensures final(self).lexed(old(self), r),
//@regex HEX_LITERAL
    hand: m_hex(s)
    class 1: is_hex
//@at entry
    let ghost s = self.rest();
    let ghost n = lex1(s).0;
    proof {
        lemma_bnd(self.input@, self.position as int);
        lemma_lex1(s);
        lemma_here(self, 0); lemma_here(self, 1); lemma_here(self, n); lemma_here(self, n - 1);
        lemma_part(self, 0, 1); lemma_part(self, 1, n); lemma_part(self, n - 1, n);
        lemma_first_line1(s);
        lemma_run(s.skip(1), |c: char| is_hex(c));
        if m_hex(s) is Some { lemma_hex_digits(s, n); lemma_val_bound(s.subrange(1, n), 16); }
    }
//@fn scanner::Scanner::consume_bin_literal
//@props C10,C17,C15,C13
    requires old(self).wf(), old(self).starts('%'),
    ensures final(self).lexed(old(self), r),
//@regex HEX_LITERAL
    hand: m_bin(s)
    class 1: is_bin
//@at entry
    let ghost s = self.rest();
    let ghost n = lex1(s).0;
    proof {
        lemma_bnd(self.input@, self.position as int);
        lemma_lex1(s);
        lemma_here(self, 0); lemma_here(self, 1); lemma_here(self, n); lemma_here(self, n - 1);
        lemma_part(self, 0, 1); lemma_part(self, 1, n); lemma_part(self, n - 1, n);
        lemma_first_line1(s);
        lemma_run(s.skip(1), |c: char| is_bin(c));
        if m_bin(s) is Some { assert forall|i: int| 0 <= i < n - 1 implies is_bin(#[trigger] s.subrange(1, n)[i]) by { assert(s.subrange(1, n)[i] == s.skip(1)[i]); } }
    }
//@fn scanner::Scanner::consume_decimal_literal
//@props C10,C17,C15,C13
    requires old(self).wf(), old(self).rest().len() > 0, is_digit(old(self).rest()[0]),
    ensures final(self).lexed(old(self), r),
//@regex DECIMAL_LITERAL
    hand: m_dec(s)
    class 0: is_digit
//@at entry
    let ghost s = self.rest();
    let ghost n = lex1(s).0;
    proof {
        lemma_bnd(self.input@, self.position as int);
        lemma_lex1(s);
        lemma_here(self, 0); lemma_here(self, 1); lemma_here(self, n); lemma_here(self, n - 1);
        lemma_part(self, 0, 1); lemma_part(self, 1, n); lemma_part(self, n - 1, n);
        lemma_first_line1(s);
        lemma_run(s, |c: char| is_digit(c));
        if m_dec(s) is Some { lemma_dec_digits(s, n); }
    }
//@fn scanner::Scanner::consume_identifier
//@props C17,C15,C13
    requires old(self).wf(), old(self).rest().len() > 0, is_alpha_(old(self).rest()[0]),
    ensures final(self).lexed(old(self), r),
//@regex IDENTIFIER
    hand: m_ident(s)
    class 1: is_identc
//@at entry
    let ghost s = self.rest();
    let ghost n = lex1(s).0;
    proof {
        lemma_bnd(self.input@, self.position as int);
        lemma_lex1(s);
        lemma_here(self, 0); lemma_here(self, 1); lemma_here(self, n); lemma_here(self, n - 1);
        lemma_part(self, 0, 1); lemma_part(self, 1, n); lemma_part(self, n - 1, n);
        lemma_first_line1(s);
        lemma_run(s.skip(1), |c: char| is_identc(c));
    }
//@fn scanner::Scanner::consume_index_register_indirect
//@props C17,C02,C15,C13
    requires old(self).wf(), old(self).starts('['),
    ensures final(self).lexed(old(self), r),
//@at entry
    let ghost s = self.rest();
    let ghost n = lex1(s).0;
    proof {
        lemma_bnd(self.input@, self.position as int);
        lemma_lex1(s);
        lemma_here(self, 0); lemma_here(self, 1); lemma_here(self, n); lemma_here(self, n - 1);
        lemma_part(self, 0, 1); lemma_part(self, 1, n); lemma_part(self, n - 1, n);
        lemma_first_line1(s);
        reveal_strlit("[i]"); reveal_strlit("[I]");
        if s.len() >= 3 { lemma_here(self, 3); lemma_part(self, 1, 2); lemma_part(self, 2, 3); }
        assert(s.len() >= 3 ==> (s.take(3) == "[i]"@ <==> s[0] == '[' && s[1] == 'i' && s[2] == ']')) by { if s.len() >= 3 && s[0] == '[' && s[1] == 'i' && s[2] == ']' { assert(s.take(3) =~= "[i]"@); } if s.len() >= 3 && s.take(3) == "[i]"@ { assert(s.take(3)[1] == 'i'); assert(s.take(3)[2] == ']'); } }
        assert(s.len() >= 3 ==> (s.take(3) == "[I]"@ <==> s[0] == '[' && s[1] == 'I' && s[2] == ']')) by { if s.len() >= 3 && s[0] == '[' && s[1] == 'I' && s[2] == ']' { assert(s.take(3) =~= "[I]"@); } if s.len() >= 3 && s.take(3) == "[I]"@ { assert(s.take(3)[1] == 'I'); assert(s.take(3)[2] == ']'); } }
        lemma_blen3("[i]"@); lemma_blen3("[I]"@);
    }
//@fn scanner::Scanner::consume_single_line_comment
//@props C16,C17,C15,C13
//@attr #[verifier::allow_complex_invariants]
//@lets bytes
    requires old(self).wf(), old(self).starts(';'),
    ensures final(self).lexed(old(self), r),
//@at entry
    let ghost s = self.rest();
    let ghost n = lex1(s).0;
    proof {
        lemma_bnd(self.input@, self.position as int);
        lemma_lex1(s);
        lemma_here(self, 0); lemma_here(self, 1); lemma_here(self, n); lemma_here(self, n - 1);
        lemma_part(self, 0, 1); lemma_part(self, 1, n); lemma_part(self, n - 1, n);
        lemma_first_line1(s);
        lemma_run(s, |c: char| not_nl(c));
        if n == 0 { assert(not_nl(s[0])); }
        // for a body that asks for the position of the line end
        assert forall|r: Option<usize>| #[trigger] found(s, seq!['\n'], r) implies (match r { Some(b) => b == blen(s.take(n)), None => blen(s) == blen(s.take(n)) }) by {
            lemma_found1(s, '\n');
            lemma_run(s, |c: char| not_nl(c));
            assert(s.take(s.len() as int) =~= s);
            match r {
                Some(b) => { let i = choose|i: int| #[trigger] occurs(s, i, seq!['\n']) && b == blen(s.take(i)) && (forall|j: int| 0 <= j < i ==> !#[trigger] occurs(s, j, seq!['\n'])); assert(s[i] == '\n'); if n < i { assert(!not_nl(s[n])); assert(occurs(s, n, seq!['\n'])); } if i < n { assert(not_nl(s[i])); } }
                None => { if n < s.len() { assert(!not_nl(s[n])); assert(occurs(s, n, seq!['\n'])); } }
            }
        }
    }
//@loop 0 optional
    invariant
        $seq == s, bytes == blen(s.take($pos)), $pos <= n,
    ensures
        bytes == blen(s.take(n)),
//@at loopstart 0
    proof { lemma_part(self, $pos, $pos + 1); lemma_here(self, $pos + 1); lemma_run(s, |c: char| not_nl(c)); }
//@fn scanner::Scanner::next_token
//@props C10,C11,C13,C15,C16,C17
    requires old(self).wf(),
    ensures
        final(self).wf(),
        /*@C17*/ r is None <==> old(self).toks().len() == 0,
        /*@C15,C16,C17,C10,C11*/ r is Some ==> r->Some_0.v() == old(self).toks()[0] && final(self).toks() =~= old(self).toks().skip(1),
        r is None ==> final(self).toks().len() == 0,
//@at entry
    let ghost s = self.rest();
    let ghost w = run(s, |c: char| is_ws(c)) as int;
    let ghost t = s.skip(w);
    proof {
        lemma_here(self, 0);
        lemma_run(s, |c: char| is_ws(c));
        assert forall|i: int| 0 <= i < w implies #[trigger] s.take(w)[i] != '\n' by { assert(is_ws(s[i])); }
        lemma_adv_nonl(self.current_line as int, self.current_line_offset as int, s.take(w));
        assert(self.input@.skip(self.ci() + w) =~= t);
        lemma_lex1(t);
        if t.len() > 0 {
            lemma_first_line1(t);
            let n = lex1(t).0;
            assert(self.input@.skip(self.ci() + w + n) =~= t.skip(n));
        }
    }
//@fn scanner::Scanner::next
//@props C17
//@header impl<'a> TokenSource<'a> for Scanner<'a> { open spec fn src_wf(&self) -> bool { self.wf() } open spec fn rem(&self) -> Seq<TokV> { self.toks() }
//@module scanner
/// A token is not empty and lies inside the text.
pub proof fn lemma_lex1(s: Seq<char>)
    ensures s.len() > 0 ==> 1 <= lex1(s).0 <= s.len()
{
    if s.len() > 0 {
        lemma_run(s, |c: char| not_nl(c));
        if s[0] == ';' && lex1(s).0 == 0 { assert(not_nl(s[0])); }
        lemma_run(s.skip(1), |c: char| is_hex(c));
        lemma_run(s.skip(1), |c: char| is_bin(c));
        lemma_run(s, |c: char| is_digit(c));
        lemma_run(s.skip(1), |c: char| is_identc(c));
        lemma_str_body(s.skip(1));
    }
}
//@endfn
