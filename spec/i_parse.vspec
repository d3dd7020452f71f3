//@module parser
use crate::assembler::token::*;
impl<'a> Error<'a> {
    pub open spec fn pv(&self) -> PErrV { match *self { Error::UnexpectedEndOfFile(_) => PErrV::Eof, Error::UnexpectedToken { expected, encountered } => PErrV::At(encountered.v()) } }
    /// The message names at least one alternative (printing one without any panics).
    pub open spec fn printable(&self) -> bool { match *self { Error::UnexpectedEndOfFile(e) => e@.len() > 0, Error::UnexpectedToken { expected, encountered } => expected@.len() > 0 && tok_ok(encountered.v()) } }
}
pub open spec fn opt_tok(t: Option<Token>) -> Seq<TokV> { match t { Some(t) => seq![t.v()], None => Seq::empty() } }
impl<'a, I: TokenSource<'a>> Parser<'a, I> {
    /// The tokens not yet consumed.
    pub open spec fn ptoks(&self) -> Seq<TokV> { opt_tok(self.current_token) + opt_tok(self.next_token) + self.scanner.rem() }
    pub open spec fn pwf(&self) -> bool {
        self.scanner.src_wf() && toks_ok(self.ptoks())
        && (self.next_token is None ==> self.scanner.rem().len() == 0)
        && (self.current_token is None ==> self.next_token is None)
    }
}
/// What follows from a list rule having matched.
pub proof fn lemma_lits(ts: Seq<TokV>, acc: Seq<LitV>)
    requires toks_ok(ts), lits_ok(acc)
    ensures match g_lits(ts, acc) { PR::Ok(a, r) => r.len() <= ts.len() && toks_ok(r) && lits_ok(a), _ => true }
    decreases ts.len()
{
    if ts.len() > 0 && (ts[0].k is Str || ts[0].k is Num) {
        assert(tok_ok(ts[0]));
        let l = match ts[0].k { K::Str(s) => LitV::Str(s), K::Num(n) => LitV::Num(n), _ => LitV::Num(0) };
        let rest = ts.skip(1);
        assert forall|i: int| 0 <= i < rest.len() implies tok_ok(#[trigger] rest[i]) by { assert(tok_ok(ts[i + 1])); }
        assert(lits_ok(acc.push(l))) by { assert forall|i: int| 0 <= i < acc.push(l).len() implies lit_ok(#[trigger] acc.push(l)[i]) by { if i < acc.len() { assert(lit_ok(acc[i])); } } }
        if rest.len() > 0 && rest[0].k is Comma {
            assert forall|i: int| 0 <= i < rest.skip(1).len() implies tok_ok(#[trigger] rest.skip(1)[i]) by { assert(tok_ok(ts[i + 2])); }
            lemma_lits(rest.skip(1), acc.push(l));
        }
    }
}
pub proof fn lemma_fields(ts: Seq<TokV>, acc: Seq<FieldV>)
    requires toks_ok(ts), fields_ok(acc)
    ensures match g_fields(ts, acc) { PR::Ok(a, r) => r.len() <= ts.len() && toks_ok(r) && fields_ok(a), _ => true }
    decreases ts.len()
{
    if ts.len() > 0 && (ts[0].k is Num || ts[0].k is Ident) {
        assert(tok_ok(ts[0]));
        let f = match ts[0].k { K::Num(n) => FieldV::Num(n), K::Ident(s) => field_of(s), _ => FieldV::B };
        assert(field_ok(f));
        let rest = ts.skip(1);
        assert forall|i: int| 0 <= i < rest.len() implies tok_ok(#[trigger] rest[i]) by { assert(tok_ok(ts[i + 1])); }
        assert(fields_ok(acc.push(f))) by { assert forall|i: int| 0 <= i < acc.push(f).len() implies field_ok(#[trigger] acc.push(f)[i]) by { if i < acc.len() { assert(field_ok(acc[i])); } } }
        if rest.len() > 0 && rest[0].k is Comma {
            assert forall|i: int| 0 <= i < rest.skip(1).len() implies tok_ok(#[trigger] rest.skip(1)[i]) by { assert(tok_ok(ts[i + 2])); }
            lemma_fields(rest.skip(1), acc.push(f));
        }
    }
}
pub proof fn lemma_stmt(ts: Seq<TokV>)
    requires toks_ok(ts)
    ensures match g_stmt(ts) { PR::Ok(n, r) => r.len() < ts.len() && toks_ok(r) && node_wf(n), _ => true }
{
    if ts.len() > 0 { assert(tok_ok(ts[0])); assert forall|i: int| 0 <= i < ts.skip(1).len() implies tok_ok(#[trigger] ts.skip(1)[i]) by { assert(tok_ok(ts[i + 1])); } lemma_fields(ts.skip(1), Seq::empty()); }
    if ts.len() > 1 { assert(tok_ok(ts[1])); assert forall|i: int| 0 <= i < ts.skip(2).len() implies tok_ok(#[trigger] ts.skip(2)[i]) by { assert(tok_ok(ts[i + 2])); } lemma_lits(ts.skip(2), Seq::empty()); }
}
pub proof fn lemma_lc(c: char, d: char)
    requires 'a' <= d && d <= 'z'
    ensures lower_c(c) == d <==> c == d || c == upper_c(d)
{ }
pub proof fn lemma_word1(s: Seq<char>, a: char)
    requires 'a' <= a && a <= 'z'
    ensures lower(s) == seq![a] <==> s == seq![a] || s == seq![upper_c(a)]
{
    if s.len() == 1 { lemma_lc(s[0], a); assert(lower(s)[0] == lower_c(s[0])); }
    if lower(s) == seq![a] { assert(lower(s).len() == 1); assert(lower(s)[0] == a); if s[0] == a { assert(s =~= seq![a]); } else { assert(s =~= seq![upper_c(a)]); } }
    if s == seq![a] || s == seq![upper_c(a)] { assert(lower(s) =~= seq![a]); }
}
pub proof fn lemma_word2(s: Seq<char>, a: char, b: char)
    requires 'a' <= a && a <= 'z', 'a' <= b && b <= 'z'
    ensures lower(s) == seq![a, b] <==> s == seq![a, b] || s == seq![upper_c(a), b] || s == seq![a, upper_c(b)] || s == seq![upper_c(a), upper_c(b)]
{
    if s.len() == 2 { lemma_lc(s[0], a); lemma_lc(s[1], b); assert(lower(s)[0] == lower_c(s[0])); assert(lower(s)[1] == lower_c(s[1])); assert(s =~= seq![s[0], s[1]]); }
    if lower(s) == seq![a, b] { assert(lower(s).len() == 2); assert(lower(s)[0] == a); assert(lower(s)[1] == b); }
    if s == seq![a, b] || s == seq![upper_c(a), b] || s == seq![a, upper_c(b)] || s == seq![upper_c(a), upper_c(b)] { assert(lower(s) =~= seq![a, b]); }
}
/// The spellings of the operand words.
pub proof fn lemma_words(s: Seq<char>)
    ensures
        lower(s) == seq!['d', 't'] <==> s == "dt"@ || s == "DT"@ || s == "dT"@ || s == "Dt"@,
        lower(s) == seq!['s', 't'] <==> s == "st"@ || s == "ST"@ || s == "sT"@ || s == "St"@,
        lower(s) == seq!['i'] <==> s == "i"@ || s == "I"@,
        lower(s) == seq!['['  , 'i', ']'] <==> s == "[i]"@ || s == "[I]"@,
        lower(s) == seq!['k'] <==> s == "k"@ || s == "K"@,
        lower(s) == seq!['b'] <==> s == "b"@ || s == "B"@,
        lower(s) == seq!['f'] <==> s == "f"@ || s == "F"@,
        "dt"@ == seq!['d', 't'], "st"@ == seq!['s', 't'], "i"@ == seq!['i'], "[i]"@ == seq!['[', 'i', ']'], "k"@ == seq!['k'], "b"@ == seq!['b'], "f"@ == seq!['f'],
        "DT"@ == upper("dt"@), "ST"@ == upper("st"@), "I"@ == upper("i"@), "[I]"@ == upper("[i]"@), "K"@ == upper("k"@), "B"@ == upper("b"@), "F"@ == upper("f"@),
        upper(s) == "DT"@ <==> lower(s) == "dt"@, upper(s) == "ST"@ <==> lower(s) == "st"@, upper(s) == "I"@ <==> lower(s) == "i"@, upper(s) == "[I]"@ <==> lower(s) == "[i]"@,
        upper(s) == "K"@ <==> lower(s) == "k"@, upper(s) == "B"@ <==> lower(s) == "b"@, upper(s) == "F"@ <==> lower(s) == "f"@,
{
    reveal_strlit("dt"); reveal_strlit("DT"); reveal_strlit("dT"); reveal_strlit("Dt");
    reveal_strlit("st"); reveal_strlit("ST"); reveal_strlit("sT"); reveal_strlit("St");
    reveal_strlit("i"); reveal_strlit("I"); reveal_strlit("[i]"); reveal_strlit("[I]"); reveal_strlit("k"); reveal_strlit("K"); reveal_strlit("b"); reveal_strlit("B"); reveal_strlit("f"); reveal_strlit("F");
    assert("dt"@ =~= seq!['d', 't']); assert("DT"@ =~= seq!['D', 'T']); assert("dT"@ =~= seq!['d', 'T']); assert("Dt"@ =~= seq!['D', 't']);
    assert("st"@ =~= seq!['s', 't']); assert("ST"@ =~= seq!['S', 'T']); assert("sT"@ =~= seq!['s', 'T']); assert("St"@ =~= seq!['S', 't']);
    assert("i"@ =~= seq!['i']); assert("I"@ =~= seq!['I']); assert("k"@ =~= seq!['k']); assert("K"@ =~= seq!['K']);
    assert("b"@ =~= seq!['b']); assert("B"@ =~= seq!['B']); assert("f"@ =~= seq!['f']); assert("F"@ =~= seq!['F']);
    assert("[i]"@ =~= seq!['[', 'i', ']']); assert("[I]"@ =~= seq!['[', 'I', ']']);
    assert(upper("dt"@) =~= "DT"@); assert(upper("st"@) =~= "ST"@); assert(upper("i"@) =~= "I"@); assert(upper("k"@) =~= "K"@); assert(upper("b"@) =~= "B"@); assert(upper("f"@) =~= "F"@); assert(upper("[i]"@) =~= "[I]"@);
    lemma_word2(s, 'd', 't'); lemma_word2(s, 's', 't'); lemma_word1(s, 'i'); lemma_word1(s, 'k'); lemma_word1(s, 'b'); lemma_word1(s, 'f');
    assert(lower("dt"@) =~= "dt"@); assert(lower("st"@) =~= "st"@); assert(lower("i"@) =~= "i"@); assert(lower("k"@) =~= "k"@); assert(lower("b"@) =~= "b"@); assert(lower("f"@) =~= "f"@); assert(lower("[i]"@) =~= "[i]"@);
    lemma_upper_lower(s, "dt"@); lemma_upper_lower(s, "st"@); lemma_upper_lower(s, "i"@); lemma_upper_lower(s, "k"@); lemma_upper_lower(s, "b"@); lemma_upper_lower(s, "f"@); lemma_upper_lower(s, "[i]"@);
    if s.len() == 3 { lemma_lc(s[1], 'i'); assert(lower(s)[0] == lower_c(s[0])); assert(lower(s)[1] == lower_c(s[1])); assert(lower(s)[2] == lower_c(s[2])); assert(s =~= seq![s[0], s[1], s[2]]); }
    if lower(s) == seq!['[', 'i', ']'] { assert(lower(s).len() == 3); assert(lower(s)[0] == '['); assert(lower(s)[1] == 'i'); assert(lower(s)[2] == ']'); }
    if s == "[i]"@ || s == "[I]"@ { assert(lower(s) =~= seq!['[', 'i', ']']); }
}
pub proof fn lemma_upper_lower(s: Seq<char>, w: Seq<char>)
    requires lower(w) == w
    ensures upper(s) == upper(w) <==> lower(s) == w
{
    if upper(s) == upper(w) {
        assert(s.len() == upper(s).len() && w.len() == upper(w).len());
        assert forall|i: int| 0 <= i < s.len() implies #[trigger] lower(s)[i] == w[i] by { assert(upper(s)[i] == upper_c(s[i])); assert(upper(w)[i] == upper_c(w[i])); assert(lower(w)[i] == lower_c(w[i])); }
        assert(lower(s) =~= w);
    }
    if lower(s) == w {
        assert(s.len() == lower(s).len());
        assert forall|i: int| 0 <= i < s.len() implies #[trigger] upper(s)[i] == upper(w)[i] by { assert(lower(s)[i] == lower_c(s[i])); assert(upper(w)[i] == upper_c(w[i])); }
        assert(upper(s) =~= upper(w));
    }
}
/// The general-purpose registers.
pub proof fn lemma_reg(s: Seq<char>)
    ensures
        lower(s).len() == s.len(),
        s.len() >= 1 ==> (lower(s)[0] == 'v' <==> s.take(1) == "v"@ || s.take(1) == "V"@),
        s.len() >= 1 ==> (s.take(1) == "v"@ <==> s[0] == 'v') && (s.take(1) == "V"@ <==> s[0] == 'V'),
        s.len() >= 1 ==> s.take(1) == seq![s[0]] && (seq![s[0]] == seq!['v'] <==> s[0] == 'v') && (seq![s[0]] == seq!['V'] <==> s[0] == 'V'),
        "v"@.len() == 1 && "V"@.len() == 1,
        s.len() == 2 ==> (is_hex(lower(s)[1]) <==> dig(s[1]) < 16) && dig(lower(s)[1]) == dig(s[1]) && s.skip(1) == seq![s[1]],
        s.len() == 2 ==> (digits(s.skip(1), 16) <==> dig(s[1]) < 16) && val(s.skip(1), 16) == dig(s[1]),
        s.len() >= 1 && (s[0] == 'v' || s[0] == 'V') ==> on_bnd(s, 1) && cidx(s, 1) == 1,
{
    reveal_strlit("v"); reveal_strlit("V");
    if s.len() >= 1 {
        lemma_lc(s[0], 'v'); assert(lower(s)[0] == lower_c(s[0]));
        assert(s.take(1) =~= seq![s[0]]); assert("v"@ =~= seq!['v']); assert("V"@ =~= seq!['V']);
        assert(seq![s[0]][0] == s[0]); assert(seq!['v'][0] == 'v'); assert(seq!['V'][0] == 'V');
        if s[0] == 'v' || s[0] == 'V' { lemma_blen_push(s, 0); lemma_blen0(s.take(0)); assert(bnd(s, 1, 1)); lemma_cidx(s, 1, 1); }
    }
    if s.len() == 2 {
        assert(lower(s)[1] == lower_c(s[1]));
        assert(s.skip(1) =~= seq![s[1]]);
        assert(s.skip(1).drop_last() =~= Seq::empty());
        assert(s.skip(1)[0] == s[1]);
        assert(val(s.skip(1), 16) == val(Seq::<char>::empty(), 16) * 16 + dig(s[1]));
    }
}
//@fn parser::Parser::new
//@props C13,C17
//@params scanner
    requires scanner.src_wf(), toks_ok(scanner.rem()),
    ensures r.pwf(), /*@C17*/ r.ptoks() =~= scanner.rem(),
//@fn parser::Parser::prime
//@props C13,C17
    requires old(self).scanner.src_wf(), toks_ok(old(self).scanner.rem()),
    ensures final(self).pwf(), /*@C17*/ final(self).ptoks() =~= old(self).scanner.rem(),
//@fn parser::Parser::consume_token
//@props C13,C17
    requires old(self).pwf(),
    ensures final(self).pwf(), r == old(self).current_token,
        /*@C17*/ old(self).ptoks().len() > 0 ==> final(self).ptoks() =~= old(self).ptoks().skip(1) && r is Some && r->Some_0.v() == old(self).ptoks()[0],
        old(self).ptoks().len() == 0 ==> final(self).ptoks().len() == 0 && r is None,
//@at entry
    let ghost ts = self.ptoks();
    proof { if ts.len() > 0 { assert forall|i: int| 0 <= i < ts.skip(1).len() implies tok_ok(#[trigger] ts.skip(1)[i]) by { assert(tok_ok(ts[i + 1])); } } }
//@at tail
    proof { if ts.len() > 0 { assert(self.ptoks() =~= ts.skip(1)); } }
//@fn parser::Parser::syntax_error_for_unexpected_token
//@props C13,C15
//@params found,expected
    requires expected@.len() > 0, *found is Some ==> tok_ok(found->Some_0.v()),
    ensures r.printable(), /*@C15*/ r.pv() == (match *found { Some(t) => PErrV::At(t.v()), None => PErrV::Eof }),
//@fn parser::Parser::parse_identifier
//@props C13,C15,C17
    requires old(self).pwf(),
    ensures
        final(self).pwf(),
        match r {
            Ok((s, l)) => old(self).ptoks().len() > 0 && old(self).ptoks()[0] == (TokV { k: K::Ident(s@), loc: l.v() }) && final(self).ptoks() == old(self).ptoks().skip(1),
            Err(e) => (old(self).ptoks().len() == 0 || !(old(self).ptoks()[0].k is Ident)) && /*@C15*/ e.pv() == unexpected(old(self).ptoks()) && e.printable(),
        },
//@fn parser::Parser::parse_literal
//@props C11,C13,C15,C17
    requires old(self).pwf(),
    ensures
        final(self).pwf(),
        match r {
            Ok(l) => old(self).ptoks().len() > 0 && (match old(self).ptoks()[0].k { K::Str(s) => l.v() == LitV::Str(s), K::Num(n) => l.v() == LitV::Num(n), _ => false }) && final(self).ptoks() == old(self).ptoks().skip(1),
            Err(e) => (old(self).ptoks().len() == 0 || !(old(self).ptoks()[0].k is Str || old(self).ptoks()[0].k is Num)) && /*@C15*/ e.pv() == unexpected(old(self).ptoks()) && e.printable(),
        },
//@fn parser::Parser::parse_literal_list
//@props C11,C12,C13,C15,C17
//@params list
//@lets result_list
    requires old(self).pwf(),
    ensures
        final(self).pwf(),
        match r {
            Ok(l) => /*@C11,C12,C17*/ g_lits(old(self).ptoks(), lits_v(list@)) == PR::Ok(lits_v(l@), final(self).ptoks()),
            Err(e) => /*@C15,C17*/ g_lits(old(self).ptoks(), lits_v(list@)) == PR::<Seq<LitV>>::Err(e.pv()) && e.printable(),
        },
//@at entry
    let ghost ts0 = self.ptoks();
    let ghost l0 = lits_v(list@);
//@loop 0
    invariant
        self.pwf(), g_lits(ts0, l0) == g_lits(self.ptoks(), lits_v(result_list@)),
    decreases self.ptoks().len(),
//@at loopstart 0
    let ghost gts = self.ptoks();
    let ghost gl = lits_v(result_list@);
    proof {
        assert forall|l: Literal| #[trigger] lits_v(result_list@.push(l)) =~= gl.push(l.v()) by { }
    }
//@fn parser::Parser::parse_directive
//@props C11,C12,C13,C15,C17
    requires old(self).pwf(),
    ensures
        final(self).pwf(),
        match r {
            Ok(n) => /*@C17,C11,C12*/ g_dir(old(self).ptoks()) == PR::Ok(n.v(), final(self).ptoks()),
            Err(e) => /*@C15,C17*/ g_dir(old(self).ptoks()) == PR::<NodeV>::Err(e.pv()) && e.printable(),
        },
//@at entry
    let ghost ts = self.ptoks();
    proof { if ts.len() > 1 { assert(ts.skip(1).skip(1) =~= ts.skip(2)); } assert forall|v: Vec<Literal>| v@.len() == 0 implies #[trigger] lits_v(v@) =~= Seq::empty() by { } }
//@fn parser::Parser::parse_label
//@props C13,C15,C17
    requires old(self).pwf(),
    ensures
        final(self).pwf(),
        match r {
            Ok(n) => /*@C17*/ g_label(old(self).ptoks()) == PR::Ok(n.v(), final(self).ptoks()),
            Err(e) => /*@C15,C17*/ g_label(old(self).ptoks()) == PR::<NodeV>::Err(e.pv()) && e.printable(),
        },
//@at entry
    let ghost ts = self.ptoks();
    proof { if ts.len() > 1 { assert(ts.skip(1).skip(1) =~= ts.skip(2)); } }
//@fn parser::Parser::parse_field_list_entry
//@props C02,C13,C15,C17
//@params result_list
    requires old(self).pwf(),
    ensures
        final(self).pwf(),
        match r {
            Ok(b) => if b {
                /*@C02,C17*/ g_fields(old(self).ptoks(), fields_v(old(result_list)@)) == g_fields(final(self).ptoks(), fields_v(final(result_list)@)) && final(self).ptoks().len() < old(self).ptoks().len()
            } else {
                /*@C02,C17*/ g_fields(old(self).ptoks(), fields_v(old(result_list)@)) == PR::Ok(fields_v(final(result_list)@), final(self).ptoks())
            },
            Err(e) => /*@C15,C17*/ g_fields(old(self).ptoks(), fields_v(old(result_list)@)) == PR::<Seq<FieldV>>::Err(e.pv()) && e.printable(),
        },
//@at entry
    let ghost ts = self.ptoks();
    let ghost gl = fields_v(result_list@);
    proof {
        broadcast use group_u12, group_str;
        assert forall|l: InstructionField| #[trigger] fields_v(result_list@.push(l)) =~= gl.push(l.v()) by { }
        if ts.len() > 0 {
            assert(tok_ok(ts[0]));
            match ts[0].k { K::Ident(s) => { lemma_words(s); lemma_reg(s); lemma_blen_ge(s); lemma_blen_ascii(s); } _ => {} }
        }
    }
//@fn parser::Parser::parse_field_list
//@props C02,C13,C15,C17
//@params list
//@lets result_list
    requires old(self).pwf(),
    ensures
        final(self).pwf(),
        match r {
            Ok(l) => /*@C02,C17*/ g_fields(old(self).ptoks(), fields_v(list@)) == PR::Ok(fields_v(l@), final(self).ptoks()),
            Err(e) => /*@C15,C17*/ g_fields(old(self).ptoks(), fields_v(list@)) == PR::<Seq<FieldV>>::Err(e.pv()) && e.printable(),
        },
//@at entry
    let ghost ts0 = self.ptoks();
    let ghost l0 = fields_v(list@);
//@loop 0
    invariant
        self.pwf(), g_fields(ts0, l0) == g_fields(self.ptoks(), fields_v(result_list@)),
    decreases self.ptoks().len(),
//@at loopstart 0
    let ghost gl = fields_v(result_list@);
    proof {
        broadcast use group_u12, group_str;
        let ts = self.ptoks();
        assert forall|l: InstructionField| #[trigger] fields_v(result_list@.push(l)) =~= gl.push(l.v()) by { }
        if ts.len() > 0 {
            assert(tok_ok(ts[0]));
            match ts[0].k { K::Ident(s) => { lemma_words(s); lemma_reg(s); lemma_blen_ge(s); lemma_blen_ascii(s); } _ => {} }
        }
    }
//@fn parser::Parser::parse_instruction
//@props C02,C13,C15,C17
    requires old(self).pwf(),
    ensures
        final(self).pwf(),
        match r {
            Ok(n) => /*@C17,C02*/ g_instr(old(self).ptoks()) == PR::Ok(n.v(), final(self).ptoks()),
            Err(e) => /*@C15,C17*/ g_instr(old(self).ptoks()) == PR::<NodeV>::Err(e.pv()) && e.printable(),
        },
//@at entry
    proof { assert forall|v: Vec<InstructionField>| v@.len() == 0 implies #[trigger] fields_v(v@) =~= Seq::empty() by { } }
//@fn parser::Parser::parse_statement
//@props C13,C15,C17
    requires old(self).pwf(),
    ensures
        final(self).pwf(),
        match r {
            Ok(n) => /*@C17*/ g_stmt(old(self).ptoks()) == PR::Ok(n.v(), final(self).ptoks()),
            Err(e) => /*@C15,C17*/ g_stmt(old(self).ptoks()) == PR::<NodeV>::Err(e.pv()) && e.printable(),
        },
//@fn parser::Parser::parse_statement_list
//@props C13,C15,C16,C17
//@lets node_list
    requires old(self).pwf(),
    ensures
        match r {
            Ok(ns) => /*@C16,C17*/ g_stmts(old(self).ptoks(), Seq::empty()) == GR::Ok(nodes_v(ns@)) && nodes_wf(nodes_v(ns@)),
            Err(e) => /*@C15,C17*/ g_stmts(old(self).ptoks(), Seq::empty()) == GR::Err(e.pv()) && e.printable(),
        },
//@at entry
    let ghost ts0 = self.ptoks();
    proof { assert forall|v: Vec<Node>| v@.len() == 0 implies #[trigger] nodes_v(v@) =~= Seq::empty() by { } }
//@loop 0
    invariant
        self.pwf(), g_stmts(ts0, Seq::empty()) == g_stmts(self.ptoks(), nodes_v(node_list@)), nodes_wf(nodes_v(node_list@)),
    decreases self.ptoks().len(),
//@at loopstart 0
    proof {
        let gl = nodes_v(node_list@);
        lemma_stmt(self.ptoks());
        assert forall|l: Node| #[trigger] nodes_v(node_list@.push(l)) =~= gl.push(l.v()) by { }
        assert forall|l: Node| node_wf(l.v()) implies nodes_wf(#[trigger] nodes_v(node_list@.push(l))) by { assert(nodes_v(node_list@.push(l)) =~= gl.push(l.v())); assert forall|i: int| 0 <= i < gl.push(l.v()).len() implies node_wf(#[trigger] gl.push(l.v())[i]) by { if i < gl.len() { assert(node_wf(gl[i])); } } }
    }
//@fn parser::parse
//@props C13,C15,C16,C17
//@params scanner
    requires scanner.src_wf(), toks_ok(scanner.rem()),
    ensures
        match r {
            Ok(ns) => /*@C16,C17*/ g_stmts(scanner.rem(), Seq::empty()) == GR::Ok(nodes_v(ns@)) && nodes_wf(nodes_v(ns@)),
            Err(e) => /*@C15,C17*/ g_stmts(scanner.rem(), Seq::empty()) == GR::Err(e.pv()) && e.printable(),
        },
//@endfn
