// What the specification means: consequences that the properties state in words. Nothing here refers to the code.
pub mod laws {
use vstd::prelude::*;
use crate::prelude::*;
use crate::spec::*;
verus! {

// ================================================================ C09: an Intel HEX reader gets back what was written
/// The number a pair of hexadecimal digits stands for.
pub open spec fn unhexd(c: char) -> int { if '0' <= c && c <= '9' { c as int - 0x30 } else { c as int - 0x37 } }
pub open spec fn unhexs(t: Seq<char>) -> Seq<int> decreases t.len() {
    if t.len() < 2 { Seq::empty() } else { unhexs(t.take(t.len() - 2)).push(unhexd(t[t.len() - 2]) * 16 + unhexd(t[t.len() - 1])) }
}
pub open spec fn bytes_ok(b: Seq<int>) -> bool { forall|i: int| 0 <= i < b.len() ==> 0 <= #[trigger] b[i] <= 255 }
pub proof fn law_hexd(n: int) requires 0 <= n <= 15 ensures unhexd(hexd(n)) == n, hexd(n) != '\n', ('0' <= hexd(n) && hexd(n) <= '9') || ('A' <= hexd(n) && hexd(n) <= 'F') {}
pub proof fn law_hexs(b: Seq<int>)
    requires bytes_ok(b)
    ensures unhexs(hexs(b)) == b, hexs(b).len() == 2 * b.len(), forall|i: int| 0 <= i < hexs(b).len() ==> (#[trigger] hexs(b)[i]) != '\n'
    decreases b.len()
{
    if b.len() == 0 { assert(unhexs(hexs(b)) =~= b); } else {
        let d = b.drop_last();
        assert forall|i: int| 0 <= i < d.len() implies 0 <= #[trigger] d[i] <= 255 by { assert(d[i] == b[i]); }
        law_hexs(d);
        let x = b.last();
        assert(x == b[b.len() - 1]);
        law_hexd(x / 16); law_hexd(x % 16);
        let t = hexs(b);
        assert(t =~= hexs(d) + hex2(x));
        assert(t.take(t.len() - 2) =~= hexs(d));
        assert(t[t.len() - 2] == hexd(x / 16) && t[t.len() - 1] == hexd(x % 16));
        assert(unhexs(t) =~= b);
    }
}
pub proof fn law_sum_push(b: Seq<int>, x: int) ensures sum(b.push(x)) == sum(b) + x { assert(b.push(x).drop_last() =~= b); }
/// One line: a reader finds the length, the address, the type, the data, and a sum of 0 modulo 256.
pub proof fn law_line(r: RecV)
    requires rec_ok(r) || r is Eof
    ensures ({
        let l = rec_line(r);
        let b = unhexs(l.skip(1));
        &&& l[0] == ':' && b.len() >= 5 && b.len() == b[0] + 5 && l.len() == 1 + 2 * b.len()
        &&& sum(b) % 256 == 0
        &&& (r is Eof ==> b[0] == 0 && b[1] == 0 && b[2] == 0 && b[3] == 1)
        &&& (r is Data ==> b[3] == 0 && b[1] * 256 + b[2] == r->Data_0 && b[0] == r->Data_1.len() && b.subrange(4, 4 + b[0]) =~= r->Data_1.map_values(|x: u8| x as int))
        &&& forall|i: int| 0 <= i < l.len() ==> (#[trigger] l[i]) != '\n'
    })
{
    let body = rec_body(r);
    let b = body.push(checksum(body));
    assert(0 <= checksum(body) <= 255);
    if r is Data { assert(r->Data_0 <= 0xFFFF); }
    assert forall|i: int| 0 <= i < b.len() implies 0 <= #[trigger] b[i] <= 255 by {
        if i < body.len() && i >= 4 { if r is Data { assert(body[i] == r->Data_1[i - 4] as int); } }
    }
    law_hexs(b);
    let l = rec_line(r);
    assert(l.skip(1) =~= hexs(b));
    law_sum_push(body, checksum(body));
    assert((sum(body) + (256 - sum(body) % 256) % 256) % 256 == 0);
    assert forall|i: int| 0 <= i < l.len() implies (#[trigger] l[i]) != '\n' by { if i > 0 { assert(l[i] == hexs(b)[i - 1]); } }
    if r is Data { assert(b.subrange(4, 4 + b[0]) =~= r->Data_1.map_values(|x: u8| x as int)); }
}
/// The lines of a text whose every line ends with a newline.
pub open spec fn lines(t: Seq<char>) -> Seq<Seq<char>> decreases t.len() {
    let n = run(t, |c: char| not_nl(c)) as int;
    if n >= t.len() { Seq::empty() } else { seq![t.take(n)] + lines(t.skip(n + 1)) }
}
proof fn law_lines_cons(l: Seq<char>, t: Seq<char>)
    requires forall|i: int| 0 <= i < l.len() ==> (#[trigger] l[i]) != '\n'
    ensures lines(l + seq!['\n'] + t) == seq![l] + lines(t)
{
    let s = l + seq!['\n'] + t;
    let n = l.len() as int;
    assert forall|i: int| 0 <= i < n implies not_nl(#[trigger] s[i]) by { assert(s[i] == l[i]); }
    assert(s[n] == '\n');
    lemma_run_is(s, |c: char| not_nl(c), n);
    assert(s.take(n) =~= l);
    assert(s.skip(n + 1) =~= t);
}
proof fn law_lines_snoc(t: Seq<char>, l: Seq<char>)
    requires forall|i: int| 0 <= i < l.len() ==> (#[trigger] l[i]) != '\n', t.len() == 0 || t.last() == '\n'
    ensures lines(t + l + seq!['\n']) == lines(t).push(l)
    decreases t.len()
{
    if t.len() == 0 {
        assert(t + l + seq!['\n'] =~= l + seq!['\n'] + Seq::<char>::empty());
        law_lines_cons(l, Seq::empty());
        lemma_run(Seq::empty(), |c: char| not_nl(c));
        lemma_run(t, |c: char| not_nl(c));
        assert(lines(t) =~= Seq::<Seq<char>>::empty());
        assert(lines(t).push(l) =~= seq![l] + lines(Seq::empty()));
    } else {
        let p = |c: char| not_nl(c);
        lemma_run(t, p);
        let n = run(t, p) as int;
        if n >= t.len() { assert(p(t[t.len() - 1])); }
        assert(!p(t[n]));
        let (h, r) = (t.take(n), t.skip(n + 1));
        assert(t =~= h + seq!['\n'] + r);
        assert forall|i: int| 0 <= i < h.len() implies (#[trigger] h[i]) != '\n' by { assert(p(t[i])); }
        assert(r.len() > 0 ==> r.last() == t.last());
        law_lines_snoc(r, l);
        law_lines_cons(h, r);
        law_lines_cons(h, r + l + seq!['\n']);
        assert(t + l + seq!['\n'] =~= h + seq!['\n'] + (r + l + seq!['\n']));
        assert(lines(t).push(l) =~= seq![h] + lines(r).push(l));
    }
}
/// The whole text: its lines are the records, in order.
pub proof fn law_hex_text(rs: Seq<RecV>)
    requires forall|i: int| 0 <= i < rs.len() ==> rec_ok(#[trigger] rs[i]) || rs[i] is Eof
    ensures lines(hex_text(rs)) == rs.map_values(|r: RecV| rec_line(r)), hex_text(rs).len() == 0 || hex_text(rs).last() == '\n'
    decreases rs.len()
{
    if rs.len() == 0 {
        lemma_run(hex_text(rs), |c: char| not_nl(c));
        assert(lines(hex_text(rs)) =~= rs.map_values(|r: RecV| rec_line(r)));
    } else {
        let d = rs.drop_last();
        assert forall|i: int| 0 <= i < d.len() implies rec_ok(#[trigger] d[i]) || d[i] is Eof by { assert(d[i] == rs[i]); }
        law_hex_text(d);
        assert(rec_ok(rs[rs.len() - 1]) || rs[rs.len() - 1] is Eof);
        law_line(rs.last());
        law_lines_snoc(hex_text(d), rec_line(rs.last()));
        assert(rs.map_values(|r: RecV| rec_line(r)) =~= d.map_values(|r: RecV| rec_line(r)).push(rec_line(rs.last())));
    }
}
/// Two well-formed files with the same text place the same bytes: the text determines the image.
pub proof fn law_hex_unique(a: Seq<RecV>, b: Seq<RecV>)
    requires hex_ok(a), hex_ok(b), hex_text(a) == hex_text(b)
    ensures a == b
{
    law_hex_text(a);
    law_hex_text(b);
    let (x, y) = (a.map_values(|r: RecV| rec_line(r)), b.map_values(|r: RecV| rec_line(r)));
    assert(x.len() == a.len() && y.len() == b.len());
    assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by {
        assert(x[i] == rec_line(a[i]) && y[i] == rec_line(b[i]));
        assert(rec_ok(a[i]) || a[i] is Eof);
        assert(rec_ok(b[i]) || b[i] is Eof);
        law_line(a[i]); law_line(b[i]);
        let u = unhexs(rec_line(a[i]).skip(1));
        if a[i] is Data {
            assert(u[3] == 0);
            let (p, q) = (a[i]->Data_1, b[i]->Data_1);
            assert forall|k: int| 0 <= k < p.len() implies p[k] == q[k] by {
                assert(p.map_values(|x: u8| x as int)[k] == u.subrange(4, 4 + u[0])[k]);
                assert(q.map_values(|x: u8| x as int)[k] == u.subrange(4, 4 + u[0])[k]);
            }
            assert(p =~= q);
        }
    }
    assert(a =~= b);
}

// ================================================================ C04, C05, C06, C08: layout
/// A label denotes its value wherever it is used, and only defined labels denote one.
pub proof fn law_labels(ns: Seq<NodeV>, n: int)
    requires 0 <= n <= ns.len(), all_ok1(ns, n)
    ensures forall|i: int| 0 <= i < n && (#[trigger] ns[i]) is Label ==> label_map(ns, n).dom().contains(ns[i]->Label_name) && label_map(ns, n)[ns[i]->Label_name] == label_value(ns, i),
        forall|name: Seq<char>| #[trigger] label_map(ns, n).dom().contains(name) ==> exists|i: int| 0 <= i < n && defines(#[trigger] ns[i], name)
    decreases n
{
    if n > 0 {
        assert forall|i: int| 0 <= i < n - 1 implies #[trigger] ok1(ns, i) by { }
        law_labels(ns, n - 1);
        assert(ok1(ns, n - 1));
        assert forall|i: int| 0 <= i < n && (#[trigger] ns[i]) is Label implies label_map(ns, n).dom().contains(ns[i]->Label_name) && label_map(ns, n)[ns[i]->Label_name] == label_value(ns, i) by {
            if i < n - 1 && ns[n - 1] is Label { assert(defines(ns[i], ns[i]->Label_name)); assert(ns[i]->Label_name != ns[n - 1]->Label_name); }
        }
        assert forall|name: Seq<char>| #[trigger] label_map(ns, n).dom().contains(name) implies exists|i: int| 0 <= i < n && defines(#[trigger] ns[i], name) by {
            if label_map(ns, n - 1).dom().contains(name) { let i = choose|i: int| 0 <= i < n - 1 && defines(#[trigger] ns[i], name); assert(defines(ns[i], name)); }
            else { assert(defines(ns[n - 1], name)); }
        }
    }
}
/// The address counter of an acceptable program stays within 12 bits.
pub proof fn law_counter(ns: Seq<NodeV>, i: int)
    requires 0 <= i <= ns.len(), all_ok1(ns, ns.len() as int), nodes_wf(ns)
    ensures 0 <= counter(ns, i) <= 4095
    decreases i
{
    if i > 0 {
        law_counter(ns, i - 1);
        assert(ok1(ns, i - 1));
        assert(node_wf(ns[i - 1]));
        if ns[i - 1] is Dir { let a = ns[i - 1]->args; if as_dir(ns[i - 1]) is Some && as_dir(ns[i - 1])->Some_0 is Org { assert(lit_ok(a[0])); } }
    }
}
/// Every byte lies below $FFF's end, at the counter of its statement: nothing wraps.
pub proof fn law_placed(ns: Seq<NodeV>, n: int)
    requires 0 <= n <= ns.len(), asm_ok(ns), nodes_wf(ns)
    ensures forall|p: int| 0 <= p < placed(ns, label_map(ns, ns.len() as int), n).len() ==> 0 <= (#[trigger] placed(ns, label_map(ns, ns.len() as int), n)[p]).0 < 4095
    decreases n
{
    if n > 0 {
        let labels = label_map(ns, ns.len() as int);
        law_placed(ns, n - 1);
        law_counter(ns, n - 1);
        assert(ok1(ns, n - 1));
        let b = bytes_of(ns[n - 1], labels)->Some_0;
        let (x, y) = (placed(ns, labels, n - 1), at(counter(ns, n - 1), b));
        assert forall|p: int| 0 <= p < placed(ns, labels, n).len() implies 0 <= (#[trigger] placed(ns, labels, n)[p]).0 < 4095 by {
            if p < x.len() { assert(placed(ns, labels, n)[p] == x[p]); } else { assert(placed(ns, labels, n)[p] == y[p - x.len()]); }
        }
    }
}
/// Statements that follow each other without .ORG lie next to each other.
pub proof fn law_contiguous(ns: Seq<NodeV>, i: int)
    requires 0 <= i < ns.len(), asm_ok(ns), !(as_dir(ns[i]) is Some && as_dir(ns[i])->Some_0 is Org)
    ensures counter(ns, i + 1) == counter(ns, i) + bytes_of(ns[i], label_map(ns, ns.len() as int))->Some_0.len()
{ assert(ok1(ns, i)); assert(bytes_of(ns[i], label_map(ns, ns.len() as int)) is Some); }

// ================================================================ C02: letter case
pub proof fn law_lower_len(a: Seq<char>) ensures lower(a).len() == a.len() {}
/// Names that differ in letter case only: the same instruction, the same directive, the same register.
pub proof fn law_case(a: Seq<char>, b: Seq<char>, f: Seq<FieldV>, labels: Map<Seq<char>, int>, args: Seq<LitV>)
    requires lower(a) == lower(b)
    ensures enc(lower(a), f, labels) == enc(lower(b), f, labels), dir_of(a, args) == dir_of(b, args),
        field_of(a) is Id == field_of(b) is Id, !(field_of(a) is Id) ==> field_of(a) == field_of(b)
{}

// ================================================================ C16: what does not matter
/// The same kind of token; the text of a comment does not count.
pub open spec fn k_same(a: K, b: K) -> bool { a == b || (a is Comment && b is Comment) }
pub open spec fn ts_same(a: Seq<TokV>, b: Seq<TokV>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> k_same((#[trigger] a[i]).k, b[i].k) }
pub open spec fn node_same(a: NodeV, b: NodeV) -> bool {
    match (a, b) {
        (NodeV::Dir { loc: _, name: m, args: x }, NodeV::Dir { loc: _, name: n, args: y }) => m == n && x == y,
        (NodeV::Label { loc: _, name: m }, NodeV::Label { loc: _, name: n }) => m == n,
        (NodeV::Instr { loc: _, name: m, fields: x }, NodeV::Instr { loc: _, name: n, fields: y }) => m == n && x == y,
        _ => false,
    }
}
pub open spec fn ns_same(a: Seq<NodeV>, b: Seq<NodeV>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> node_same(#[trigger] a[i], b[i]) }
proof fn law_same_skip(a: Seq<TokV>, b: Seq<TokV>, n: int)
    requires ts_same(a, b), 0 <= n <= a.len()
    ensures ts_same(a.skip(n), b.skip(n))
{ assert forall|i: int| 0 <= i < a.skip(n).len() implies k_same((#[trigger] a.skip(n)[i]).k, b.skip(n)[i].k) by { assert(a.skip(n)[i] == a[n + i]); assert(b.skip(n)[i] == b[n + i]); } }
proof fn law_lits_same(a: Seq<TokV>, b: Seq<TokV>, acc: Seq<LitV>)
    requires ts_same(a, b)
    ensures match g_lits(a, acc) { PR::Ok(x, r) => g_lits(b, acc) is Ok && g_lits(b, acc)->Ok_0 == x && ts_same(r, g_lits(b, acc)->Ok_1), PR::Err(_) => g_lits(b, acc) is Err }
    decreases a.len()
{
    if a.len() > 0 {
        assert(k_same(a[0].k, b[0].k));
        law_same_skip(a, b, 1);
        if a.len() > 1 {
            assert(k_same(a[1].k, b[1].k));
            law_same_skip(a, b, 2);
            assert(a.skip(1).skip(1) =~= a.skip(2) && b.skip(1).skip(1) =~= b.skip(2));
            if a[0].k is Str { law_lits_same(a.skip(2), b.skip(2), acc.push(LitV::Str(a[0].k->Str_0))); }
            if a[0].k is Num { law_lits_same(a.skip(2), b.skip(2), acc.push(LitV::Num(a[0].k->Num_0))); }
        }
    }
}
proof fn law_fields_same(a: Seq<TokV>, b: Seq<TokV>, acc: Seq<FieldV>)
    requires ts_same(a, b)
    ensures match g_fields(a, acc) { PR::Ok(x, r) => g_fields(b, acc) is Ok && g_fields(b, acc)->Ok_0 == x && ts_same(r, g_fields(b, acc)->Ok_1), PR::Err(_) => g_fields(b, acc) is Err }
    decreases a.len()
{
    if a.len() > 0 {
        assert(k_same(a[0].k, b[0].k));
        law_same_skip(a, b, 1);
        if a.len() > 1 {
            assert(k_same(a[1].k, b[1].k));
            law_same_skip(a, b, 2);
            assert(a.skip(1).skip(1) =~= a.skip(2) && b.skip(1).skip(1) =~= b.skip(2));
            if a[0].k is Num { law_fields_same(a.skip(2), b.skip(2), acc.push(FieldV::Num(a[0].k->Num_0))); }
            if a[0].k is Ident { law_fields_same(a.skip(2), b.skip(2), acc.push(field_of(a[0].k->Ident_0))); }
        }
    }
}
proof fn law_stmt_same(a: Seq<TokV>, b: Seq<TokV>)
    requires ts_same(a, b)
    ensures match g_stmt(a) { PR::Ok(x, r) => g_stmt(b) is Ok && node_same(x, g_stmt(b)->Ok_0) && ts_same(r, g_stmt(b)->Ok_1), PR::Err(_) => g_stmt(b) is Err }
{
    if a.len() > 0 {
        assert(k_same(a[0].k, b[0].k));
        law_same_skip(a, b, 1);
        law_fields_same(a.skip(1), b.skip(1), Seq::empty());
        if a.len() > 1 {
            assert(k_same(a[1].k, b[1].k));
            law_same_skip(a, b, 2);
            law_lits_same(a.skip(2), b.skip(2), Seq::empty());
        }
    }
}
/// What is accepted, and the statements found, depend on the kinds of tokens only: not on where they are.
pub proof fn law_stmts_same(a: Seq<TokV>, b: Seq<TokV>, x: Seq<NodeV>, y: Seq<NodeV>)
    requires ts_same(a, b), ns_same(x, y)
    ensures match g_stmts(a, x) { GR::Ok(n) => g_stmts(b, y) is Ok && ns_same(n, g_stmts(b, y)->Ok_0), GR::Err(_) => g_stmts(b, y) is Err }
    decreases a.len()
{
    if a.len() > 0 {
        assert(k_same(a[0].k, b[0].k));
        if a[0].k is Comment || a[0].k is Nl { law_same_skip(a, b, 1); law_stmts_same(a.skip(1), b.skip(1), x, y); }
        else {
            law_stmt_same(a, b);
            match g_stmt(a) {
                PR::Ok(n, r) => if r.len() < a.len() {
                    let m = g_stmt(b)->Ok_0;
                    assert forall|i: int| 0 <= i < x.push(n).len() implies node_same(#[trigger] x.push(n)[i], y.push(m)[i]) by { if i < x.len() { assert(node_same(x[i], y[i])); } }
                    law_stmts_same(r, g_stmt(b)->Ok_1, x.push(n), y.push(m));
                },
                PR::Err(_) => {},
            }
        }
    }
}
proof fn law_dir_same(a: NodeV, b: NodeV) requires node_same(a, b) ensures as_dir(a) == as_dir(b), as_equ(a) == as_equ(b), forall|l: Map<Seq<char>, int>| #[trigger] bytes_of(a, l) == bytes_of(b, l), forall|c: int| #[trigger] step(a, c) == step(b, c) {}
proof fn law_counter_same(a: Seq<NodeV>, b: Seq<NodeV>, i: int)
    requires ns_same(a, b), i <= a.len()
    ensures counter(a, i) == counter(b, i)
    decreases i
{ if i > 0 { law_counter_same(a, b, i - 1); assert(node_same(a[i - 1], b[i - 1])); law_dir_same(a[i - 1], b[i - 1]); } }
proof fn law_value_same(a: Seq<NodeV>, b: Seq<NodeV>, i: int)
    requires ns_same(a, b), 0 <= i < a.len()
    ensures label_value(a, i) == label_value(b, i)
{ law_counter_same(a, b, i); if i + 1 < a.len() { assert(node_same(a[i + 1], b[i + 1])); law_dir_same(a[i + 1], b[i + 1]); } }
proof fn law_map_same(a: Seq<NodeV>, b: Seq<NodeV>, n: int)
    requires ns_same(a, b), n <= a.len()
    ensures label_map(a, n) == label_map(b, n)
    decreases n
{ if n > 0 { law_map_same(a, b, n - 1); law_value_same(a, b, n - 1); assert(node_same(a[n - 1], b[n - 1])); } }
proof fn law_placed_same(a: Seq<NodeV>, b: Seq<NodeV>, l: Map<Seq<char>, int>, n: int)
    requires ns_same(a, b), n <= a.len()
    ensures placed(a, l, n) == placed(b, l, n)
    decreases n
{ if n > 0 { law_placed_same(a, b, l, n - 1); law_counter_same(a, b, n - 1); assert(node_same(a[n - 1], b[n - 1])); law_dir_same(a[n - 1], b[n - 1]); } }
proof fn law_ok1_same(a: Seq<NodeV>, b: Seq<NodeV>, i: int)
    requires ns_same(a, b), 0 <= i < a.len(), ok1(a, i)
    ensures ok1(b, i)
{
    assert(node_same(a[i], b[i]));
    law_dir_same(a[i], b[i]);
    law_counter_same(a, b, i);
    if i > 0 { assert(node_same(a[i - 1], b[i - 1])); }
    if a[i] is Label {
        let name = a[i]->Label_name;
        if defined_before(b, i, name) { let j = choose|j: int| 0 <= j < i && defines(#[trigger] b[j], name); assert(node_same(a[j], b[j])); assert(defines(a[j], name)); }
    }
}
proof fn law_asm_same1(a: Seq<NodeV>, b: Seq<NodeV>)
    requires ns_same(a, b), asm_ok(a)
    ensures asm_ok(b), asm_image(a) == asm_image(b)
{
    let n = a.len() as int;
    assert forall|i: int| 0 <= i < n implies #[trigger] ok1(b, i) by { assert(ok1(a, i)); law_ok1_same(a, b, i); }
    law_map_same(a, b, n);
    let l = label_map(a, n);
    assert forall|i: int| 0 <= i < n implies bytes_of(#[trigger] b[i], l) is Some by { assert(node_same(a[i], b[i])); law_dir_same(a[i], b[i]); assert(bytes_of(a[i], l) is Some); }
    law_placed_same(a, b, l, n);
}
/// The image depends on the statements only, not on where they are written.
pub proof fn law_asm_same(a: Seq<NodeV>, b: Seq<NodeV>)
    requires ns_same(a, b)
    ensures asm_ok(a) == asm_ok(b), asm_ok(a) ==> asm_image(a) == asm_image(b)
{
    assert forall|i: int| 0 <= i < b.len() implies node_same(#[trigger] b[i], a[i]) by { assert(node_same(a[i], b[i])); }
    if asm_ok(a) { law_asm_same1(a, b); }
    if asm_ok(b) { law_asm_same1(b, a); }
}
/// The tokens of a text do not depend on where it starts.
pub proof fn law_tokens_anywhere(s: Seq<char>, f: Seq<char>, l: int, c: int, f2: Seq<char>, l2: int, c2: int)
    ensures ts_same(tokens(s, f, l, c), tokens(s, f2, l2, c2))
    decreases s.len()
{
    let w = run(s, |c: char| is_ws(c)) as int;
    let t = s.skip(w);
    if w > s.len() || t.len() == 0 {} else {
        let (n, k) = lex1(t);
        if k is Err || n < 1 || n > t.len() {} else {
            let (p, q) = (adv(l, c + w, t.take(n)), adv(l2, c2 + w, t.take(n)));
            let (x, y) = (tokens(t.skip(n), f, p.0, p.1), tokens(t.skip(n), f2, q.0, q.1));
            law_tokens_anywhere(t.skip(n), f, p.0, p.1, f2, q.0, q.1);
            let (u, v) = (tokens(s, f, l, c), tokens(s, f2, l2, c2));
            assert forall|i: int| 0 <= i < u.len() implies k_same((#[trigger] u[i]).k, v[i].k) by { if i > 0 { assert(u[i] == x[i - 1]); assert(v[i] == y[i - 1]); assert(k_same(x[i - 1].k, y[i - 1].k)); } }
        }
    }
}
proof fn law_same_trans(a: Seq<TokV>, b: Seq<TokV>, c: Seq<TokV>) requires ts_same(a, b), ts_same(b, c) ensures ts_same(a, c)
{ assert forall|i: int| 0 <= i < a.len() implies k_same((#[trigger] a[i]).k, c[i].k) by { assert(k_same(a[i].k, b[i].k)); assert(k_same(b[i].k, c[i].k)); } }

// ---------------------------------------------------------------- C16: blanks between tokens
/// `n` is a place between tokens of `s`: before, after or between them, or among the blanks there.
pub open spec fn between(s: Seq<char>, n: int) -> bool decreases s.len() {
    let w = run(s, |c: char| is_ws(c)) as int;
    if n <= w { 0 <= n <= s.len() } else {
        let t = s.skip(w);
        if w >= s.len() { false } else {
            let (m, k) = lex1(t);
            !(k is Err) && 1 <= m && w + m <= s.len() && n >= w + m && between(t.skip(m), n - w - m)
        }
    }
}
proof fn law_between(s: Seq<char>, n: int)
    requires between(s, n)
    ensures 0 <= n <= s.len()
    decreases s.len()
{
    let w = run(s, |c: char| is_ws(c)) as int;
    if n > w { let t = s.skip(w); law_between(t.skip(lex1(t).0), n - w - lex1(t).0); }
}
pub open spec fn blank(x: Seq<char>) -> bool { forall|i: int| 0 <= i < x.len() ==> is_ws(#[trigger] x[i]) }
pub open spec fn put(s: Seq<char>, n: int, x: Seq<char>) -> Seq<char> { s.take(n) + x + s.skip(n) }
proof fn law_str_body(a: Seq<char>, b: Seq<char>, n: int)
    requires str_body(a) == n, n < a.len(), n < b.len(), a[n] == '"', forall|i: int| 0 <= i <= n ==> a[i] == b[i]
    ensures str_body(b) == n
    decreases a.len()
{
    assert(a[0] == b[0]);
    if a[0] != '"' && a[0] != '\\' {
        assert(str_body(a) == 1 + str_body(a.skip(1)));
        assert forall|i: int| 0 <= i <= n - 1 implies a.skip(1)[i] == b.skip(1)[i] by { assert(a[i + 1] == b[i + 1]); }
        law_str_body(a.skip(1), b.skip(1), n - 1);
    } else if a.len() >= 2 && a[0] == '\\' && a[1] != '\n' {
        assert(str_body(a) == 2 + str_body(a.skip(2)));
        assert(n >= 2);
        assert(a[1] == b[1]);
        assert forall|i: int| 0 <= i <= n - 2 implies a.skip(2)[i] == b.skip(2)[i] by { assert(a[i + 2] == b[i + 2]); }
        law_str_body(a.skip(2), b.skip(2), n - 2);
    } else { assert(str_body(a) == 0); }
}
/// A run that stays inside what two texts share, and is followed in the second by nothing of its class, is the same.
proof fn law_run_local(a: Seq<char>, b: Seq<char>, p: spec_fn(char) -> bool, n: int)
    requires run(a, p) == n, n <= b.len(), forall|i: int| 0 <= i < n ==> a[i] == b[i], n < b.len() ==> !p(b[n])
    ensures run(b, p) == n
{
    lemma_run(a, p);
    assert forall|i: int| 0 <= i < n implies p(#[trigger] b[i]) by { assert(p(a[i])); assert(a[i] == b[i]); }
    lemma_run_is(b, p, n);
}
/// The token at the start of a text does not change when a blank, a newline or a comment is put anywhere behind it,
/// but for a comment, which takes up what is put at its very end.
proof fn law_lex1_local(t: Seq<char>, j: int, x: Seq<char>)
    requires t.len() > 0, x.len() > 0, is_ws(x[0]) || x[0] == ';' || x[0] == '\n', !(lex1(t).1 is Err), 1 <= lex1(t).0 <= j <= t.len(),
        !(lex1(t).1 is Comment && lex1(t).0 == j) || x[0] == '\n'
    ensures lex1(put(t, j, x)) == lex1(t)
{
    let (m, k) = lex1(t);
    let u = put(t, j, x);
    assert forall|i: int| 0 <= i < j implies t[i] == u[i] by {}
    assert(forall|i: int| 0 <= i < j ==> t[i] == u[i]);
    assert(u[0] == t[0]);
    assert(u.take(m) =~= t.take(m));
    assert(m < u.len());
    assert(u[m] == if m < j { t[m] } else { x[0] });
    let c = t[0];
    if c == ';' {
        let p = |c: char| not_nl(c);
        lemma_run(t, p);
        law_run_local(t, u, p, m);
    } else if c == '"' {
        let i = 1 + str_body(t.skip(1)) as int;
        assert(m == i + 1);
        assert forall|q: int| 0 <= q <= i - 1 implies t.skip(1)[q] == u.skip(1)[q] by { assert(t[q + 1] == u[q + 1]); }
        law_str_body(t.skip(1), u.skip(1), i - 1);
        assert(u.subrange(1, m - 1) =~= t.subrange(1, m - 1));
    } else if c == '$' || c == '#' {
        let p = |c: char| is_hex(c);
        let (a, b) = (t.skip(1), u.skip(1));
        lemma_run(a, p); lemma_run(b, p);
        let r = run(a, p) as int;
        assert forall|q: int| 0 <= q < m - 1 implies a[q] == b[q] by { assert(t[q + 1] == u[q + 1]); }
        if r <= 3 {
            if m < j { assert(a[r] == t[m]); }
            assert(b[r] == u[m]);
            law_run_local(a, b, p, r);
        } else {
            assert(m == 4);
            let rb = run(b, p) as int;
            if rb < 3 { assert(b[rb] == a[rb]); assert(p(a[rb])); }
        }
        assert(u.subrange(1, m) =~= t.subrange(1, m));
    } else if c == '%' {
        let p = |c: char| is_bin(c);
        let (a, b) = (t.skip(1), u.skip(1));
        lemma_run(a, p);
        let r = run(a, p) as int;
        assert forall|q: int| 0 <= q < r implies a[q] == b[q] by { assert(t[q + 1] == u[q + 1]); }
        if m < j { assert(a[r] == t[m]); }
        assert(b[r] == u[m]);
        law_run_local(a, b, p, r);
        assert(u.subrange(1, m) =~= t.subrange(1, m));
    } else if c == '[' {
        assert(m == 3);
        assert(u[1] == t[1] && u[2] == t[2]);
    } else if is_digit(c) {
        let p = |c: char| is_digit(c);
        lemma_run(t, p);
        law_run_local(t, u, p, m);
    } else if is_alpha_(c) {
        let p = |c: char| is_identc(c);
        let (a, b) = (t.skip(1), u.skip(1));
        lemma_run(a, p);
        let r = run(a, p) as int;
        assert forall|q: int| 0 <= q < r implies a[q] == b[q] by { assert(t[q + 1] == u[q + 1]); }
        if m < j { assert(a[r] == t[m]); }
        assert(b[r] == u[m]);
        law_run_local(a, b, p, r);
    }
}
proof fn law_lex1_comment(t: Seq<char>, x: Seq<char>)
    requires t.len() > 0, x.len() > 0, blank(x), lex1(t).1 is Comment
    ensures ({
        let m = lex1(t).0;
        let u = put(t, m, x);
        1 <= m <= t.len() && lex1(u).0 == m + x.len() && lex1(u).1 is Comment && (m < t.len() ==> t[m] == '\n')
    })
{
    let m = lex1(t).0;
    let u = put(t, m, x);
    let p = |c: char| not_nl(c);
    lemma_run(t, p);
    assert(t[0] == ';');
    assert forall|i: int| 0 <= i < m + x.len() implies p(#[trigger] u[i]) by {
        if i < m { assert(p(t[i])); } else { assert(u[i] == x[i - m]); assert(is_ws(x[i - m])); }
    }
    if m + x.len() < u.len() { assert(u[m + x.len()] == t[m]); }
    lemma_run_is(u, p, (m + x.len()) as int);
    assert(u[0] == t[0]);
}
/// One token and what follows it.
proof fn law_tokens_step(s: Seq<char>, f: Seq<char>, l: int, c: int, s2: Seq<char>, l2: int, c2: int, w: int, w2: int, n: int, n2: int, r: Seq<char>, r2: Seq<char>)
    requires
        w == run(s, |c: char| is_ws(c)), w2 == run(s2, |c: char| is_ws(c)), w < s.len(), w2 < s2.len(),
        lex1(s.skip(w)).0 == n, lex1(s2.skip(w2)).0 == n2, k_same(lex1(s.skip(w)).1, lex1(s2.skip(w2)).1), !(lex1(s.skip(w)).1 is Err), !(lex1(s2.skip(w2)).1 is Err),
        1 <= n <= s.len() - w, 1 <= n2 <= s2.len() - w2,
        r == s.skip(w).skip(n), r2 == s2.skip(w2).skip(n2),
        forall|a: int, b: int, d: int, e: int| ts_same(#[trigger] tokens(r, f, a, b), #[trigger] tokens(r2, f, d, e)),
    ensures ts_same(tokens(s, f, l, c), tokens(s2, f, l2, c2))
{
    hide(lex1);
    let (t, t2) = (s.skip(w), s2.skip(w2));
    let (p, q) = (adv(l, c + w, t.take(n)), adv(l2, c2 + w2, t2.take(n2)));
    let (x, y) = (tokens(r, f, p.0, p.1), tokens(r2, f, q.0, q.1));
    assert(ts_same(x, y));
    let (u, v) = (tokens(s, f, l, c), tokens(s2, f, l2, c2));
    assert(u.len() == x.len() + 1 && v.len() == y.len() + 1);
    assert forall|i: int| 0 <= i < u.len() implies k_same((#[trigger] u[i]).k, v[i].k) by { if i > 0 { assert(u[i] == x[i - 1]); assert(v[i] == y[i - 1]); assert(k_same(x[i - 1].k, y[i - 1].k)); } }
}
/// Blanks put between the tokens of a text leave its tokens as they are, but for their places and the texts of comments.
pub proof fn law_blanks(s: Seq<char>, n: int, x: Seq<char>, f: Seq<char>, l: int, c: int, l2: int, c2: int)
    requires between(s, n), blank(x), x.len() > 0
    ensures ts_same(tokens(s, f, l, c), tokens(put(s, n, x), f, l2, c2))
    decreases s.len()
{
    hide(lex1);
    let p = |c: char| is_ws(c);
    let u = put(s, n, x);
    let w = run(s, p) as int;
    lemma_run(s, p);
    law_between(s, n);
    if n <= w {
        let w2 = w + x.len();
        assert forall|i: int| 0 <= i < w2 implies p(#[trigger] u[i]) by {
            if i < n { assert(u[i] == s[i]); assert(p(s[i])); } else if i < n + x.len() { assert(u[i] == x[i - n]); assert(is_ws(x[i - n])); } else { assert(u[i] == s[i - x.len()]); assert(p(s[i - x.len()])); }
        }
        if w2 < u.len() { assert(u[w2 as int] == s[w]); }
        lemma_run_is(u, p, w2 as int);
        assert(u.skip(w2 as int) =~= s.skip(w));
        if w < s.len() {
            let t = s.skip(w);
            let (m, k) = lex1(t);
            if k is Err || m < 1 || m > t.len() {
                assert(tokens(s, f, l, c).len() == 1 && tokens(u, f, l2, c2).len() == 1);
            } else {
                let r = t.skip(m);
                assert forall|a: int, b: int, d: int, e: int| ts_same(#[trigger] tokens(r, f, a, b), #[trigger] tokens(r, f, d, e)) by { law_tokens_anywhere(r, f, a, b, f, d, e); }
                law_tokens_step(s, f, l, c, u, l2, c2, w, w2 as int, m, m, r, r);
            }
        } else {
            assert(tokens(s, f, l, c) =~= Seq::empty());
            assert(tokens(u, f, l2, c2) =~= Seq::empty());
        }
    } else {
        let t = s.skip(w);
        let (m, k) = lex1(t);
        let j = n - w;
        assert(!p(s[w]));
        assert forall|i: int| 0 <= i < w implies p(#[trigger] u[i]) by { assert(u[i] == s[i]); assert(p(s[i])); }
        assert(u[w] == s[w]);
        lemma_run_is(u, p, w);
        let t2 = u.skip(w);
        assert(t2 =~= put(t, j, x));
        let r = t.skip(m);
        if k is Comment && m == j { law_lex1_comment(t, x); } else { assert(is_ws(x[0])); law_lex1_local(t, j, x); }
        if k is Comment && m == j {
            let m2 = m + x.len();
            let r2 = t2.skip(m2 as int);
            assert(r2 =~= r);
            assert forall|a: int, b: int, d: int, e: int| ts_same(#[trigger] tokens(r, f, a, b), #[trigger] tokens(r, f, d, e)) by { law_tokens_anywhere(r, f, a, b, f, d, e); }
            law_tokens_step(s, f, l, c, u, l2, c2, w, w, m, m2 as int, r, r2);
        } else {
            let r2 = t2.skip(m);
            assert(r2 =~= put(r, j - m, x));
            assert forall|a: int, b: int, d: int, e: int| ts_same(#[trigger] tokens(r, f, a, b), #[trigger] tokens(r2, f, d, e)) by { law_blanks(r, j - m, x, f, a, b, d, e); }
            law_tokens_step(s, f, l, c, u, l2, c2, w, w, m, m, r, r2);
        }
    }
}

// ---------------------------------------------------------------- C16: comments and blank lines among the tokens
pub open spec fn idle(k: K) -> bool { k is Comment || k is Nl }
/// Where a comment or a newline may be put among the tokens: at the start, after a newline or a comment ("on its own
/// line"), or (a comment) at the end of a line, but not after a comma or where the first argument of a directive is due.
pub open spec fn place(us: Seq<TokV>, p: int, c: TokV) -> bool {
    &&& 0 <= p <= us.len() && idle(c.k)
    &&& p == 0 || idle(us[p - 1].k) || (c.k is Comment && p < us.len() && us[p].k is Nl && !(us[p - 1].k is Comma) && !(p >= 2 && us[p - 2].k is Dot))
}
proof fn law_ins_skip(us: Seq<TokV>, p: int, c: TokV, q: int)
    requires 0 <= q <= p <= us.len()
    ensures us.insert(p, c).skip(q) == us.skip(q).insert(p - q, c)
{ assert(us.insert(p, c).skip(q) =~= us.skip(q).insert(p - q, c)); }
proof fn law_lits_ins(us: Seq<TokV>, p: int, c: TokV, acc: Seq<LitV>)
    requires 0 < p <= us.len(), idle(c.k), idle(us[p - 1].k) || (c.k is Comment && p < us.len() && us[p].k is Nl && !(us[p - 1].k is Comma))
    ensures match g_lits(us, acc) {
        PR::Ok(x, r) => r.len() <= us.len() && us.len() - r.len() <= p && r == us.skip(us.len() - r.len()) && g_lits(us.insert(p, c), acc) == PR::Ok(x, us.insert(p, c).skip(us.len() - r.len())),
        PR::Err(_) => g_lits(us.insert(p, c), acc) is Err,
    }
    decreases us.len()
{
    let vs = us.insert(p, c);
    assert(vs[0] == us[0]);
    assert(us.skip(0) =~= us && vs.skip(0) =~= vs);
    if us[0].k is Str || us[0].k is Num {
        let l = match us[0].k { K::Str(s) => LitV::Str(s), K::Num(n) => LitV::Num(n), _ => LitV::Num(0) };
        if us.len() > 1 && us[1].k is Comma {
            assert(p >= 3);
            assert(vs[1] == us[1]);
            assert(us.skip(1).skip(1) =~= us.skip(2));
            assert(vs.skip(1).skip(1) =~= vs.skip(2));
            law_ins_skip(us, p, c, 2);
            law_lits_ins(us.skip(2), p - 2, c, acc.push(l));
            match g_lits(us.skip(2), acc.push(l)) {
                PR::Ok(x, r) => {
                    let q = us.skip(2).len() - r.len();
                    assert(us.skip(2).skip(q) =~= us.skip(us.len() - r.len()));
                    assert(vs.skip(2).skip(q) =~= vs.skip(us.len() - r.len()));
                }
                PR::Err(_) => {}
            }
        } else {
            if p > 1 && vs.len() > 1 { assert(vs[1] == us[1]); } else { assert(vs[1] == c); }
        }
    }
}
proof fn law_fields_ins(us: Seq<TokV>, p: int, c: TokV, acc: Seq<FieldV>)
    requires 0 <= p <= us.len(), idle(c.k), (p > 0 && idle(us[p - 1].k)) || (c.k is Comment && p < us.len() && us[p].k is Nl && !(p > 0 && us[p - 1].k is Comma))
    ensures match g_fields(us, acc) {
        PR::Ok(x, r) => r.len() <= us.len() && us.len() - r.len() <= p && r == us.skip(us.len() - r.len()) && g_fields(us.insert(p, c), acc) == PR::Ok(x, us.insert(p, c).skip(us.len() - r.len())),
        PR::Err(_) => g_fields(us.insert(p, c), acc) is Err,
    }
    decreases us.len()
{
    let vs = us.insert(p, c);
    assert(us.skip(0) =~= us && vs.skip(0) =~= vs);
    if p == 0 { assert(vs[0] == c); } else {
        assert(vs[0] == us[0]);
        if us[0].k is Num || us[0].k is Ident {
            let f = match us[0].k { K::Num(n) => FieldV::Num(n), K::Ident(s) => field_of(s), _ => FieldV::B };
            if us.len() > 1 && us[1].k is Comma {
                assert(p >= 3);
                assert(vs[1] == us[1]);
                assert(us.skip(1).skip(1) =~= us.skip(2));
                assert(vs.skip(1).skip(1) =~= vs.skip(2));
                law_ins_skip(us, p, c, 2);
                law_fields_ins(us.skip(2), p - 2, c, acc.push(f));
                match g_fields(us.skip(2), acc.push(f)) {
                    PR::Ok(x, r) => {
                        let q = us.skip(2).len() - r.len();
                        assert(us.skip(2).skip(q) =~= us.skip(us.len() - r.len()));
                        assert(vs.skip(2).skip(q) =~= vs.skip(us.len() - r.len()));
                    }
                    PR::Err(_) => {}
                }
            } else {
                if p > 1 && vs.len() > 1 { assert(vs[1] == us[1]); } else { assert(vs[1] == c); }
            }
        }
    }
}
proof fn law_stmt_ins(us: Seq<TokV>, p: int, c: TokV)
    requires place(us, p, c), 0 < p, !idle(us[0].k)
    ensures match g_stmt(us) {
        PR::Ok(x, r) => r.len() < us.len() && us.len() - r.len() <= p && r == us.skip(us.len() - r.len()) && g_stmt(us.insert(p, c)) == PR::Ok(x, us.insert(p, c).skip(us.len() - r.len())),
        PR::Err(_) => g_stmt(us.insert(p, c)) is Err,
    }
{
    let vs = us.insert(p, c);
    assert(vs[0] == us[0]);
    if p >= 2 { assert(vs[1] == us[1]); } else { assert(vs[1] == c); }
    law_ins_skip(us, p, c, 1);
    if us[0].k is Dot {
        if us.len() >= 2 && us[1].k is Ident {
            assert(p >= 3);
            law_ins_skip(us, p, c, 2);
            law_lits_ins(us.skip(2), p - 2, c, Seq::empty());
            match g_lits(us.skip(2), Seq::empty()) {
                PR::Ok(x, r) => {
                    let q = us.skip(2).len() - r.len();
                    assert(us.skip(2).skip(q) =~= us.skip(us.len() - r.len()));
                    assert(vs.skip(2).skip(q) =~= vs.skip(us.len() - r.len()));
                }
                PR::Err(_) => {}
            }
        }
    } else if us[0].k is Ident {
        if us.len() > 1 && us[1].k is Colon { assert(p >= 2); }
        else {
            law_fields_ins(us.skip(1), p - 1, c, Seq::empty());
            match g_fields(us.skip(1), Seq::empty()) {
                PR::Ok(x, r) => {
                    let q = us.skip(1).len() - r.len();
                    assert(us.skip(1).skip(q) =~= us.skip(us.len() - r.len()));
                    assert(vs.skip(1).skip(q) =~= vs.skip(us.len() - r.len()));
                }
                PR::Err(_) => {}
            }
        }
    }
}
/// A comment or a newline in such a place changes neither acceptance nor the statements.
pub proof fn law_idle(us: Seq<TokV>, p: int, c: TokV, acc: Seq<NodeV>)
    requires place(us, p, c)
    ensures match g_stmts(us, acc) { GR::Ok(n) => g_stmts(us.insert(p, c), acc) == GR::Ok(n), GR::Err(_) => g_stmts(us.insert(p, c), acc) is Err }
    decreases us.len()
{
    let vs = us.insert(p, c);
    if p == 0 { assert(vs[0] == c); assert(vs.skip(1) =~= us); }
    else {
        assert(vs[0] == us[0]);
        if idle(us[0].k) { law_ins_skip(us, p, c, 1); law_idle(us.skip(1), p - 1, c, acc); }
        else {
            law_stmt_ins(us, p, c);
            match g_stmt(us) {
                PR::Ok(n, r) => {
                    let q = us.len() - r.len();
                    law_ins_skip(us, p, c, q);
                    law_idle(us.skip(q), p - q, c, acc.push(n));
                }
                PR::Err(_) => {}
            }
        }
    }
}

// ---------------------------------------------------------------- C16: comments and blank lines in the text
/// The number of tokens before the place `n`, and whether the last of them is a comment that ends there.
pub open spec fn before(s: Seq<char>, n: int) -> int decreases s.len() {
    let w = run(s, |c: char| is_ws(c)) as int;
    if n <= w || w >= s.len() { 0 } else {
        let t = s.skip(w);
        let (m, k) = lex1(t);
        if k is Err || m < 1 || w + m > s.len() { 0 } else { 1 + before(t.skip(m), n - w - m) }
    }
}
pub open spec fn ends_comment(s: Seq<char>, n: int) -> bool decreases s.len() {
    let w = run(s, |c: char| is_ws(c)) as int;
    if n <= w || w >= s.len() { false } else {
        let t = s.skip(w);
        let (m, k) = lex1(t);
        if k is Err || m < 1 || w + m > s.len() { false } else if n == w + m { k is Comment } else { ends_comment(t.skip(m), n - w - m) }
    }
}
proof fn law_ins_here(ts: Seq<TokV>, y: Seq<TokV>, tk: TokV, tok: TokV)
    requires ts_same(y, ts), tk.k == tok.k
    ensures ts_same(seq![tk] + y, ts.insert(0, tok))
{
    let (us, want) = (seq![tk] + y, ts.insert(0, tok));
    assert forall|i: int| 0 <= i < us.len() implies k_same((#[trigger] us[i]).k, want[i].k) by {
        if i > 0 { assert(us[i] == y[i - 1]); assert(want[i] == ts[i - 1]); assert(k_same(y[i - 1].k, ts[i - 1].k)); }
    }
}
proof fn law_ins_later(tr: Seq<TokV>, ur: Seq<TokV>, t1: TokV, t3: TokV, h: int, tok: TokV)
    requires 0 <= h <= tr.len(), ts_same(ur, tr.insert(h, tok)), t1.k == t3.k
    ensures ts_same(seq![t3] + ur, (seq![t1] + tr).insert(h + 1, tok))
{
    let wr = tr.insert(h, tok);
    let (us, want) = (seq![t3] + ur, (seq![t1] + tr).insert(h + 1, tok));
    assert(want =~= seq![t1] + wr);
    assert forall|i: int| 0 <= i < us.len() implies k_same((#[trigger] us[i]).k, want[i].k) by {
        if i > 0 { assert(us[i] == ur[i - 1]); assert(want[i] == wr[i - 1]); assert(k_same(ur[i - 1].k, wr[i - 1].k)); }
    }
}
/// A comment or newline put between the tokens of a text is one more token there, and the others stay.
proof fn law_insert(s: Seq<char>, n: int, x: Seq<char>, tok: TokV, f: Seq<char>, l: int, c: int, l2: int, c2: int)
    requires between(s, n), x.len() > 0, x[0] == ';' || x[0] == '\n', lex1(x + s.skip(n)) == (x.len() as int, tok.k), idle(tok.k), x[0] == '\n' || !ends_comment(s, n)
    ensures 0 <= before(s, n) <= tokens(s, f, l, c).len(), ts_same(tokens(put(s, n, x), f, l2, c2), tokens(s, f, l, c).insert(before(s, n), tok))
    decreases s.len()
{
    hide(lex1);
    let p = |c: char| is_ws(c);
    let u = put(s, n, x);
    let w = run(s, p) as int;
    lemma_run(s, p);
    law_between(s, n);
    let ts = tokens(s, f, l, c);
    let us = tokens(u, f, l2, c2);
    if n <= w {
        assert forall|i: int| 0 <= i < n implies p(#[trigger] u[i]) by { assert(u[i] == s[i]); assert(p(s[i])); }
        assert(u[n] == x[0]);
        lemma_run_is(u, p, n);
        let r = s.skip(n);
        let t2 = u.skip(n);
        assert(t2 =~= x + r);
        assert(t2.skip(x.len() as int) =~= r);
        let q = adv(l2, c2 + n, t2.take(x.len() as int));
        let y = tokens(r, f, q.0, q.1);
        if n > 0 {
            assert(between(r, 0));
            assert forall|i: int| 0 <= i < s.take(n).len() implies is_ws(#[trigger] s.take(n)[i]) by { assert(p(s[i])); }
            law_blanks(r, 0, s.take(n), f, q.0, q.1, l, c);
            assert(put(r, 0, s.take(n)) =~= s);
        } else { assert(r =~= s); law_tokens_anywhere(s, f, q.0, q.1, f, l, c); }
        assert(ts_same(y, ts));
        let tk = TokV { k: tok.k, loc: LocV { file: f, line: l2, col: c2 + n, len: first_line(t2.take(x.len() as int)) } };
        assert(us == seq![tk] + y);
        law_ins_here(ts, y, tk, tok);
    } else {
        let t = s.skip(w);
        let (m, k) = lex1(t);
        let j = n - w;
        assert(!p(s[w]));
        assert forall|i: int| 0 <= i < w implies p(#[trigger] u[i]) by { assert(u[i] == s[i]); assert(p(s[i])); }
        assert(u[w] == s[w]);
        lemma_run_is(u, p, w);
        let t2 = u.skip(w);
        assert(t2 =~= put(t, j, x));
        law_lex1_local(t, j, x);
        let r = t.skip(m);
        let r2 = t2.skip(m);
        assert(r2 =~= put(r, j - m, x));
        assert(r.skip(j - m) =~= s.skip(n));
        let (a, b) = (adv(l, c + w, t.take(m)), adv(l2, c2 + w, t2.take(m)));
        law_insert(r, j - m, x, tok, f, a.0, a.1, b.0, b.1);
        let (tr, ur) = (tokens(r, f, a.0, a.1), tokens(r2, f, b.0, b.1));
        let wr = tr.insert(before(r, j - m), tok);
        let t1 = TokV { k, loc: LocV { file: f, line: l, col: c + w, len: first_line(t.take(m)) } };
        let t3 = TokV { k, loc: LocV { file: f, line: l2, col: c2 + w, len: first_line(t2.take(m)) } };
        assert(ts == seq![t1] + tr);
        assert(us == seq![t3] + ur);
        law_ins_later(tr, ur, t1, t3, before(r, j - m), tok);
    }
}
/// A comment at the end of a line, or on a line of its own, changes neither acceptance nor the statements.
pub proof fn law_comment(s: Seq<char>, n: int, x: Seq<char>, tok: TokV, f: Seq<char>)
    requires between(s, n), !ends_comment(s, n), n < s.len() ==> s[n] == '\n', x.len() > 0, x[0] == ';', forall|i: int| 0 <= i < x.len() ==> (#[trigger] x[i]) != '\n',
        tok.k == K::Comment(x), place(tokens(s, f, 1, 1), before(s, n), tok)
    ensures same_meaning(tokens(s, f, 1, 1), tokens(put(s, n, x), f, 1, 1))
{
    law_between(s, n);
    let y = x + s.skip(n);
    let p = |c: char| not_nl(c);
    assert forall|i: int| 0 <= i < x.len() implies p(#[trigger] y[i]) by { assert(y[i] == x[i]); }
    if x.len() < y.len() { assert(y[x.len() as int] == s[n]); }
    lemma_run_is(y, p, x.len() as int);
    assert(y[0] == x[0]);
    assert(y.take(x.len() as int) =~= x);
    law_insert(s, n, x, tok, f, 1, 1, 1, 1);
    law_meaning(tokens(s, f, 1, 1), before(s, n), tok, tokens(put(s, n, x), f, 1, 1));
}
/// An empty line changes neither acceptance nor the statements.
pub proof fn law_newline(s: Seq<char>, n: int, tok: TokV, f: Seq<char>)
    requires between(s, n), tok.k is Nl, place(tokens(s, f, 1, 1), before(s, n), tok)
    ensures same_meaning(tokens(s, f, 1, 1), tokens(put(s, n, seq!['\n']), f, 1, 1))
{
    law_between(s, n);
    let x = seq!['\n'];
    let y = x + s.skip(n);
    assert(y[0] == x[0]);
    law_insert(s, n, x, tok, f, 1, 1, 1, 1);
    law_meaning(tokens(s, f, 1, 1), before(s, n), tok, tokens(put(s, n, x), f, 1, 1));
}
/// Blanks change neither acceptance nor the statements.
pub proof fn law_blank_meaning(s: Seq<char>, n: int, x: Seq<char>, f: Seq<char>)
    requires between(s, n), blank(x), x.len() > 0
    ensures same_meaning(tokens(s, f, 1, 1), tokens(put(s, n, x), f, 1, 1))
{
    law_blanks(s, n, x, f, 1, 1, 1, 1);
    law_stmts_same(tokens(s, f, 1, 1), tokens(put(s, n, x), f, 1, 1), Seq::empty(), Seq::empty());
    match g_stmts(tokens(s, f, 1, 1), Seq::empty()) { GR::Ok(a) => { law_asm_same(a, g_stmts(tokens(put(s, n, x), f, 1, 1), Seq::empty())->Ok_0); } GR::Err(_) => {} }
}
/// Both are rejected by the parser, or both are accepted and assemble to the same image, or to none.
pub open spec fn same_meaning(a: Seq<TokV>, b: Seq<TokV>) -> bool {
    match (g_stmts(a, Seq::empty()), g_stmts(b, Seq::empty())) {
        (GR::Ok(m), GR::Ok(n)) => asm_ok(m) == asm_ok(n) && (asm_ok(m) ==> asm_image(m) == asm_image(n)),
        (GR::Err(_), GR::Err(_)) => true,
        _ => false,
    }
}
proof fn law_meaning(us: Seq<TokV>, p: int, c: TokV, vs: Seq<TokV>)
    requires place(us, p, c), ts_same(vs, us.insert(p, c))
    ensures same_meaning(us, vs)
{
    let e = Seq::<NodeV>::empty();
    law_idle(us, p, c, e);
    law_stmts_same(vs, us.insert(p, c), e, e);
    match g_stmts(vs, e) { GR::Ok(m) => { law_asm_same(m, g_stmts(us.insert(p, c), e)->Ok_0); } GR::Err(_) => {} }
}

} // verus!
}
