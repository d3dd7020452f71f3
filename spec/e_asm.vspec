//@module assembler
use crate::assembler::parser::*;
use crate::assembler::data_range::*;
use crate::assembler::instruction::ints;
use crate::assembler::opcode::*;
impl<'a> SemanticError<'a> {
    /// The location the diagnostic names.
    pub open spec fn loc(&self) -> LocV {
        match *self {
            SemanticError::DirectiveInvalid(l, _) => l.v(),
            SemanticError::DirectiveTooLarge(l, _) => l.v(),
            SemanticError::DirectiveWouldOverflow(l, _) => l.v(),
            SemanticError::InstructionWouldOverlow(l) => l.v(),
            SemanticError::RedefinitionOfLabel(l, _) => l.v(),
            SemanticError::AssemblyFailed(l, _) => l.v(),
            SemanticError::ConstantWithoutLabel(l) => l.v(),
        }
    }
}
/// A name is in the label map when a label defines it.
pub proof fn lemma_label_dom(ns: Seq<NodeV>, n: int, name: Seq<char>)
    requires 0 <= n <= ns.len()
    ensures label_map(ns, n).dom().contains(name) <==> defined_before(ns, n, name)
    decreases n
{
    if n > 0 {
        lemma_label_dom(ns, n - 1, name);
        if defines(ns[n - 1], name) { assert(defined_before(ns, n, name)); }
        if defined_before(ns, n - 1, name) {
            let j = choose|j: int| 0 <= j < n - 1 && defines(#[trigger] ns[j], name);
            assert(defines(ns[j], name));
        }
        if defined_before(ns, n, name) && !defined_before(ns, n - 1, name) {
            let j = choose|j: int| 0 <= j < n && defines(#[trigger] ns[j], name);
            assert(j == n - 1);
        }
    }
}
pub proof fn lemma_flat_push(rs: Seq<RangeV>, r: RangeV)
    ensures flat(rs.push(r)) == flat(rs) + at(r.start, r.data)
{ assert(rs.push(r).drop_last() =~= rs); }
/// Two consecutive pieces are one.
pub proof fn lemma_at_join(a: int, x: Seq<u8>, y: Seq<u8>)
    ensures at(a, x) + at(a + x.len(), y) =~= at(a, x + y)
{ }
pub proof fn lemma_counter_range(ns: Seq<NodeV>, n: int)
    requires 0 <= n <= ns.len(), all_ok1(ns, n), nodes_wf(ns)
    ensures 0 <= counter(ns, n) <= 4095
    decreases n
{
    if n > 0 {
        lemma_counter_range(ns, n - 1);
        assert(ok1(ns, n - 1));
        assert(node_wf(ns[n - 1]));
        if ns[n - 1] is Dir && ns[n - 1]->args.len() == 1 { assert(lit_ok(ns[n - 1]->args[0])); }
    }
}
//@fn assembler::define_labels
//@props C04,C05,C08,C12,C13,C15
//@params syntax_list
//@lets label_address_map,current_address,list_walker
    requires nodes_wf(nodes_v(syntax_list@)),
    ensures
        match r {
            Ok(m) =>
                /*@C05,C08,C12*/ all_ok1(nodes_v(syntax_list@), syntax_list@.len() as int)
                && /*@C04*/ ints(m@) =~= label_map(nodes_v(syntax_list@), syntax_list@.len() as int),
            Err(e) =>
                /*@C15,C05,C08,C12*/ exists|i: int| 0 <= i < syntax_list@.len() && all_ok1(nodes_v(syntax_list@), i) && !(#[trigger] ok1(nodes_v(syntax_list@), i)) && e.loc() == nodes_v(syntax_list@)[i].loc(),
        },
//@at entry
    let ghost n = nodes_v(syntax_list@);
    proof { broadcast use group_u12; }
//@loop 0
    invariant
        n == nodes_v(syntax_list@), nodes_wf(n),
        list_walker.rem().len() <= n.len(),
        refs_of(list_walker.rem(), syntax_list@.skip(n.len() - list_walker.rem().len())),
        all_ok1(n, n.len() - list_walker.rem().len()),
        ints(label_address_map@) =~= label_map(n, n.len() - list_walker.rem().len()),
        current_address@ == counter(n, n.len() - list_walker.rem().len()),
        list_walker.rem().len() == n.len() || list_walker.rem().len() == 0 || !(n[n.len() - list_walker.rem().len() - 1] is Label) || as_equ(n[n.len() - list_walker.rem().len()]) is None,
    decreases list_walker.rem().len(),
//@at loopstart 0
    proof {
        broadcast use group_u12;
        let p = n.len() - list_walker.rem().len();
        if p < n.len() {
            assert(*list_walker.rem()[0] == syntax_list@[p]);
            assert(n[p] == syntax_list@[p].v());
            assert(node_wf(n[p]));
            let okp = ok1(n, p);
            assert(okp == ok1(n, p));
            assert(counter(n, p + 1) == step(n[p], counter(n, p)));
            lemma_counter_range(n, p);
            if n[p] is Label { lemma_label_dom(n, p, n[p]->Label_name); }
            assert(!(n[p] is Label) ==> label_map(n, p + 1) == label_map(n, p));
            assert(n[p] is Label ==> label_map(n, p + 1) == label_map(n, p).insert(n[p]->Label_name, label_value(n, p)));
            if p + 1 < n.len() {
                assert(!(n[p + 1] is Label) ==> label_map(n, p + 2) == label_map(n, p + 1));
                assert(*list_walker.rem()[1] == syntax_list@[p + 1]);
                assert(n[p + 1] == syntax_list@[p + 1].v());
                assert(node_wf(n[p + 1]));
                assert(counter(n, p + 2) == step(n[p + 1], counter(n, p + 1)));
            }
        }
    }
//@fn assembler::emit_data_ranges
//@props C01,C04,C05,C06,C08,C11,C13,C15
//@params syntax_list,label_address_map
//@lets data_ranges,current_range
    requires
        nodes_wf(nodes_v(syntax_list@)),
        all_ok1(nodes_v(syntax_list@), syntax_list@.len() as int),
    ensures
        match r {
            Ok(rs) =>
                /*@C01,C02,C03,C05*/ all_enc(nodes_v(syntax_list@), ints(label_address_map@), syntax_list@.len() as int)
                && /*@C06,C08,C11,C01,C04*/ flat(ranges_v(rs@)) =~= placed(nodes_v(syntax_list@), ints(label_address_map@), syntax_list@.len() as int)
                && /*@C08*/ ranges_ok(ranges_v(rs@)),
            Err(e) =>
                /*@C15,C05,C02,C03*/ exists|i: int| 0 <= i < syntax_list@.len() && all_enc(nodes_v(syntax_list@), ints(label_address_map@), i) && bytes_of(#[trigger] nodes_v(syntax_list@)[i], ints(label_address_map@)) is None && e.loc() == nodes_v(syntax_list@)[i].loc(),
        },
//@at entry
    let ghost n = nodes_v(syntax_list@);
    let ghost lm = ints(label_address_map@);
    proof { broadcast use group_u12; }
//@loop 0
    invariant
        n == nodes_v($seq), n.len() == $seq.len(), nodes_wf(n), lm == ints(label_address_map@),
        all_ok1(n, n.len() as int),
        all_enc(n, lm, $pos),
        flat(ranges_v(data_ranges@)) + at(current_range.v().start, current_range.v().data) =~= placed(n, lm, $pos),
        current_range.v().start + current_range.v().data.len() == counter(n, $pos),
        0 <= counter(n, $pos) <= 4095,
        ranges_ok(ranges_v(data_ranges@)),
//@at loopstart 0
    proof {
        broadcast use group_u12;
        let p = $pos;
        assert(n[p] == $seq[p].v());
        assert(node_wf(n[p]));
        assert(ok1(n, p));
        lemma_counter_range(n, p + 1);
        assert(counter(n, p + 1) == step(n[p], counter(n, p)));
        assert(placed(n, lm, p + 1) == placed(n, lm, p) + at(counter(n, p), bytes_of(n[p], lm)->Some_0));
        if bytes_of(n[p], lm) is Some { lemma_at_join(current_range.v().start, current_range.v().data, bytes_of(n[p], lm)->Some_0); }
        lemma_flat_push(ranges_v(data_ranges@), current_range.v());
        assert(ranges_v(data_ranges@.push(current_range)) =~= ranges_v(data_ranges@).push(current_range.v()));
    }
//@at afterloop 0
    proof {
        lemma_flat_push(ranges_v(data_ranges@), current_range.v());
        assert(ranges_v(data_ranges@.push(current_range)) =~= ranges_v(data_ranges@).push(current_range.v()));
    }
//@fn assembler::assemble
//@props C01,C04,C05,C06,C08,C13,C15
//@params syntax_list
    requires nodes_wf(nodes_v(syntax_list@)),
    ensures
        match r {
            Ok(rs) => /*@C01,C02,C03,C05,C08,C12*/ asm_ok(nodes_v(syntax_list@)) && /*@C01,C04,C06,C08,C11*/ flat(ranges_v(rs@)) =~= asm_image(nodes_v(syntax_list@)) && /*@C08*/ ranges_ok(ranges_v(rs@)),
            Err(e) => /*@C01,C05,C08,C12*/ !asm_ok(nodes_v(syntax_list@)) && /*@C15*/ asm_fault(nodes_v(syntax_list@), e.loc()),
        },
//@endfn
