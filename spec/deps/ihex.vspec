//@module ihex_dep
pub open spec fn ints(s: Seq<u8>) -> Seq<int> { s.map_values(|x: u8| x as int) }
pub open spec fn fields(t: int, a: int, d: Seq<u8>) -> Seq<int> { seq![d.len() as int, a / 256, a % 256, t] + ints(d) }
pub open spec fn line(t: int, a: int, d: Seq<u8>) -> Seq<char> { seq![':'] + hexs(fields(t, a, d).push(crate::spec::checksum(fields(t, a, d)))) }
pub open spec fn fine(r: RecV) -> bool { r is Data ==> r->Data_1.len() <= 255 }
pub proof fn lemma_sum_step(s: Seq<u8>, k: int)
    requires 0 <= k < s.len()
    ensures sum(ints(s.take(k + 1))) == sum(ints(s.take(k))) + s[k] as int, sum(ints(s.take(0))) == 0
{
    assert(ints(s.take(k + 1)).drop_last() =~= ints(s.take(k)));
    assert(ints(s.take(0)) =~= Seq::<int>::empty());
}
pub proof fn lemma_hexs_step(s: Seq<u8>, k: int)
    requires 0 <= k < s.len()
    ensures hexs(ints(s.take(k + 1))) == hexs(ints(s.take(k))) + hex2(s[k] as int)
{ assert(ints(s.take(k + 1)).drop_last() =~= ints(s.take(k))); }
/// `{:02X}` of a byte
pub proof fn lemma_xpad(b: u8)
    ensures xpad(xdigits(b as nat, true), 2) == hex2(b as int)
{
    reveal_with_fuel(xdigits, 3);
    if b < 16 {
        assert(xdigits(b as nat, true) =~= seq![xdigit(b as nat, true)]);
        assert(xpad(xdigits(b as nat, true), 2) =~= hex2(b as int));
    } else {
        assert((b as nat / 16) < 16);
        assert(xdigits(b as nat, true) =~= hex2(b as int));
    }
}
/// How many of the records are end-of-file records.
pub open spec fn eofs(rs: Seq<RecV>) -> int decreases rs.len() { if rs.len() == 0 { 0 } else { eofs(rs.drop_last()) + (if rs.last() is Eof { 1int } else { 0 }) } }
pub proof fn lemma_eofs(rs: Seq<RecV>)
    requires rs.len() > 0, rs.last() is Eof
    ensures eofs(rs) >= 1, (eofs(rs) == 1) <==> (forall|i: int| 0 <= i < rs.len() ==> ((#[trigger] rs[i] is Eof) <==> i == rs.len() - 1))
{
    let d = rs.drop_last();
    lemma_eofs0(d);
    assert(forall|i: int| 0 <= i < d.len() ==> d[i] == rs[i]);
    if eofs(rs) == 1 {
        assert forall|i: int| 0 <= i < rs.len() implies ((#[trigger] rs[i] is Eof) <==> i == rs.len() - 1) by { if i < rs.len() - 1 { assert(d[i] == rs[i]); } }
    } else {
        let k = choose|k: int| 0 <= k < d.len() && (#[trigger] d[k] is Eof);
        assert(rs[k] is Eof);
    }
}
pub proof fn lemma_eofs0(rs: Seq<RecV>)
    ensures 0 <= eofs(rs) <= rs.len(), (eofs(rs) == 0) <==> (forall|i: int| 0 <= i < rs.len() ==> !(#[trigger] rs[i] is Eof))
    decreases rs.len()
{
    if rs.len() > 0 {
        let d = rs.drop_last();
        lemma_eofs0(d);
        if eofs(rs) == 0 { assert forall|i: int| 0 <= i < rs.len() implies !(#[trigger] rs[i] is Eof) by { if i < d.len() { assert(d[i] == rs[i]); } } }
        else if !(rs.last() is Eof) { let k = choose|k: int| 0 <= k < d.len() && (#[trigger] d[k] is Eof); assert(rs[k] is Eof); }
        else { assert(rs[rs.len() - 1] is Eof); }
    }
}
pub proof fn lemma_eofs_step(rs: Seq<RecV>, k: int)
    requires 0 <= k < rs.len()
    ensures eofs(rs.take(k + 1)) == eofs(rs.take(k)) + (if rs[k] is Eof { 1int } else { 0 })
{ assert(rs.take(k + 1).drop_last() =~= rs.take(k)); }
pub open spec fn lines(rs: Seq<RecV>) -> Seq<Seq<char>> { rs.map_values(|r: RecV| rec_line(r)) }
/// The lines, joined and ended by line feeds, are the text of the file.
pub proof fn lemma_join(rs: Seq<RecV>)
    requires rs.len() > 0
    ensures joined(lines(rs), seq!['\n']) + seq!['\n'] == hex_text(rs)
    decreases rs.len()
{
    if rs.len() == 1 {
        assert(hex_text(rs.drop_last()) =~= Seq::<char>::empty());
        assert(joined(lines(rs), seq!['\n']) + seq!['\n'] =~= hex_text(rs));
    } else {
        lemma_join(rs.drop_last());
        assert(lines(rs).drop_last() =~= lines(rs.drop_last()));
        assert(joined(lines(rs), seq!['\n']) + seq!['\n'] =~= hex_text(rs));
    }
}
pub open spec fn made(r: Record, t: Seq<char>) -> bool { fine(r.v()) && (!(r.v() is Other) ==> t == rec_line(r.v())) }

//@fn ihex_dep::checksum
//@params data
    ensures r == crate::spec::checksum(ints(data@))
//@loop 0
invariant
    refs_of($seq, data@), $acc == sum(ints(data@.take($pos))) % 256,
//@at beforeloop 0
proof { assert(ints(data@.take(0)) =~= Seq::<int>::empty()); }
//@at loopend 0
proof { lemma_sum_step(data@, $pos - 1); }
//@at afterloop 0
proof { assert(data@.take(data@.len() as int) =~= data@); }
//@endfn

//@fn ihex_dep::Record::record_type
    ensures self.v() is Data ==> r == 0, self.v() is Eof ==> r == 1
//@endfn

//@fn ihex_dep::format_record
//@params record_type,address,data
//@lets data_region,result
    ensures r is Ok <==> data@.len() <= 255, r is Ok ==> r->Ok_0@ == line(record_type as int, address as int, data@)
//@at entry
proof { broadcast use group_bits; }
//@loop 0
invariant
    refs_of($seq, data_region@), ints(data_region@) == fields(record_type as int, address as int, data@).push(crate::spec::checksum(fields(record_type as int, address as int, data@))),
    result@ == seq![':'] + hexs(ints(data_region@.take($pos))), data@.len() <= 255,
//@at beforeloop 0
proof {
    assert(ints(data_region@.take(0)) =~= Seq::<int>::empty());
    assert(result@ =~= seq![':'] + hexs(ints(data_region@.take(0))));
    assert(ints(data_region@) =~= fields(record_type as int, address as int, data@).push(crate::spec::checksum(fields(record_type as int, address as int, data@)))) by {
        assert forall|s: Seq<u8>, x: u8| #[trigger] s.push(x).drop_last() == s by { assert(s.push(x).drop_last() =~= s); }
        assert(data_region@.drop_last().len() == 4 + data@.len());
        assert(data_region@.drop_last().skip(4) =~= data@);
        assert(data_region@[0] == data@.len() as u8);
        assert(data_region@[3] == record_type);
        assert(data_region@[2] == (address % 256) as u8);
        assert(data_region@[1] == (address / 256) as u8);
        assert(data_region@.drop_last().take(4) =~= seq![data@.len() as u8, (address / 256) as u8, (address % 256) as u8, record_type]);
        assert(ints(data_region@.drop_last()) =~= fields(record_type as int, address as int, data@));
        assert(data_region@.last() == crate::spec::checksum(ints(data_region@.drop_last())));
    }
}
//@at loopend 0
proof { lemma_hexs_step(data_region@, $pos - 1); lemma_xpad(data_region@[$pos - 1]); assert(result@ =~= seq![':'] + hexs(ints(data_region@.take($pos)))); }
//@at afterloop 0
proof { assert(data_region@.take(data_region@.len() as int) =~= data_region@); }
//@endfn

//@fn ihex_dep::Record::to_string
    ensures r is Ok <==> fine(self.v()), r is Ok ==> made(*self, r->Ok_0@)
//@at entry
proof { broadcast use group_bits; assert(ints(Seq::<u8>::empty()) =~= Seq::<int>::empty()); assert(fields(1, 0, Seq::<u8>::empty()) =~= seq![0int, 0, 0, 1]); }
//@endfn

//@fn ihex_dep::create_object_file_representation
//@attr #[verifier::allow_complex_invariants]
//@params records
    ensures
        r is Ok <==> (records@.len() > 0 && (forall|i: int| 0 <= i < records@.len() ==> ((#[trigger] recs_v(records@)[i] is Eof) <==> i == records@.len() - 1))
            && (forall|i: int| 0 <= i < records@.len() ==> ((#[trigger] recs_v(records@)[i]) is Data ==> recs_v(records@)[i]->Data_1.len() <= 255))),
        r is Ok && (forall|i: int| 0 <= i < records@.len() ==> !((#[trigger] recs_v(records@)[i]) is Other)) ==> r->Ok_0@ + seq!['\n'] == hex_text(recs_v(records@)),
//@at entry
proof { assert(records@.len() > 0 ==> recs_v(records@)[records@.len() - 1] == records@.last().v()); assert(recs_v(records@).len() == records@.len()); }
//@loop 0
invariant
    refs_of($seq, records@), $acc == eofs(recs_v(records@).take($pos)), $acc <= $pos, records@.len() > 0, records@.last().v() is Eof,
//@at loopstart 0
proof { lemma_eofs_step(recs_v(records@), $pos); assert(recs_v(records@)[$pos] == records@[$pos].v()); }
//@at afterloop 0
proof { assert(recs_v(records@).take(records@.len() as int) =~= recs_v(records@)); lemma_eofs(recs_v(records@)); }
//@loop 1
invariant_except_break
    __bad_$id is None,
invariant
    refs_of($seq, records@), $acc@.len() <= $pos, __bad_$id is None ==> $acc@.len() == $pos, forall|i: int| 0 <= i < $acc@.len() ==> made(records@[i], #[trigger] $acc@[i]@),
ensures
    __bad_$id is None ==> $it.rem().len() == 0,
    __bad_$id is Some ==> $acc@.len() < records@.len() && !fine(recs_v(records@)[$acc@.len() as int]),
//@at loopstart 1
proof { assert(recs_v(records@)[$pos] == records@[$pos].v()); }
//@at afterloop 1
proof {
    if __bad_$id is None {
        assert forall|i: int| 0 <= i < records@.len() implies fine(#[trigger] recs_v(records@)[i]) by { assert(made(records@[i], $acc@[i]@)); }
        if forall|i: int| 0 <= i < records@.len() ==> !((#[trigger] recs_v(records@)[i]) is Other) {
            assert(texts($acc@) =~= lines(recs_v(records@))) by {
                assert forall|i: int| 0 <= i < records@.len() implies #[trigger] texts($acc@)[i] == lines(recs_v(records@))[i] by { assert(made(records@[i], $acc@[i]@)); assert(!(recs_v(records@)[i] is Other)); }
            }
            lemma_join(recs_v(records@));
            assert("\n"@ =~= seq!['\n']);
        }
    }
}
//@endfn
