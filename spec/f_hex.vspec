//@module ihex_writer
use crate::assembler::data_range::*;
pub open spec fn all_rec_ok(rs: Seq<RecV>) -> bool { forall|i: int| 0 <= i < rs.len() ==> rec_ok(#[trigger] rs[i]) }
pub proof fn lemma_recs_push(rs: Seq<RecV>, a: int, d: Seq<u8>)
    ensures recs_flat(rs.push(RecV::Data(a, d))) == recs_flat(rs) + at(a, d)
{ assert(rs.push(RecV::Data(a, d)).drop_last() =~= rs); }
pub proof fn lemma_recs_concat(x: Seq<RecV>, y: Seq<RecV>)
    ensures recs_flat(x + y) =~= recs_flat(x) + recs_flat(y)
    decreases y.len()
{
    if y.len() == 0 { assert(x + y =~= x); }
    else {
        lemma_recs_concat(x, y.drop_last());
        assert((x + y).drop_last() =~= x + y.drop_last());
        assert((x + y).last() == y.last());
    }
}
pub proof fn lemma_recs_eof(rs: Seq<RecV>)
    ensures recs_flat(rs.push(RecV::Eof)) =~= recs_flat(rs)
{ assert(rs.push(RecV::Eof).drop_last() =~= rs); }
pub open spec fn min16(i: int, n: int) -> int { if i * 16 <= n { i * 16 } else { n } }
pub proof fn lemma_chunk(s: Seq<u8>, i: int, a: int)
    requires 0 <= i < chunk_count(s.len() as int, 16)
    ensures
        i * 16 < s.len(), 1 <= chunk(s, 16, i).len() <= 16,
        min16(i, s.len() as int) == i * 16,
        min16(i + 1, s.len() as int) == i * 16 + chunk(s, 16, i).len(),
        at(a, s.take(min16(i, s.len() as int))) + at(a + i * 16, chunk(s, 16, i)) =~= at(a, s.take(min16(i + 1, s.len() as int))),
{ }
pub proof fn lemma_flat_step(rs: Seq<RangeV>, k: int)
    requires 0 <= k < rs.len()
    ensures flat(rs.take(k + 1)) == flat(rs.take(k)) + at(rs[k].start, rs[k].data)
{
    assert(rs.take(k + 1).drop_last() =~= rs.take(k));
    assert(rs.take(k + 1).last() == rs[k]);
}
//@fn ihex_writer::ihex_representation_of_data_ranges
//@props C09,C13
//@params ranges
//@lets records,record_address
    requires ranges_ok(ranges_v(ranges@)), !clash(ranges_v(ranges@)),
    ensures /*@C09*/ exists|recs: Seq<RecV>| r@ == #[trigger] hex_text(recs) && hex_ok(recs) && recs_flat(recs) =~= flat(ranges_v(ranges@)),
//@at entry
    let ghost rv = ranges_v(ranges@);
    proof { broadcast use group_u12; reveal_strlit("\n"); assert(rv.take(0) =~= Seq::empty()); assert(rv.take(rv.len() as int) =~= rv); }
//@loop 0
    invariant
        rv == ranges_v(ranges@), ranges_ok(rv), refs_of($seq, ranges@),
        all_rec_ok(recs_v(records@)),
        recs_flat(recs_v(records@)) =~= flat(rv.take($pos)),
//@at loopstart 0
    let ghost rg = rv[$pos];
    let ghost recs0 = recs_v(records@);
    proof {
        broadcast use group_u12;
        assert(rg == ranges@[$pos].v());
        assert(range_ok(rg));
        lemma_flat_step(rv, $pos);
        assert forall|x: Seq<Record>, y: Seq<Record>| #[trigger] recs_v(x + y) == recs_v(x) + recs_v(y) by { assert(recs_v(x + y) =~= recs_v(x) + recs_v(y)); }
        assert forall|y: Seq<RecV>| #[trigger] recs_flat(recs0 + y) == recs_flat(recs0) + recs_flat(y) by { lemma_recs_concat(recs0, y); }
        assert(rg.data.take(0) =~= Seq::empty());
        assert(rg.data.take(rg.data.len() as int) =~= rg.data);
        assert(at(rg.start, Seq::empty()) =~= Seq::empty());
    }
//@loop 1
    invariant
        $seq.len() == chunk_count(rg.data.len() as int, 16),
        forall|i: int| 0 <= i < $seq.len() ==> (#[trigger] $seq[i])@ == chunk(rg.data, 16, i),
        all_rec_ok(recs_v($acc@)),
        record_address == rg.start + min16($pos, rg.data.len() as int),
        recs_flat(recs_v($acc@)) =~= at(rg.start, rg.data.take(min16($pos, rg.data.len() as int))),
//@at loopstart 1
    proof {
        broadcast use group_u12;
        lemma_chunk(rg.data, $pos, rg.start);
        lemma_recs_push(recs_v($acc@), record_address as int, chunk(rg.data, 16, $pos));
        assert forall|x: Seq<Record>, y: Record| #[trigger] recs_v(x.push(y)) == recs_v(x).push(y.v()) by { assert(recs_v(x.push(y)) =~= recs_v(x).push(y.v())); }
    }
//@at afterloop 0
    proof {
        lemma_recs_eof(recs_v(records@));
        assert forall|x: Seq<Record>, y: Record| #[trigger] recs_v(x.push(y)) == recs_v(x).push(y.v()) by { assert(recs_v(x.push(y)) =~= recs_v(x).push(y.v())); }
    }
//@endfn
