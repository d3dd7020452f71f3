//@module data_range
impl DataRange {
    pub open spec fn v(&self) -> RangeV { RangeV { start: self.start_address@, data: self.data@ } }
}
pub open spec fn ranges_v(a: Seq<DataRange>) -> Seq<RangeV> { a.map_values(|l: DataRange| l.v()) }
/// Both ranges of a reported pair can be printed.
pub trait VPair { spec fn pair(&self) -> bool; }
impl<'b> VPair for (&'b DataRange, &'b DataRange) { open spec fn pair(&self) -> bool { pair_fine(*self) } }
impl<'b, T: VPair> VPair for &'b T { open spec fn pair(&self) -> bool { (*self).pair() } }
pub open spec fn pair_ok<T: VPair>(p: T) -> bool { p.pair() }
pub open spec fn pair_fine(p: (&DataRange, &DataRange)) -> bool { range_ok(p.0.v()) && p.0.v().data.len() > 0 && range_ok(p.1.v()) && p.1.v().data.len() > 0 }
//@fn data_range::DataRange::new
//@props C06,C08
//@params start_address
    ensures r.v() == (RangeV { start: start_address@, data: Seq::empty() }),
//@at tail
    proof { assert(__ret.v().data =~= Seq::empty()); }
//@fn data_range::DataRange::len
//@props C06
    ensures r == self.v().data.len(),
//@fn data_range::DataRange::data
//@props C09
    ensures r@ == self.v().data,
//@fn data_range::DataRange::address_range
//@props C07,C09,C13
    requires range_ok(self.v()),
    ensures /*@C07,C09*/ r.start@ == self.v().start, r.end@ == self.v().start + self.v().data.len(),
//@at entry
    proof { broadcast use group_u12; }
//@fn data_range::DataRange::bytes_remaining
//@props C08,C13
    requires self.v().start + self.v().data.len() <= 4096,
    ensures /*@C08*/ r == 4096 - self.v().start - self.v().data.len(),
//@at entry
    proof { broadcast use group_u12; }
//@fn data_range::DataRange::append
//@props C06,C08,C13
//@params data
    requires old(self).v().start + old(self).v().data.len() <= 4096,
    ensures
        /*@C08*/ r == (old(self).v().start + old(self).v().data.len() + data@.len() <= 4096),
        /*@C06*/ final(self).v() == (if r { RangeV { start: old(self).v().start, data: old(self).v().data + data@ } } else { old(self).v() }),
//@at entry
    proof { broadcast use group_u12; }
//@fn data_range::DataRange::intersects
//@props C07,C13
//@params range
    requires range_ok(self.v()), range_ok(range.v()),
    ensures /*@C07*/ r == meet(self.v(), range.v()),
//@at entry
    proof {
        broadcast use group_u12;
        let m = if self.v().start > range.v().start { self.v().start } else { range.v().start };
        if covers(self.v(), m) && covers(range.v(), m) { assert(meet(self.v(), range.v())); }
    }
//@fn data_range::find_overlapping_ranges
//@props C07,C13
//@params ranges
//@lets overlapping_ranges
    requires ranges_ok(ranges_v(ranges@)),
    ensures /*@C07*/ r@.len() > 0 <==> clash(ranges_v(ranges@)),
        forall|k: int| 0 <= k < r@.len() ==> pair_ok(#[trigger] r@[k]),
//@loop 0
    invariant
        ranges_ok(ranges_v(ranges@)),
        $it.b == ranges@.len(), $it.a == $pos, $seq.len() == ranges@.len(),
        forall|k: int| 0 <= k < overlapping_ranges@.len() ==> pair_ok(#[trigger] overlapping_ranges@[k]),
        overlapping_ranges@.len() > 0 <==> (exists|p: int, q: int| 0 <= p < $pos && p < q < ranges@.len() && meet(ranges_v(ranges@)[p], ranges_v(ranges@)[q])),
//@loop 1
    invariant
        ranges_ok(ranges_v(ranges@)), i < ranges@.len(),
        $it.b == ranges@.len(), $it.a == i + 1 + $pos, $seq.len() == ranges@.len() - i - 1,
        forall|k: int| 0 <= k < overlapping_ranges@.len() ==> pair_ok(#[trigger] overlapping_ranges@[k]),
        overlapping_ranges@.len() > 0 <==> (exists|p: int, q: int| 0 <= p <= i && p < q < ranges@.len() && (p < i || q < i + 1 + $pos) && meet(ranges_v(ranges@)[p], ranges_v(ranges@)[q])),
//@at loopstart 1
    proof {
        let a = ranges_v(ranges@)[i as int]; let b = ranges_v(ranges@)[i + 1 + $pos];
        assert(range_ok(a) && range_ok(b));
        assert(meet(a, b) == meet(b, a)) by {
            if meet(a, b) { let x = choose|x: int| covers(a, x) && covers(b, x); assert(covers(b, x) && covers(a, x)); }
            if meet(b, a) { let x = choose|x: int| covers(b, x) && covers(a, x); assert(covers(a, x) && covers(b, x)); }
        }
        assert(a == ranges@[i as int].v() && b == ranges@[i + 1 + $pos].v());
    }
//@endfn
