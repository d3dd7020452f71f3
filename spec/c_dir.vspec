//@module directive
use crate::assembler::parser::*;
impl Directive {
    pub open spec fn v(&self) -> DirV { match *self { Directive::Org(a) => DirV::Org(a@), Directive::Db(d) => DirV::Db(d@), Directive::Equ(a) => DirV::Equ(a@) } }
}
pub proof fn lemma_lits_step(a: Seq<LitV>, k: int)
    requires 0 <= k < a.len()
    ensures lits_bytes(a.take(k + 1)) == lits_bytes(a.take(k)) + lit_bytes(a[k])
{
    assert(a.take(k + 1).drop_last() =~= a.take(k));
    assert(a.take(k + 1).last() == a[k]);
}
//@fn directive::Directive::from_identifier_and_parameters
//@props C11,C12,C13
//@params input_identifier,arguments
//@lets bytes
    requires is_ascii(input_identifier@), lits_ok(lits_v(arguments@)),
    ensures
        /*@C11,C12*/ match dir_of(input_identifier@, lits_v(arguments@)) {
            Some(d) => r is Ok && r->Ok_0.v() == d,
            None => r is Err,
        },
//@loop 0
    invariant
        refs_of($seq, arguments@),
        lits_ok(lits_v(arguments@)),
        forall|i: int| 0 <= i < $pos ==> byte_ok(#[trigger] lits_v(arguments@)[i]),
        bytes@ =~= lits_bytes(lits_v(arguments@).take($pos)),
//@at entry
    proof {
        broadcast use group_u12, group_str;
        assert forall|i: int| 0 <= i < arguments@.len() implies lits_v(arguments@)[i] == (#[trigger] arguments@[i]).v() by { }
        assert(lits_v(arguments@).take(0) =~= Seq::empty());
        assert(lits_v(arguments@).take(arguments@.len() as int) =~= lits_v(arguments@));
        reveal_strlit("org"); reveal_strlit("db"); reveal_strlit("equ");
        assert("org"@ =~= seq!['o', 'r', 'g']); assert("equ"@ =~= seq!['e', 'q', 'u']); assert("db"@ =~= seq!['d', 'b']);
        assert(lower("org"@) =~= "org"@); assert(lower("equ"@) =~= "equ"@); assert(lower("db"@) =~= "db"@);
        assert forall|v: usize| v <= 255 implies #[trigger] (v & 0x00FF) == v by { assert((v & 0x00FF) == v) by (bit_vector) requires v <= 255; }
    }
//@at loopstart 0
    proof { lemma_lits_step(lits_v(arguments@), $pos); assert(lits_v(arguments@)[$pos] == arguments@[$pos].v()); }
//@fn directive::Directive::size
//@props C06,C08
    ensures /*@C06,C08*/ r == (match self.v() { DirV::Db(b) => b.len(), _ => 0 }),
//@fn directive::Directive::into_vec
//@props C06,C11
    ensures /*@C06,C11*/ r@ == (match self.v() { DirV::Db(b) => b, _ => Seq::empty() }),
//@endfn
