// C11: creating a record; /repo/src/testing/database.rs
use vstd::prelude::*;
use vstd::std_specs::iter::IteratorSpec;
use std::collections::HashMap;
verus! {
//@ include db_core.vi

/// b's occurrences after a record with index n was created in table t of a
pub open spec fn got_record(o0: TableOccurrence, o1: TableOccurrence, t: u16, n: int) -> bool {
    if o0.table_ptr == t {
        &&& o1.found_set@.len() == o0.found_set@.len() + 1
        &&& o1.found_set@.drop_last() == o0.found_set@
        &&& o1.found_set@.last() == n
        &&& o1.record_ptr == o1.found_set@.len() - 1
        &&& o1.table_ptr == o0.table_ptr && o1.related_records == o0.related_records
    } else { o1 == o0 }
}
/// t1 is t0 with one empty value more in every field
pub open spec fn blank_added(t0: Table, t1: Table) -> bool {
    &&& t1.name == t0.name
    &&& t1.fields@.len() == t0.fields@.len()
    &&& forall|i: int| 0 <= i < t0.fields@.len() ==> {
            &&& (#[trigger] t1.fields@[i]).name == t0.fields@[i].name
            &&& t1.fields@[i].records@.len() == t0.fields@[i].records@.len() + 1
            &&& t1.fields@[i].records@.last()@ == Seq::<char>::empty()
            &&& t1.fields@[i].records@.drop_last() == t0.fields@[i].records@
        }
}

impl Database {
/*@ fn testing/database.rs Database::create_record
contract
    requires db_wf(*old(self)), cur_table(*old(self)).fields@.len() > 0, nrec(cur_table(*old(self))) < usize::MAX,
             forall|i: int| 0 <= i < old(self).table_occurrences@.len() ==> (#[trigger] old(self).table_occurrences@[i]).found_set@.len() < usize::MAX,
    ensures db_wf(*final(self)), same_shape(*old(self), *final(self)),
            blank_added(cur_table(*old(self)), cur_table(*final(self))),
            forall|i: int| 0 <= i < old(self).tables@.len() && i != cur(*old(self)).table_ptr ==> #[trigger] final(self).tables@[i] == old(self).tables@[i],
            forall|i: int| 0 <= i < old(self).table_occurrences@.len() ==>
                got_record(old(self).table_occurrences@[i], #[trigger] final(self).table_occurrences@[i], cur(*old(self)).table_ptr, nrec(cur_table(*old(self))) as int),
            cur(*final(self)).found_set@[cur(*final(self)).record_ptr as int] == nrec(cur_table(*old(self))),
loop 0 iter it
    invariant
        it.seq().len() == o0.len(),
        n == n0, table_idx == t0,
        forall|i: int| 0 <= i < o0.len() ==> (#[trigger] o0[i]).found_set@.len() < usize::MAX,
        forall|i: int| 0 <= i < o0.len() ==> *(#[trigger] it.seq()[i]) == o0[i],
        forall|i: int| 0 <= i < it.index@ ==> got_record(o0[i], *final(#[trigger] it.seq()[i]), t0, n0),
at start
    let ghost d0 = *self;
    let ghost o0 = self.table_occurrences@;
    let ghost t0 = cur(*self).table_ptr;
    let ghost n0 = nrec(cur_table(*self)) as int;
    proof { assert(rect(self.tables@[cur(*self).table_ptr as int], n0 as nat)); assert(occ_ok(*self, cur(*self))); }
at end
    proof {
        let o1 = self.table_occurrences@;
        assert forall|i: int| 0 <= i < self.tables@.len() implies rect(#[trigger] self.tables@[i], nrec(self.tables@[i])) by {
            assert(rect(d0.tables@[i], nrec(d0.tables@[i])));
            if i == t0 { assert forall|j: int| 0 <= j < self.tables@[i].fields@.len() implies (#[trigger] self.tables@[i].fields@[j]).records@.len() == n0 + 1 by { assert(d0.tables@[i].fields@[j].records@.len() == n0); } }
        }
        assert forall|i: int| 0 <= i < o1.len() implies occ_ok(*self, #[trigger] o1[i]) by {
            assert(occ_ok(d0, o0[i]));
            assert(got_record(o0[i], o1[i], t0, n0));
            if o0[i].table_ptr == t0 {
                let f0 = o0[i].found_set@; let f1 = o1[i].found_set@;
                assert(f1 =~= f0.push(n0 as usize));
            }
        }
    }
at loop 0 end
    assert(o0[it.index@ as int].table_ptr == t0 ==> final(it.seq()[it.index@ as int]).found_set@.drop_last() =~= o0[it.index@ as int].found_set@);
@*/
}
fn main() {}
}
