// C13: found sets; /repo/src/testing/database.rs
use vstd::prelude::*;
use vstd::std_specs::iter::IteratorSpec;
use std::collections::HashMap;
verus! {
//@ include db_core.vi

/// only the current occurrence's found set and position differ
pub open spec fn only_found_set(a: Database, b: Database) -> bool {
    &&& same_shape(a, b)
    &&& b.tables == a.tables
    &&& forall|i: int| 0 <= i < a.table_occurrences@.len() && i != a.occurrence_handle ==> #[trigger] b.table_occurrences@[i] == a.table_occurrences@[i]
    &&& cur(b).table_ptr == cur(a).table_ptr
    &&& cur(b).related_records == cur(a).related_records
}
/// all records of the current table, in order
pub open spec fn all_records(d: Database) -> bool {
    &&& cur(d).found_set@.len() == nrec(cur_table(d))
    &&& forall|k: int| 0 <= k < cur(d).found_set@.len() ==> #[trigger] cur(d).found_set@[k] == k
}

/// a list of different numbers below n has at most n of them
pub proof fn lemma_few(s: Seq<usize>, n: nat)
    requires s.no_duplicates(), forall|k: int| 0 <= k < s.len() ==> #[trigger] s[k] < n,
    ensures s.len() <= n,
{
    let m = s.map_values(|x: usize| x as int);
    assert(m.no_duplicates());
    m.unique_seq_to_set();
    assert(m.to_set().subset_of(vstd::set_lib::set_int_range(0, n as int)));
    vstd::set_lib::lemma_int_range(0, n as int);
    vstd::set_lib::lemma_len_subset(m.to_set(), vstd::set_lib::set_int_range(0, n as int));
}

impl Database {
/*@ fn testing/database.rs Database::reset_found_set
contract
    requires db_wf(*old(self)), cur_table(*old(self)).fields@.len() > 0,
    ensures db_wf(*final(self)), only_found_set(*old(self), *final(self)), all_records(*final(self)), cur(*final(self)).record_ptr == cur(*old(self)).record_ptr,
closure 0 ((usize, &String)) -> (r: usize) ensures r == $0.0
at start
    let ghost d0 = *self;
    proof { assert(occ_ok(*self, cur(*self))); }
at end
    proof {
        lemma_few(cur(d0).found_set@, nrec(cur_table(d0)));
        assert forall|i: int| 0 <= i < self.table_occurrences@.len() implies occ_ok(*self, #[trigger] self.table_occurrences@[i]) by { assert(occ_ok(d0, d0.table_occurrences@[i])); }
    }
@*/
/*@ fn testing/database.rs Database::update_found_set
contract
    requires db_wf(*old(self)), cur_table(*old(self)).fields@.len() > 0,
    ensures only_found_set(*old(self), *final(self)),
            records@.len() == 0 ==> all_records(*final(self)),
            records@.len() > 0 ==> cur(*final(self)).found_set@ == records@ && cur(*final(self)).record_ptr == 0,
            records@.no_duplicates() && (forall|k: int| 0 <= k < records@.len() ==> #[trigger] records@[k] < nrec(cur_table(*old(self)))) ==> db_wf(*final(self)),
at start
    let ghost d0 = *self;
    proof { assert(occ_ok(*self, cur(*self))); }
at end
    assert forall|i: int| 0 <= i < self.table_occurrences@.len() && i != self.occurrence_handle implies occ_ok(*self, #[trigger] self.table_occurrences@[i]) by { assert(occ_ok(d0, d0.table_occurrences@[i])); }
@*/
}
fn main() {}
}
