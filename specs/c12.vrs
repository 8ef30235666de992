// C12: record navigation; /repo/src/testing/database.rs
use vstd::prelude::*;
use vstd::std_specs::iter::IteratorSpec;
use std::collections::HashMap;
verus! {
//@ include db_core.vi

/// the current occurrence moved to position p; nothing else changed
pub open spec fn moved(a: Database, b: Database, p: int) -> bool {
    &&& same_shape(a, b)
    &&& b.tables == a.tables
    &&& forall|i: int| 0 <= i < a.table_occurrences@.len() && i != a.occurrence_handle ==> #[trigger] b.table_occurrences@[i] == a.table_occurrences@[i]
    &&& cur(b).found_set == cur(a).found_set
    &&& cur(b).table_ptr == cur(a).table_ptr
    &&& cur(b).related_records == cur(a).related_records
    &&& cur(b).record_ptr == p
}
pub open spec fn size(d: Database) -> int { cur(d).found_set@.len() as int }

impl Database {
/*@ fn testing/database.rs Database::goto_record
contract
    requires db_wf(*old(self)), size(*old(self)) > 0, // empty: known finding C12-EMPTY
    ensures db_wf(*final(self)),
            moved(*old(self), *final(self), if size(*old(self)) == 0 { 0 } else if record_id as int >= size(*old(self)) { size(*old(self)) - 1 } else { record_id as int }),
@*/
/*@ fn testing/database.rs Database::goto_previous_record
contract
    requires db_wf(*old(self)),
    ensures db_wf(*final(self)),
            moved(*old(self), *final(self), if cur(*old(self)).record_ptr == 0 { 0 } else { cur(*old(self)).record_ptr - 1 }),
@*/
/*@ fn testing/database.rs Database::goto_next_record
contract
    requires db_wf(*old(self)), size(*old(self)) > 0, // empty: known finding C12-EMPTY
    ensures db_wf(*final(self)),
            moved(*old(self), *final(self), if cur(*old(self)).record_ptr as int + 1 < size(*old(self)) { cur(*old(self)).record_ptr + 1 } else { cur(*old(self)).record_ptr as int }),
@*/
/*@ fn testing/database.rs Database::goto_first_record
contract
    requires db_wf(*old(self)),
    ensures db_wf(*final(self)), moved(*old(self), *final(self), 0),
@*/
/*@ fn testing/database.rs Database::goto_last_record
contract
    requires db_wf(*old(self)), size(*old(self)) > 0, // empty: known finding C12-EMPTY
    ensures db_wf(*final(self)), moved(*old(self), *final(self), if size(*old(self)) == 0 { 0 } else { size(*old(self)) - 1 }),
@*/
}
fn main() {}
}
