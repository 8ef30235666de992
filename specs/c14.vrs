// C14: reading and writing fields; /repo/src/testing/database.rs
use vstd::prelude::*;
use vstd::std_specs::iter::IteratorSpec;
use std::collections::HashMap;
verus! {
//@ include db_core.vi

/// `String::deref_mut` gives access to the same text (trusted)
pub assume_specification [<std::string::String as std::ops::DerefMut>::deref_mut] (s: &mut String) -> (r: &mut str)
    ensures r@ == old(s)@, final(s)@ == final(r)@;

/// i is the (first) field of that name
pub open spec fn is_field(t: Table, i: int, name: Seq<char>) -> bool {
    &&& 0 <= i < t.fields@.len()
    &&& t.fields@[i].name@ == name
    &&& forall|j: int| 0 <= j < i ==> (#[trigger] t.fields@[j]).name@ != name
}
pub open spec fn has_field(t: Table, name: Seq<char>) -> bool {
    exists|i: int| 0 <= i < t.fields@.len() && (#[trigger] t.fields@[i]).name@ == name
}
pub open spec fn occ_table(d: Database, o: TableOccurrence) -> Table { d.tables@[o.table_ptr as int] }
pub open spec fn has_current(o: TableOccurrence) -> bool { o.record_ptr < o.found_set@.len() }
pub open spec fn current(o: TableOccurrence) -> int { o.found_set@[o.record_ptr as int] as int }
/// v is the value of the named field of record r in table t
pub open spec fn is_value(t: Table, name: Seq<char>, r: int, v: Seq<char>) -> bool {
    forall|i: int| #[trigger] is_field(t, i, name) ==> v == t.fields@[i].records@[r]@
}
/// b is a with only the value of the named field of record r in table ti replaced by v
pub open spec fn one_value(a: Database, b: Database, ti: int, name: Seq<char>, r: int, v: Seq<char>) -> bool {
    &&& same_shape(a, b)
    &&& b.table_occurrences == a.table_occurrences
    &&& forall|k: int| 0 <= k < a.tables@.len() && k != ti ==> #[trigger] b.tables@[k] == a.tables@[k]
    &&& b.tables@[ti].name == a.tables@[ti].name
    &&& b.tables@[ti].fields@.len() == a.tables@[ti].fields@.len()
    &&& forall|i: int| 0 <= i < a.tables@[ti].fields@.len() && !is_field(a.tables@[ti], i, name) ==> #[trigger] b.tables@[ti].fields@[i] == a.tables@[ti].fields@[i]
    &&& forall|i: int| #[trigger] is_field(a.tables@[ti], i, name) ==> {
            &&& b.tables@[ti].fields@[i].name == a.tables@[ti].fields@[i].name
            &&& b.tables@[ti].fields@[i].records@.len() == a.tables@[ti].fields@[i].records@.len()
            &&& b.tables@[ti].fields@[i].records@[r]@ == v
            &&& forall|k: int| 0 <= k < a.tables@[ti].fields@[i].records@.len() && k != r ==> #[trigger] b.tables@[ti].fields@[i].records@[k] == a.tables@[ti].fields@[i].records@[k]
        }
}
/// the named occurrence
pub open spec fn named(d: Database, o: Seq<char>) -> TableOccurrence { d.table_occurrences@[smap(d.occurrence_indices)[o] as int] }
pub open spec fn knows(d: Database, o: Seq<char>) -> bool {
    smap(d.occurrence_indices).contains_key(o) && smap(d.occurrence_indices)[o] < d.table_occurrences@.len()
}

impl Database {
/*@ fn testing/database.rs Database::get_found_set_record_field
ret res
contract
    requires db_wf(*self), has_current(cur(*self)), // none: known finding C14-NONE
    ensures has_current(cur(*self)) && has_field(cur_table(*self), field@) ==> is_value(cur_table(*self), field@, current(cur(*self)), res@),
            !has_current(cur(*self)) || !has_field(cur_table(*self), field@) ==> res@.len() == 0,
loop 0 iter it
    invariant
        it.seq().unref() == table.fields@, *table == cur_table(*self), has_current(cur(*self)), cur_idx == current(cur(*self)),
        cur_idx < nrec(cur_table(*self)), rect(cur_table(*self), nrec(cur_table(*self))),
        forall|j: int| 0 <= j < it.index@ ==> (#[trigger] table.fields@[j]).name@ != field@,
at loop 0 start
    assert(f == it.seq()[it.index@ as int]);
    assert(*f == it.seq().unref()[it.index@ as int]);
    assert(is_field(*table, it.index@ as int, field@) || f.name@ != field@);
at start
    proof { reveal_strlit(""); assert(occ_ok(*self, cur(*self))); }
@*/
/*@ fn testing/database.rs Database::get_record_by_field
ret res
contract
    requires db_wf(*self), has_field(cur_table(*self), field@), has_current(cur(*self)) ==> record_id < nrec(cur_table(*self)),
    ensures has_current(cur(*self)) ==> res.is_ok() && is_value(cur_table(*self), field@, record_id as int, res->Ok_0@),
            !has_current(cur(*self)) ==> res.is_err(),
closure 0 (&&Field) -> (b: bool) ensures b == ($0.name@ == field@)
at call collect 0 after
    proof {
        let rr = fs.as_ref();
        assert(rr.unref() =~= fs);
        let j = choose|i: int| 0 <= i < fs.len() && (#[trigger] fs[i]).name@ == name;
        assert(rr[j].name@ == name);
        assert forall|i: int| 0 <= i < fs.len() implies *(#[trigger] rr[i]) == fs[i] by {}
        assert forall|i: int| #[trigger] is_field(cur_table(*self), i, name) implies *field@[0] == fs[i] by {
            assert(*rr[i] == fs[i]);
        }
    }
at start
    let ghost name = field@;
    let ghost fs = cur_table(*self).fields@;
    proof { assert(occ_ok(*self, cur(*self))); }
@*/
/*@ fn testing/database.rs Database::get_current_record_by_table_field
ret res
contract
    requires db_wf(*self), knows(*self, occurrence@), has_field(occ_table(*self, named(*self, occurrence@)), field@),
    ensures has_current(named(*self, occurrence@)) ==> res.is_ok() && is_value(occ_table(*self, named(*self, occurrence@)), field@, current(named(*self, occurrence@)), res->Ok_0@),
            !has_current(named(*self, occurrence@)) ==> res.is_err(),
closure 0 (&(usize, &Field)) -> (b: bool) ensures b == ($0.1.name@ == field@)
at call collect 0 before
    let ghost rr = fs.as_ref();
    proof {
        assert(rr.unref() =~= fs);
        let j = choose|i: int| 0 <= i < fs.len() && (#[trigger] fs[i]).name@ == name;
        assert(rr[j].name@ == name);
        assert forall|i: int| 0 <= i < fs.len() implies *(#[trigger] rr[i]) == fs[i] by {}
    }
at call collect 0 after
    proof {
        assert forall|i: int| #[trigger] is_field(tb, i, name) implies field == i by {
            assert(*rr[i] == fs[i]);
        }
    }
at start
    let ghost name = field@;
    let ghost tb = occ_table(*self, named(*self, occurrence@));
    let ghost fs = tb.fields@;
    proof { assert(occ_ok(*self, named(*self, occurrence@))); }
@*/
/*@ fn testing/database.rs Database::get_current_record_by_table_field_mut
ret res
opt rename=iter_mut:iter
contract
    requires db_wf(*old(self)), knows(*old(self), occurrence@), has_field(occ_table(*old(self), named(*old(self), occurrence@)), field@),
    ensures has_current(named(*old(self), occurrence@)) ==> res.is_ok()
                && is_value(occ_table(*old(self), named(*old(self), occurrence@)), field@, current(named(*old(self), occurrence@)), res->Ok_0@)
                && one_value(*old(self), *final(self), named(*old(self), occurrence@).table_ptr as int, field@, current(named(*old(self), occurrence@)), final(res->Ok_0)@),
            !has_current(named(*old(self), occurrence@)) ==> res.is_err() && *final(self) == *old(self),
closure 0 (&(usize, &Field)) -> (b: bool) ensures b == ($0.1.name@ == field@)
at call collect 0 before
    let ghost rr = fs.as_ref();
    proof {
        assert(rr.unref() =~= fs);
        let j = choose|i: int| 0 <= i < fs.len() && (#[trigger] fs[i]).name@ == name;
        assert(rr[j].name@ == name);
        assert forall|i: int| 0 <= i < fs.len() implies *(#[trigger] rr[i]) == fs[i] by {}
    }
at call collect 0 after
    proof {
        assert forall|i: int| #[trigger] is_field(tb, i, name) implies field == i by {
            assert(*rr[i] == fs[i]);
        }
    }
at start
    let ghost name = field@;
    let ghost tb = occ_table(*self, named(*self, occurrence@));
    let ghost fs = tb.fields@;
    proof { assert(occ_ok(*self, named(*self, occurrence@))); }
@*/
/*@ fn testing/database.rs Database::get_current_record_by_field_mut
ret res
opt rename=iter_mut:iter
contract
    requires db_wf(*old(self)), has_field(occ_table(*old(self), cur(*old(self))), field@),
    ensures has_current(cur(*old(self))) ==> res.is_ok()
                && is_value(occ_table(*old(self), cur(*old(self))), field@, current(cur(*old(self))), res->Ok_0@)
                && one_value(*old(self), *final(self), cur(*old(self)).table_ptr as int, field@, current(cur(*old(self))), final(res->Ok_0)@),
            !has_current(cur(*old(self))) ==> res.is_err() && *final(self) == *old(self),
closure 0 (&(usize, &Field)) -> (b: bool) ensures b == ($0.1.name@ == field@)
at call collect 0 before
    let ghost rr = fs.as_ref();
    proof {
        assert(rr.unref() =~= fs);
        let j = choose|i: int| 0 <= i < fs.len() && (#[trigger] fs[i]).name@ == name;
        assert(rr[j].name@ == name);
        assert forall|i: int| 0 <= i < fs.len() implies *(#[trigger] rr[i]) == fs[i] by {}
    }
at call collect 0 after
    proof {
        assert forall|i: int| #[trigger] is_field(tb, i, name) implies field == i by {
            assert(*rr[i] == fs[i]);
        }
    }
at start
    let ghost name = field@;
    let ghost tb = occ_table(*self, cur(*self));
    let ghost fs = tb.fields@;
    proof { assert(occ_ok(*self, cur(*self))); }
@*/
/*@ fn testing/database.rs Database::get_current_record_field
ret res
contract
    requires db_wf(*self), has_field(cur_table(*self), field@),
    ensures has_current(cur(*self)) ==> is_value(cur_table(*self), field@, current(cur(*self)), res@),
            !has_current(cur(*self)) ==> res@.len() == 0,
closure 0 (&&Field) -> (b: bool) ensures b == ($0.name@ == field@)
at call collect 0 after
    proof {
        let rr = fs.as_ref();
        assert(rr.unref() =~= fs);
        let j = choose|i: int| 0 <= i < fs.len() && (#[trigger] fs[i]).name@ == name;
        assert(rr[j].name@ == name);
        assert forall|i: int| 0 <= i < fs.len() implies *(#[trigger] rr[i]) == fs[i] by {}
        assert forall|i: int| #[trigger] is_field(cur_table(*self), i, name) implies *field@[0] == fs[i] by {
            assert(*rr[i] == fs[i]);
        }
    }
at start
    let ghost name = field@;
    let ghost fs = cur_table(*self).fields@;
    proof { reveal_strlit(""); assert(occ_ok(*self, cur(*self))); }
@*/
}
fn main() {}
}
