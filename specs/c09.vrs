// C09: sectors and directory sections; /repo/src/compile/assembler.rs
use vstd::prelude::*;
use vstd::utf8::*;
use vstd::std_specs::iter::IteratorSpec;
use std::collections::HashMap;
verus! {
//@ include asm_core.vi
//@ include name_core.vi
//@ include sector_core.vi
//@ include asm_fit.vi

/// a section written from a0 to a1: at most n bytes, and the reader's directory path is what it was before
pub open spec fn balanced(a0: Assembler, a1: Assembler, n: int) -> bool {
    &&& a0.idx <= a1.idx <= a0.idx + n
    &&& wrote(a0, a1, a1.idx - a0.idx)
    &&& forall|o: int, p: Seq<Seq<char>>| 0 <= o <= a0.idx && scan(a0.buffer@, o, a0.idx as int, p).is_some() ==>
            #[trigger] scan(a1.buffer@, o, a1.idx as int, p) == scan(a0.buffer@, o, a0.idx as int, p)
}

/// nothing opened or closed between a0 and a1
pub open spec fn same_path(a0: Assembler, a1: Assembler) -> bool {
    forall|o: int, p: Seq<Seq<char>>| 0 <= o <= a0.idx && scan(a0.buffer@, o, a0.idx as int, p).is_some() ==>
        #[trigger] scan(a1.buffer@, o, a1.idx as int, p) == scan(a0.buffer@, o, a0.idx as int, p)
}
impl<'a> Assembler<'a> {
/*@ fn compile/assembler.rs Assembler::append_blank_chunk
contract
    requires old(self).buffer@.len() + 8192 <= usize::MAX,
    ensures final(self).buffer@ =~= old(self).buffer@ + Seq::new(4096, |i: int| 0u8),
            final(self).idx == old(self).buffer@.len(), final(self).file == old(self).file,
@*/
/*@ fn compile/assembler.rs Assembler::emit_layout_data
contract
    requires room(*old(self), 32),
    ensures balanced(*old(self), *final(self), 32),
at start
    hide(reads_kv); hide(reads_push); hide(reads_pop); hide(scan);
    proof { lemma_popped(); }
@*/
/*@ fn compile/assembler.rs Assembler::emit_theme_data
contract
    requires room(*old(self), 8),
    ensures balanced(*old(self), *final(self), 8),
at start
    hide(reads_kv); hide(reads_push); hide(reads_pop); hide(scan);
    proof { lemma_popped(); }
@*/
/*@ fn compile/assembler.rs Assembler::emit_security_data
contract
    requires room(*old(self), 8),
    ensures balanced(*old(self), *final(self), 8),
at start
    hide(reads_kv); hide(reads_push); hide(reads_pop); hide(scan);
    proof { lemma_popped(); }
@*/
/*@ fn compile/assembler.rs Assembler::emit_value_list_data
contract
    requires room(*old(self), 8),
    ensures balanced(*old(self), *final(self), 8),
at start
    hide(reads_kv); hide(reads_push); hide(reads_pop); hide(scan);
    proof { lemma_popped(); }
@*/
/*@ fn compile/assembler.rs Assembler::emit_font_data
contract
    requires room(*old(self), 8),
    ensures balanced(*old(self), *final(self), 8),
at start
    hide(reads_kv); hide(reads_push); hide(reads_pop); hide(scan);
    proof { lemma_popped(); }
@*/
/*@ fn compile/assembler.rs Assembler::emit_toolbar_data
contract
    requires room(*old(self), 8),
    ensures balanced(*old(self), *final(self), 8),
at start
    hide(reads_kv); hide(reads_push); hide(reads_pop); hide(scan);
    proof { lemma_popped(); }
@*/
/*@ fn compile/assembler.rs Assembler::emit_init_blobs
contract
    requires room(*old(self), 1100),
    ensures balanced(*old(self), *final(self), 1100),
at start
    hide(reads_kv); hide(reads_push); hide(reads_pop); hide(scan);
    proof { lemma_popped(); }
@*/
/*@ fn compile/assembler.rs Assembler::emit_simple_data
contract
    ensures *final(self) == *old(self),
@*/
/*@ fn compile/assembler.rs Assembler::emit_script_data
contract
    requires room(*old(self), 32),
    ensures balanced(*old(self), *final(self), 32),
at start
    hide(reads_kv); hide(reads_push); hide(reads_pop); hide(scan);
    proof { lemma_popped(); }
    let ghost a0 = *self;
loop 0 iter it
    invariant
        *self == a1,
at loop 0 before
    let ghost a1 = *self;
@*/
/*@ fn compile/assembler.rs Assembler::emit_table_metadata
contract
    requires room(*old(self), table_room(*old(self).file)), tables_fit(*old(self).file),
    ensures writes(*old(self), *final(self), table_room(*old(self).file)),
            forall|o: int, p: Seq<Seq<char>>| 0 <= o <= old(self).idx && scan(old(self).buffer@, o, old(self).idx as int, p).is_some() ==>
                #[trigger] scan(final(self).buffer@, o, final(self).idx as int, p) == Some(scan(old(self).buffer@, o, old(self).idx as int, p).unwrap().push(dec_text(3))),
at start
    hide(reads_kv); hide(reads_push); hide(reads_pop); hide(reads_long); hide(scan);
    proof { lemma_popped(); reveal_strlit("hello"); lemma_utf8_len("hello"@); }
    let ghost f = *self.file;
    let ghost n = self.file.tables@.len() as int;
    assert forall|s: Seq<(&usize, &FMComponentTable)>| all_of(f.tables@, s) implies #[trigger] listing(keys(s), f.tables@.dom()) by { lemma_listing(f.tables@, s); }
loop 0 iter it
    invariant
        tables_iter(it.seq(), f), *self.file == f, tables_fit(f), n == f.tables@.len(), it.seq().len() == n,
        writes(a1, *self, names_so_far(it.seq(), f, it.index@ as int) + 9 * it.index@), room(a1, table_room(f) - 20), 0 <= names_so_far(it.seq(), f, it.index@ as int) <= table_names(f), self.buffer@.len() + 1024 <= usize::MAX, same_path(a1, *self),
at loop 0 start
    proof { lemma_key(it.seq(), f, it.index@ as int); }
at loop 0 before
    let ghost a1 = *self;
loop 1 iter it
    invariant
        tables_iter(it.seq(), f), *self.file == f, tables_fit(f), n == f.tables@.len(), it.seq().len() == n,
        writes(a2, *self, 11 * it.index@), room(a2, 16 * n + 90), self.buffer@.len() + 1024 <= usize::MAX, same_path(a2, *self),
at loop 1 start
    proof { lemma_key(it.seq(), f, it.index@ as int); }
at loop 1 before
    let ghost a2 = *self;
loop 2 iter it
    invariant
        tables_iter(it.seq(), f), *self.file == f, tables_fit(f), n == f.tables@.len(), it.seq().len() == n,
        writes(a3, *self, 5 * it.index@), room(a3, 5 * n + 10), self.buffer@.len() + 1024 <= usize::MAX, same_path(a3, *self),
at loop 2 start
    proof { lemma_popped(); lemma_key(it.seq(), f, it.index@ as int); }
at loop 2 before
    let ghost a3 = *self;
@*/
/*@ fn compile/assembler.rs Assembler::emit_relationship_data
contract
    requires room(*old(self), occ_room(*old(self).file)), occs_fit(*old(self).file),
    ensures writes(*old(self), *final(self), occ_room(*old(self).file)),
            forall|o: int, p: Seq<Seq<char>>| 0 <= o <= old(self).idx && scan(old(self).buffer@, o, old(self).idx as int, p).is_some() ==>
                #[trigger] scan(final(self).buffer@, o, final(self).idx as int, p) == Some(popped(scan(old(self).buffer@, o, old(self).idx as int, p).unwrap())),
at start
    hide(reads_kv); hide(reads_push); hide(reads_pop); hide(reads_counted); hide(scan);
    proof { lemma_popped(); reveal_strlit("\0\0"); }
    let ghost f = *self.file;
    let ghost n = self.file.table_occurrences@.len() as int;
    assert forall|s: Seq<(&usize, &FMComponentTableOccurence)>| all_of(f.table_occurrences@, s) implies #[trigger] listing(keys(s), f.table_occurrences@.dom()) by { lemma_listing(f.table_occurrences@, s); }
loop 0 iter it
    invariant
        occs_iter(it.seq(), f), *self.file == f, occs_fit(f), n == f.table_occurrences@.len(), it.seq().len() == n, "\0\0"@.len() == 2,
        writes(a1, *self, occs_so_far(it.seq(), f, it.index@ as int) + 10 * it.index@), room(a1, occ_room(f) - 20), 0 <= occs_so_far(it.seq(), f, it.index@ as int) <= occ_names(f), self.buffer@.len() + 1024 <= usize::MAX, same_path(a1, *self),
at loop 0 start
    proof { lemma_occ_key(it.seq(), f, it.index@ as int); }
at loop 0 before
    let ghost a1 = *self;
loop 1 iter it
    invariant
        occs_iter(it.seq(), f), *self.file == f, occs_fit(f), n == f.table_occurrences@.len(), it.seq().len() == n,
        writes(a2, *self, 10 * it.index@), room(a2, 10 * n + 30), self.buffer@.len() + 1024 <= usize::MAX, same_path(a2, *self),
at loop 1 start
    proof { lemma_occ_key(it.seq(), f, it.index@ as int); }
at loop 1 before
    let ghost a2 = *self;
@*/
/*@ fn compile/assembler.rs Assembler::new
ret res
contract
    ensures res.buffer@.len() == 0, res.file == input,
@*/
/*@ fn compile/assembler.rs Assembler::assemble_fmp12
contract
    requires old(self).buffer@.len() == 0, file_fits(*old(self).file), encode_utf8(schema.name@).len() <= 1000,
    ensures whole_file(final(self).buffer@),
at start
    hide(scan); hide(rule); hide(is_encoding); hide(reads_noop);
    proof { lemma_utf8_cat(schema.name@, "/"@); reveal_strlit("/"); lemma_utf8_len("/"@); }
    let ghost mut a1 = *self;
    let ghost mut a2 = *self;
    let ghost none = Seq::<Seq<char>>::empty();
at call splice 1 before
    let ghost s1 = *self;
at call splice 1 after
    proof { assert(s1.idx == 4096); assert(s1.buffer@.len() == 8192); assert(self.buffer@.subrange(4104, 4108) == self.buffer@.subrange(s1.idx + 8, s1.idx + 8 + 4)); assert(next_of(self.buffer@, 1) == 4); }
    let ghost t1 = *self;
at call splice 2 before
    let ghost s2 = *self;
at call splice 2 after
    proof { assert(s2.idx == 8192); assert(s2.buffer@.len() == 12288); assert(self.buffer@.subrange(8200, 8204) == self.buffer@.subrange(s2.idx + 8, s2.idx + 8 + 4)); assert(next_of(self.buffer@, 2) == 3); }
    let ghost t2 = *self;
at call splice 3 before
    let ghost s3 = *self;
at call splice 3 after
    proof { assert(s3.idx == 12288); assert(s3.buffer@.len() == 16384); assert(self.buffer@.subrange(12296, 12300) == self.buffer@.subrange(s3.idx + 8, s3.idx + 8 + 4)); assert(next_of(self.buffer@, 3) == 4); }
    let ghost t3 = *self;
at call splice 4 before
    let ghost s4 = *self;
at call splice 4 after
    proof { assert(s4.idx == 16384); assert(s4.buffer@.len() == 20480); assert(self.buffer@.subrange(16392, 16396) == self.buffer@.subrange(s4.idx + 8, s4.idx + 8 + 4)); assert(next_of(self.buffer@, 4) == 0); }
    let ghost t4 = *self;
at call emit_noop 0 before
    proof { assert(scan(self.buffer@, 8212, 8212, none) == Some(none)) by { reveal(scan); } a1 = *self; }
at call emit_toolbar_data 0 after
    proof {
        lemma_popped();
        a2 = *self;
        assert(none.push(dec_text(3)).drop_last() =~= none);
        assert(scan(a2.buffer@, 8212, a2.idx as int, none) == Some(none));
        assert forall|i: int| 0 <= i < a1.buffer@.len() && !(8212 <= i < a2.idx) implies a1.buffer@[i] == a2.buffer@[i] by { }
    }
at end
    proof {
        let c = self.buffer@;
        let e = a2.idx as int;
        assert(forall|i: int| 0 <= i < 3 * 4096 ==> c[i] == a2.buffer@[i]);
        lemma_scan_frame(a2.buffer@, c, 8212, e, none);
        assert(content_end(c, e));
        assert(next_of(c, 1) == 4) by { assert(c.subrange(4104, 4108) =~= t1.buffer@.subrange(4104, 4108)); }
        assert(next_of(c, 2) == 3) by { assert(c.subrange(8200, 8204) =~= t2.buffer@.subrange(8200, 8204)); }
        assert(next_of(c, 3) == 4) by { assert(c.subrange(12296, 12300) =~= t3.buffer@.subrange(12296, 12300)); }
    }
@*/
}

/// the directory stream of sector 2 is well formed from its first byte to e, leaves no directory open, and only zeros follow
pub open spec fn content_end(c: Seq<u8>, e: int) -> bool {
    &&& 8212 < e <= 3 * 4096
    &&& scan(c, 8212, e, Seq::empty()) == Some(Seq::<Seq<char>>::empty())
    &&& forall|i: int| e <= i < 3 * 4096 ==> c[i] == 0u8
}
pub open spec fn next_of(c: Seq<u8>, k: int) -> int { be_val(c.subrange(k * 4096 + 8, k * 4096 + 12)) }
pub open spec fn whole_file(c: Seq<u8>) -> bool {
    &&& c.len() == 5 * 4096
    &&& next_of(c, 1) == 4 && next_of(c, 2) == 3 && next_of(c, 3) == 4 && next_of(c, 4) == 0
    &&& exists|e: int| content_end(c, e)
}
/// C09 on the real functions: the decompiler's sector reader follows the assembled chain 2, 3, 4 and stops
pub fn c09_walk(f: &FmpFile)
    requires file_fits(*f), encode_utf8(f.name@).len() <= 1000,
{
    let mut a = Assembler::new(f);
    a.assemble_fmp12(f);
    let c = a.buffer.as_slice();
    let s2 = get_sector(vstd::slice::slice_subrange(c, 2 * 4096, 3 * 4096));
    let s3 = get_sector(vstd::slice::slice_subrange(c, 3 * 4096, 4 * 4096));
    let s4 = get_sector(vstd::slice::slice_subrange(c, 4 * 4096, 5 * 4096));
    proof {
        assert(c@.subrange(8192, 12288).subrange(8, 12) =~= c@.subrange(8200, 8204));
        assert(c@.subrange(12288, 16384).subrange(8, 12) =~= c@.subrange(12296, 12300));
        assert(c@.subrange(16384, 20480).subrange(8, 12) =~= c@.subrange(16392, 16396));
    }
    assert(s2.next == 3 && s3.next == 4 && s4.next == 0);
    assert(s2.payload@ =~= c@.subrange(8212, 12288));
}
} // verus!
fn main() {}
