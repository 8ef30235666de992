// C29: what an assembled file lists; /repo/src/compile/assembler.rs
use vstd::prelude::*;
use vstd::utf8::*;
use vstd::std_specs::iter::IteratorSpec;
use std::collections::HashMap;
verus! {
broadcast use {outs::lemma_out, vstd::std_specs::hash::group_hash_axioms};
//@ include asm_core.vi
//@ include name_core.vi
//@ include asm_fit.vi


/// the encoded name, closed by zeros, and the table's directory number 128 + k with its length in front
pub open spec fn name_rec(r: Rec, f: FmpFile, k: usize) -> bool {
    r matches Rec::TableName(key, val) && ({
        let name = f.tables@[k].table_name@;
        key.len() == 2 * name.len() + 3 && is_encoding(name, key.take(2 * name.len() as int))
            && (forall|i: int| 2 * name.len() <= i < key.len() ==> key[i] == 0u8) && val == seq![2u8, 128u8, k as u8]
    })
}
pub open spec fn no_rec(r: Rec, k: usize) -> bool { r matches Rec::TableNo(key, val) && key.len() == 4 && val.len() == 4 && be_val(key) == k && be_val(val) == k }
pub open spec fn occ_rec(r: Rec, f: FmpFile, k: usize) -> bool {
    r matches Rec::OccName(val) && is_encoding(f.table_occurrences@[k].table_occurence_name@ + "\0\0"@, val)
}
pub open spec fn occ_no_rec(r: Rec, k: usize) -> bool { r matches Rec::OccNo(val) && val.len() == 4 && be_val(val) == k }

pub open spec fn is_names(p: Seq<Rec>, f: FmpFile, ks: Seq<usize>) -> bool { p.len() == ks.len() && forall|i: int| 0 <= i < p.len() ==> name_rec(#[trigger] p[i], f, ks[i]) }
pub open spec fn is_nos(p: Seq<Rec>, ks: Seq<usize>) -> bool { p.len() == ks.len() && forall|i: int| 0 <= i < p.len() ==> no_rec(#[trigger] p[i], ks[i]) }
pub open spec fn is_dirs(p: Seq<Rec>, ks: Seq<usize>) -> bool { p.len() == ks.len() && forall|i: int| 0 <= i < p.len() ==> (#[trigger] p[i]) == Rec::TableDir(128 + ks[i]) }
pub open spec fn is_occs(p: Seq<Rec>, f: FmpFile, ks: Seq<usize>) -> bool { p.len() == ks.len() && forall|i: int| 0 <= i < p.len() ==> occ_rec(#[trigger] p[i], f, ks[i]) }
pub open spec fn is_occ_nos(p: Seq<Rec>, ks: Seq<usize>) -> bool { p.len() == ks.len() && forall|i: int| 0 <= i < p.len() ==> occ_no_rec(#[trigger] p[i], ks[i]) }
pub open spec fn is_count(r: Rec, n: nat) -> bool { r matches Rec::TableCount(val) && val.len() == 4 && be_val(val) == n }

/// the tables as they are listed: names with directory numbers, numbers, their count, their directories
pub open spec fn tables_part(p: Seq<Rec>, f: FmpFile, k1: Seq<usize>, k2: Seq<usize>, k3: Seq<usize>, p1: Seq<Rec>, p2: Seq<Rec>, c: Rec, p3: Seq<Rec>) -> bool {
    &&& listing(k1, f.tables@.dom()) && listing(k2, f.tables@.dom()) && listing(k3, f.tables@.dom())
    &&& is_names(p1, f, k1) && is_nos(p2, k2) && is_count(c, f.tables@.len()) && is_dirs(p3, k3)
    &&& p == p1 + p2 + seq![c] + p3
}
pub open spec fn lists_tables(p: Seq<Rec>, f: FmpFile) -> bool {
    exists|k1: Seq<usize>, k2: Seq<usize>, k3: Seq<usize>, p1: Seq<Rec>, p2: Seq<Rec>, c: Rec, p3: Seq<Rec>| #[trigger] tables_part(p, f, k1, k2, k3, p1, p2, c, p3)
}
/// the table occurrences: names and numbers
pub open spec fn occs_part(p: Seq<Rec>, f: FmpFile, k1: Seq<usize>, k2: Seq<usize>, p1: Seq<Rec>, p2: Seq<Rec>) -> bool {
    &&& listing(k1, f.table_occurrences@.dom()) && listing(k2, f.table_occurrences@.dom())
    &&& is_occs(p1, f, k1) && is_occ_nos(p2, k2)
    &&& p == p1 + p2
}
pub open spec fn lists_occs(p: Seq<Rec>, f: FmpFile) -> bool {
    exists|k1: Seq<usize>, k2: Seq<usize>, p1: Seq<Rec>, p2: Seq<Rec>| #[trigger] occs_part(p, f, k1, k2, p1, p2)
}
pub open spec fn added(a0: Assembler, a1: Assembler, p: Seq<Rec>) -> bool {
    log_of(a1).is_some() && log_of(a1).unwrap().recs == log_of(a0).unwrap().recs + p
}
pub open spec fn at_root(a: Assembler) -> bool { log_of(a).is_some() && log_of(a).unwrap().path == Seq::<int>::empty() }
/// a section that is written at the root and notes nothing
pub open spec fn silent(a0: Assembler, a1: Assembler) -> bool { at_root(a0) ==> log_of(a1) == log_of(a0) }
pub open spec fn layout_count(f: FmpFile) -> Rec { Rec::LayoutCount(seq![1u8, f.layouts@.len() as usize as u8]) }
pub open spec fn script_count(f: FmpFile) -> Rec { Rec::ScriptCount(seq![1u8, f.scripts@.len() as usize as u8]) }

pub proof fn lemma_grow(s: Seq<usize>, i: int)
    requires 0 <= i < s.len(),
    ensures s.take(i + 1) == s.take(i).push(s[i]),
{ assert(s.take(i + 1) =~= s.take(i).push(s[i])); }

impl<'a> Assembler<'a> {
/*@ fn compile/assembler.rs Assembler::append_blank_chunk
contract
    requires old(self).buffer@.len() + 8192 <= usize::MAX,
    ensures final(self).buffer@ =~= old(self).buffer@ + Seq::new(4096, |i: int| 0u8),
            final(self).idx == old(self).buffer@.len(), final(self).file == old(self).file,
@*/
/*@ fn compile/assembler.rs Assembler::emit_layout_data
contract
    requires room(*old(self), 32),
    ensures writes(*old(self), *final(self), 32),
            at_root(*old(self)) ==> at_root(*final(self)) && added(*old(self), *final(self), seq![layout_count(*old(self).file)]),
at start
    hide(reads_kv); hide(reads_push); hide(reads_pop); hide(log_at);
    let ghost a0 = *self;
at end
    proof {
        if at_root(a0) {
            assert(log_of(*self).unwrap().recs =~= log_of(a0).unwrap().recs + seq![layout_count(*a0.file)]);
        }
    }
@*/
/*@ fn compile/assembler.rs Assembler::emit_theme_data
contract
    requires room(*old(self), 8),
    ensures writes(*old(self), *final(self), 8), silent(*old(self), *final(self)),
at start
    hide(reads_kv); hide(reads_push); hide(reads_pop); hide(log_at);
@*/
/*@ fn compile/assembler.rs Assembler::emit_security_data
contract
    requires room(*old(self), 8),
    ensures writes(*old(self), *final(self), 8), silent(*old(self), *final(self)),
at start
    hide(reads_kv); hide(reads_push); hide(reads_pop); hide(log_at);
@*/
/*@ fn compile/assembler.rs Assembler::emit_font_data
contract
    requires room(*old(self), 8),
    ensures writes(*old(self), *final(self), 8), silent(*old(self), *final(self)),
at start
    hide(reads_kv); hide(reads_push); hide(reads_pop); hide(log_at);
@*/
/*@ fn compile/assembler.rs Assembler::emit_toolbar_data
contract
    requires room(*old(self), 8),
    ensures writes(*old(self), *final(self), 8), silent(*old(self), *final(self)),
at start
    hide(reads_kv); hide(reads_push); hide(reads_pop); hide(log_at);
@*/
/*@ fn compile/assembler.rs Assembler::emit_init_blobs
contract
    requires room(*old(self), 1100),
    ensures writes(*old(self), *final(self), 1100), silent(*old(self), *final(self)),
at start
    hide(reads_kv); hide(reads_push); hide(reads_pop); hide(log_at);
@*/
/*@ fn compile/assembler.rs Assembler::emit_simple_data
contract
    ensures *final(self) == *old(self),
@*/
/*@ fn compile/assembler.rs Assembler::emit_script_data
contract
    requires room(*old(self), 32),
    ensures writes(*old(self), *final(self), 32),
            at_root(*old(self)) ==> at_root(*final(self)) && added(*old(self), *final(self), seq![script_count(*old(self).file)]),
at start
    hide(reads_kv); hide(reads_push); hide(reads_pop); hide(log_at);
    let ghost a0 = *self;
loop 0 iter it
    invariant
        *self == a1,
at loop 0 before
    let ghost a1 = *self;
at end
    proof {
        if at_root(a0) {
            assert(log_of(*self).unwrap().recs =~= log_of(a0).unwrap().recs + seq![script_count(*a0.file)]);
        }
    }
@*/
/*@ fn compile/assembler.rs Assembler::emit_table_metadata
contract
    requires room(*old(self), table_room(*old(self).file)), tables_fit(*old(self).file),
    ensures writes(*old(self), *final(self), table_room(*old(self).file)),
            at_root(*old(self)) ==> log_of(*final(self)).is_some() && log_of(*final(self)).unwrap().path == seq![3int]
                && exists|p: Seq<Rec>| #[trigger] added(*old(self), *final(self), p) && lists_tables(p, *old(self).file),
at start
    hide(reads_kv); hide(reads_push); hide(reads_pop); hide(reads_long); hide(log_at); hide(lists_tables); hide(name_rec); hide(no_rec);
    proof { reveal_strlit("hello"); lemma_utf8_len("hello"@); }
    let ghost f = *self.file;
    let ghost n = self.file.tables@.len() as int;
    let ghost a0 = *self;
    let ghost root = at_root(*self);
    assert forall|s: Seq<(&usize, &FMComponentTable)>| all_of(f.tables@, s) implies #[trigger] listing(keys(s), f.tables@.dom()) by { lemma_listing(f.tables@, s); }
    let ghost mut k1 = Seq::<usize>::empty();
    let ghost mut k2 = Seq::<usize>::empty();
    let ghost mut k3 = Seq::<usize>::empty();
    let ghost mut p1 = Seq::<Rec>::empty();
    let ghost mut p2 = Seq::<Rec>::empty();
    let ghost mut p3 = Seq::<Rec>::empty();
loop 0 iter it
    invariant
        tables_iter(it.seq(), f), *self.file == f, tables_fit(f), n == f.tables@.len(), it.seq().len() == n,
        writes(a1, *self, names_so_far(it.seq(), f, it.index@ as int) + 9 * it.index@), room(a1, table_room(f) - 20), 0 <= names_so_far(it.seq(), f, it.index@ as int) <= table_names(f), self.buffer@.len() + 1024 <= usize::MAX,
        k1 == keys(it.seq()).take(it.index@ as int), k1.len() == n ==> listing(k1, f.tables@.dom()),
        root ==> is_names(p1, f, k1) && log_of(a1).is_some() && at4(log_of(a1).unwrap().path, 3, 16, 1, 1) && log_of(*self) == Some(Log { path: log_of(a1).unwrap().path, recs: log_of(a1).unwrap().recs + p1 }),
at loop 0 start
    proof { lemma_key(it.seq(), f, it.index@ as int); }
    let ghost b = *self;
at call encode_text 0 after
    let ghost code = encoding@;
at call emit_long_kv 0 after
    proof {
        let k = *t.0;
        let name = f.tables@[k].table_name@;
        assert(encoding@.take(2 * name.len() as int) =~= code);
        lemma_grow(keys(it.seq()), it.index@ as int);
        k1 = k1.push(k);
        assert(k1.len() == n ==> k1 =~= keys(it.seq()));
        if root {
            let x = log_of(*self).unwrap().recs.last();
            assert(name_rec(x, f, k)) by { reveal(name_rec); }
            p1 = p1.push(x);
            assert(log_of(a1).unwrap().recs + p1 =~= (log_of(a1).unwrap().recs + p1.drop_last()).push(x));
        }
    }
at loop 0 before
    let ghost a1 = *self;
loop 1 iter it
    invariant
        tables_iter(it.seq(), f), *self.file == f, tables_fit(f), n == f.tables@.len(), it.seq().len() == n,
        writes(a2, *self, 11 * it.index@), room(a2, 16 * n + 90), self.buffer@.len() + 1024 <= usize::MAX,
        k2 == keys(it.seq()).take(it.index@ as int), k2.len() == n ==> listing(k2, f.tables@.dom()),
        root ==> is_nos(p2, k2) && log_of(a2).is_some() && at4(log_of(a2).unwrap().path, 3, 16, 1, 3) && log_of(*self) == Some(Log { path: log_of(a2).unwrap().path, recs: log_of(a2).unwrap().recs + p2 }),
at loop 1 start
    proof { lemma_key(it.seq(), f, it.index@ as int); }
at loop 1 before
    let ghost a2 = *self;
at loop 1 end
    proof {
        let k = *t.0;
        lemma_grow(keys(it.seq()), it.index@ as int);
        k2 = k2.push(k);
        assert(k2.len() == n ==> k2 =~= keys(it.seq()));
        if root {
            let x = log_of(*self).unwrap().recs.last();
            assert(no_rec(x, k)) by { reveal(no_rec); }
            p2 = p2.push(x);
            assert(log_of(a2).unwrap().recs + p2 =~= (log_of(a2).unwrap().recs + p2.drop_last()).push(x));
        }
    }
loop 2 iter it
    invariant
        tables_iter(it.seq(), f), *self.file == f, tables_fit(f), n == f.tables@.len(), it.seq().len() == n,
        writes(a3, *self, 5 * it.index@), room(a3, 5 * n + 10), self.buffer@.len() + 1024 <= usize::MAX,
        k3 == keys(it.seq()).take(it.index@ as int), k3.len() == n ==> listing(k3, f.tables@.dom()),
        root ==> is_dirs(p3, k3) && log_of(a3).is_some() && at4(log_of(a3).unwrap().path, 3, 16, 1, 5) && log_of(*self) == Some(Log { path: log_of(a3).unwrap().path, recs: log_of(a3).unwrap().recs + p3 }),
at loop 2 start
    proof { lemma_key(it.seq(), f, it.index@ as int); }
at loop 2 before
    let ghost a3 = *self;
at loop 2 end
    proof {
        let k = *t.0;
        lemma_grow(keys(it.seq()), it.index@ as int);
        k3 = k3.push(k);
        assert(k3.len() == n ==> k3 =~= keys(it.seq()));
        if root {
            let x = log_of(*self).unwrap().recs.last();
            p3 = p3.push(x);
            assert(log_of(a3).unwrap().recs + p3 =~= (log_of(a3).unwrap().recs + p3.drop_last()).push(x));
        }
    }
at loop 0 after
    assert(k1.len() == n);
at loop 1 after
    assert(k2.len() == n);
    let ghost a4 = *self;
at loop 2 after
    assert(k3.len() == n);
at end
    proof {
        if root {
            let c = log_of(a3).unwrap().recs.last();
            let p = p1 + p2 + seq![c] + p3;
            assert(tables_part(p, f, k1, k2, k3, p1, p2, c, p3));
            assert(log_of(*self).unwrap().recs =~= log_of(a0).unwrap().recs + p);
            assert(lists_tables(p, f)) by { reveal(lists_tables); }
            assert(added(a0, *self, p));
            assert(log_of(*self).unwrap().path =~= seq![3int]);
        }
    }
@*/
/*@ fn compile/assembler.rs Assembler::emit_relationship_data
contract
    requires room(*old(self), occ_room(*old(self).file)), occs_fit(*old(self).file),
    ensures writes(*old(self), *final(self), occ_room(*old(self).file)),
            log_of(*old(self)).is_some() && log_of(*old(self)).unwrap().path == seq![3int] ==> at_root(*final(self))
                && exists|p: Seq<Rec>| #[trigger] added(*old(self), *final(self), p) && lists_occs(p, *old(self).file),
at start
    hide(reads_kv); hide(reads_push); hide(reads_pop); hide(reads_counted); hide(log_at); hide(lists_occs); hide(is_encoding); hide(occ_rec); hide(occ_no_rec);
    proof { reveal_strlit("\0\0"); }
    let ghost f = *self.file;
    let ghost n = self.file.table_occurrences@.len() as int;
    let ghost a0 = *self;
    let ghost in3 = log_of(*self).is_some() && log_of(*self).unwrap().path == seq![3int];
    let ghost mut k1 = Seq::<usize>::empty();
    let ghost mut k2 = Seq::<usize>::empty();
    let ghost mut p1 = Seq::<Rec>::empty();
    let ghost mut p2 = Seq::<Rec>::empty();
    assert forall|s: Seq<(&usize, &FMComponentTableOccurence)>| all_of(f.table_occurrences@, s) implies #[trigger] listing(keys(s), f.table_occurrences@.dom()) by { lemma_listing(f.table_occurrences@, s); }
loop 0 iter it
    invariant
        occs_iter(it.seq(), f), *self.file == f, occs_fit(f), n == f.table_occurrences@.len(), it.seq().len() == n, "\0\0"@.len() == 2,
        writes(a1, *self, occs_so_far(it.seq(), f, it.index@ as int) + 10 * it.index@), room(a1, occ_room(f) - 20), 0 <= occs_so_far(it.seq(), f, it.index@ as int) <= occ_names(f), self.buffer@.len() + 1024 <= usize::MAX,
        k1 == keys(it.seq()).take(it.index@ as int), k1.len() == n ==> listing(k1, f.table_occurrences@.dom()),
        in3 ==> is_occs(p1, f, k1) && log_of(a1).is_some() && at4(log_of(a1).unwrap().path, 3, 17, 1, 1) && log_of(*self) == Some(Log { path: log_of(a1).unwrap().path, recs: log_of(a1).unwrap().recs + p1 }),
at loop 0 start
    proof { lemma_occ_key(it.seq(), f, it.index@ as int); }
    proof { reveal(is_encoding); }
at loop 0 before
    let ghost a1 = *self;
at loop 0 end
    proof {
        let k = *to.0;
        lemma_grow(keys(it.seq()), it.index@ as int);
        k1 = k1.push(k);
        assert(k1.len() == n ==> k1 =~= keys(it.seq()));
        if in3 {
            let x = log_of(*self).unwrap().recs.last();
            assert(occ_rec(x, f, k)) by { reveal(occ_rec); }
            p1 = p1.push(x);
            assert(log_of(a1).unwrap().recs + p1 =~= (log_of(a1).unwrap().recs + p1.drop_last()).push(x));
        }
    }
at loop 0 after
    assert(k1.len() == n);
loop 1 iter it
    invariant
        occs_iter(it.seq(), f), *self.file == f, occs_fit(f), n == f.table_occurrences@.len(), it.seq().len() == n,
        writes(a2, *self, 10 * it.index@), room(a2, 10 * n + 30), self.buffer@.len() + 1024 <= usize::MAX,
        k2 == keys(it.seq()).take(it.index@ as int), k2.len() == n ==> listing(k2, f.table_occurrences@.dom()),
        in3 ==> is_occ_nos(p2, k2) && log_of(a2).is_some() && at4(log_of(a2).unwrap().path, 3, 17, 1, 3) && log_of(*self) == Some(Log { path: log_of(a2).unwrap().path, recs: log_of(a2).unwrap().recs + p2 }),
at loop 1 start
    proof { lemma_occ_key(it.seq(), f, it.index@ as int); }
at loop 1 before
    let ghost a2 = *self;
at loop 1 end
    proof {
        let k = *to.0;
        lemma_grow(keys(it.seq()), it.index@ as int);
        k2 = k2.push(k);
        assert(k2.len() == n ==> k2 =~= keys(it.seq()));
        if in3 {
            let x = log_of(*self).unwrap().recs.last();
            assert(occ_no_rec(x, k)) by { reveal(occ_no_rec); }
            p2 = p2.push(x);
            assert(log_of(a2).unwrap().recs + p2 =~= (log_of(a2).unwrap().recs + p2.drop_last()).push(x));
        }
    }
at loop 1 after
    assert(k2.len() == n);
at end
    proof {
        if in3 {
            let p = p1 + p2;
            assert(occs_part(p, f, k1, k2, p1, p2));
            assert(log_of(*self).unwrap().recs =~= log_of(a0).unwrap().recs + p);
            assert(lists_occs(p, f)) by { reveal(lists_occs); }
            assert(added(a0, *self, p));
            assert(log_of(*self).unwrap().path =~= Seq::<int>::empty());
        }
    }
@*/
/*@ fn compile/assembler.rs Assembler::new
ret res
contract
    ensures res.buffer@.len() == 0, res.file == input,
@*/
/*@ fn compile/assembler.rs Assembler::assemble_fmp12
contract
    requires old(self).buffer@.len() == 0, file_fits(*old(self).file), encode_utf8(schema.name@).len() <= 1000,
    ensures lists(final(self).buffer@, *old(self).file),
at start
    hide(log_at); hide(walk); hide(rule); hide(is_encoding); hide(reads_noop); hide(lists_tables); hide(lists_occs);
    proof { lemma_utf8_cat(schema.name@, "/"@); reveal_strlit("/"); lemma_utf8_len("/"@); }
    let ghost mut a1 = *self;
    let ghost mut a2 = *self;
    let ghost mut pt = Seq::<Rec>::empty();
    let ghost mut po = Seq::<Rec>::empty();
    let ghost f = *self.file;
at call emit_noop 0 before
    proof {
        assert(self.idx == 8212);
        a1 = *self;
        assert(log_of(*self) == Some(blank())) by { reveal(log_at); reveal(walk); }
    }
at call emit_table_metadata 0 before
    let ghost m0 = *self;
    proof { assert(log_of(m0) == Some(blank())); assert(at_root(m0)); }
at call emit_table_metadata 0 after
    let ghost m1 = *self;
    proof { pt = choose|p: Seq<Rec>| #[trigger] added(m0, m1, p) && lists_tables(p, f); }
at call emit_relationship_data 0 after
    let ghost m2 = *self;
    proof { po = choose|p: Seq<Rec>| #[trigger] added(m1, m2, p) && lists_occs(p, f); }
at call emit_toolbar_data 0 after
    proof {
        a2 = *self;
        let all = pt + po + seq![layout_count(f), script_count(f)];
        assert(blank().recs + pt =~= pt);
        assert(pt + po + seq![layout_count(f)] + seq![script_count(f)] =~= all);
        assert(log_of(a2) == Some(Log { path: Seq::empty(), recs: all }));
        assert(listed(all, f, pt, po));
        assert forall|i: int| 0 <= i < a1.buffer@.len() && !(8212 <= i < a2.idx) implies a1.buffer@[i] == a2.buffer@[i] by { }
    }
at end
    proof {
        let c = self.buffer@;
        let e = a2.idx as int;
        assert(forall|i: int| 0 <= i < 3 * 4096 ==> c[i] == a2.buffer@[i]);
        assert(walk(a2.buffer@, 8212, e, blank()) == log_of(a2)) by { reveal(log_at); }
        lemma_walk_frame(a2.buffer@, c, 8212, e, blank());
        assert(content(c, e, f));
    }
@*/
}

/// everything noted in the directories of the lists
pub open spec fn listed(all: Seq<Rec>, f: FmpFile, pt: Seq<Rec>, po: Seq<Rec>) -> bool {
    lists_tables(pt, f) && lists_occs(po, f) && all == pt + po + seq![layout_count(f), script_count(f)]
}
/// sector 2: its records up to e, and only zeros behind them
pub open spec fn content(c: Seq<u8>, e: int, f: FmpFile) -> bool {
    &&& 8212 < e <= 3 * 4096
    &&& forall|i: int| e <= i < 3 * 4096 ==> c[i] == 0u8
    &&& walk(c, 8212, e, blank()).is_some()
    &&& walk(c, 8212, e, blank()).unwrap().path == Seq::<int>::empty()
    &&& exists|pt: Seq<Rec>, po: Seq<Rec>| #[trigger] listed(walk(c, 8212, e, blank()).unwrap().recs, f, pt, po)
}
pub open spec fn lists(c: Seq<u8>, f: FmpFile) -> bool {
    c.len() == 5 * 4096 && exists|e: int| #[trigger] content(c, e, f)
}

/// C29 on the real functions
pub fn c29_assemble(f: &FmpFile)
    requires file_fits(*f), encode_utf8(f.name@).len() <= 1000,
{
    let mut a = Assembler::new(f);
    a.assemble_fmp12(f);
    assert(lists(a.buffer@, *f));
}
} // verus!
fn main() {}
