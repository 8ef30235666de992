// C24: decompiling a file; /repo/src/decompile/decompiler.rs, component.rs, file.rs
#![feature(allocator_api)]
use vstd::prelude::*;
use vstd::utf8::*;
use vstd::std_specs::iter::IteratorSpec;
use std::collections::HashMap;
verus! {
//@ include decomp_head.vi
/*@ fn decompile/decompiler.rs decompile_fmp12_file#3,17,5,0,251
sig
    fn arm_rel(fmp_file: &mut FmpFile, occurrence: usize, chunk: &Chunk)
contract
    requires st_rel(file_v(*old(fmp_file)), occurrence as int, ev_of(*chunk)).is_some(),
    ensures file_v(*final(fmp_file)) =~~= st_rel(file_v(*old(fmp_file)), occurrence as int, ev_of(*chunk)).unwrap(),
at start
    broadcast use vp_mv::group_decomp;
@*/
/*@ fn decompile/decompiler.rs decompile_fmp12_file#3,17,5,0,..
sig
    fn arm_occ(fmp_file: &mut FmpFile, occurrence: &mut usize, path: &Vec<String>, chunk: &Chunk)
byref occurrence
contract
    requires st_occ(file_v(*old(fmp_file)), *old(occurrence) as int, path@.len() as int, ev_of(*chunk)).is_some(),
    ensures file_v(*final(fmp_file)) =~~= st_occ(file_v(*old(fmp_file)), *old(occurrence) as int, path@.len() as int, ev_of(*chunk)).unwrap().0,
            *final(occurrence) as int == st_occ(file_v(*old(fmp_file)), *old(occurrence) as int, path@.len() as int, ev_of(*chunk)).unwrap().1,
opt drop-print
at start
    broadcast use vp_mv::group_decomp;
@*/
/*@ fn decompile/decompiler.rs decompile_fmp12_file#3,251,5,_,3
sig
    fn arm_criterion(fmp_file: &mut FmpFile, $0: &str, chunk: &Chunk)
contract
    requires st_criterion(file_v(*old(fmp_file)), num_of($0@), ev_of(*chunk)).is_some(),
    ensures file_v(*final(fmp_file)) =~~= st_criterion(file_v(*old(fmp_file)), num_of($0@), ev_of(*chunk)).unwrap(),
at start
    broadcast use vp_mv::group_decomp;
@*/
/*@ fn decompile/decompiler.rs decompile_fmp12_file#4,1,7,_,..
sig
    fn arm_layout(fmp_file: &mut FmpFile, $0: &str, Ghost(len): Ghost<int>, chunk: &Chunk)
contract
    requires st_layout(file_v(*old(fmp_file)), num_of($0@), len, ev_of(*chunk)).is_some(),
    ensures file_v(*final(fmp_file)) =~~= st_layout(file_v(*old(fmp_file)), num_of($0@), len, ev_of(*chunk)).unwrap(),
at start
    broadcast use vp_mv::group_decomp;
@*/
/*@ fn decompile/decompiler.rs decompile_fmp12_file#_,3,5,_
sig
    fn arm_field(fmp_file: &mut FmpFile, $0: &str, $1: &str, chunk: &Chunk)
contract
    requires st_field(file_v(*old(fmp_file)), num_of($0@), num_of($1@), ev_of(*chunk)).is_some(),
    ensures file_v(*final(fmp_file)) =~~= st_field(file_v(*old(fmp_file)), num_of($0@), num_of($1@), ev_of(*chunk)).unwrap(),
at start
    broadcast use vp_mv::group_decomp;
@*/
/*@ fn decompile/decompiler.rs decompile_fmp12_file#3,16,5,_
sig
    fn arm_table(fmp_file: &mut FmpFile, $0: &str, chunk: &Chunk)
contract
    requires st_table(file_v(*old(fmp_file)), num_of($0@), ev_of(*chunk)).is_some(),
    ensures file_v(*final(fmp_file)) =~~= st_table(file_v(*old(fmp_file)), num_of($0@), ev_of(*chunk)).unwrap(),
at start
    broadcast use vp_mv::group_decomp;
@*/
/*@ fn decompile/decompiler.rs decompile_fmp12_file#17,5,_,4
sig
    fn arm_segment(script_segments: &mut HashMap<usize, VpBMap<usize, Vec<u8>>>, $0: &str, chunk: &Chunk)
byref script_segments
contract
    requires st_segment(segs_v(old(script_segments)@), num_of($0@), ev_of(*chunk)).is_some(),
    ensures segs_v(final(script_segments)@) =~~= st_segment(segs_v(old(script_segments)@), num_of($0@), ev_of(*chunk)).unwrap(),
at start
    broadcast use vp_mv::group_decomp;
@*/
/*@ fn decompile/decompiler.rs decompile_fmp12_file#32,5,_,..
sig
    fn arm_source(fmp_file: &mut FmpFile, $0: &str, Ghost(len): Ghost<int>, chunk: &Chunk)
contract
    requires st_source(file_v(*old(fmp_file)), num_of($0@), len, ev_of(*chunk)).is_some(),
    ensures file_v(*final(fmp_file)) =~~= st_source(file_v(*old(fmp_file)), num_of($0@), len, ev_of(*chunk)).unwrap(),
at start
    broadcast use vp_mv::group_decomp;
@*/
/*@ fn decompile/decompiler.rs decompile_fmp12_file#17,1,_,_,..
sig
    fn arm_script(fmp_file: &mut FmpFile, $0: &str, $1: &str, Ghost(len): Ghost<int>, chunk: &Chunk)
contract
    requires st_script(file_v(*old(fmp_file)), num_of($1@), len, ev_of(*chunk)).is_some(),
    ensures file_v(*final(fmp_file)) =~~= st_script(file_v(*old(fmp_file)), num_of($1@), len, ev_of(*chunk)).unwrap(),
at start
    broadcast use vp_mv::group_decomp;
@*/
impl SourceFileLocation {
/*@ fn component.rs SourceFileLocation::from_bytes
opt ref-elems
ret res
contract
    requires is_location(bytes@),
    ensures res.source_type@ == location_kind(bytes@), res.source_path@ == location_path(bytes@), res.source_filename@ == location_file(bytes@),
at start
    broadcast use vp_mv::group_decomp;
    reveal(is_location); reveal(location_kind); reveal(location_path); reveal(location_file);
at call windows 0 before
    let ghost b = body@;
    let ghost p = choose|p: int| first_marker(b, p);
    proof {
        assert(b == body_of(bytes@));
        lemma_marker(b, p);
        assert(b.subrange(p, p + 2).len() == 2);
    }
at call windows 0 after
    assert(path_start == length_at(b));
at call flatten 0 after
    proof {
        assert(path@ == path_parts(path_bytes@));
    }
closure 0 (&[u8]) -> (b: bool) requires $0@.len() == 2 ensures b == ($0@[0] == 65 && $0@[1] == 50)
closure 1 (&u8) -> (r: Vec<&u8>) ensures r@.len() == 1, *r@[0] == *$0
closure 2 (Vec<&u8>) -> (r: Vec<u8>) requires $0@.len() == 1 ensures r@ =~= path_part(*$0@[0])
closure 3 (&u8) -> (r: u8) ensures r == *$0
@*/
}
/*@ fn decompile/decompiler.rs step_with_id
ret res
contract
    ensures res.is_some() == has_step(steps_v(old(instructions)@), id as int),
            res matches Some(x) ==> ({
                let k = first_at(steps_v(old(instructions)@), id as int);
                0 <= k < old(instructions)@.len() && *x == old(instructions)@[k] && final(instructions)@ == old(instructions)@.update(k, *final(x))
            }),
            res.is_none() ==> *final(instructions) == *old(instructions),
loop 0 iter it
    invariant
        *instructions == *old(instructions),
        it.seq().len() == instructions@.len(),
        forall|j: int| 0 <= j < it.index@ ==> (#[trigger] steps_v(instructions@)[j]).id != id,
at return 0
    proof { lemma_first(steps_v(instructions@), id as int, i as int); }
at start
    broadcast use vp_mv::group_decomp;
@*/

/*@ fn decompile/decompiler.rs decompile_fmp12_file#17,5,_,5,_,128,5
sig
    fn arm_arg2(fmp_file: &mut FmpFile, $0: &str, $1: &str, chunk: &Chunk)
contract
    requires st_arg2(file_v(*old(fmp_file)), num_of($0@), num_of($1@), ev_of(*chunk)).is_some(),
    ensures file_v(*final(fmp_file)) =~~= st_arg2(file_v(*old(fmp_file)), num_of($0@), num_of($1@), ev_of(*chunk)).unwrap(),
at start
    broadcast use vp_mv::group_decomp;
    proof { match chunk.ref_simple { Some(k) => lemma_small(k), None => lemma_small(0) } }
@*/
/*@ fn decompile/decompiler.rs decompile_fmp12_file#17,5,_,5,_,128
sig
    fn arm_arg1(fmp_file: &mut FmpFile, $0: &str, $1: &str, chunk: &Chunk)
contract
    requires st_arg1(file_v(*old(fmp_file)), num_of($0@), num_of($1@), ev_of(*chunk)).is_some(),
    ensures file_v(*final(fmp_file)) =~~= st_arg1(file_v(*old(fmp_file)), num_of($0@), num_of($1@), ev_of(*chunk)).unwrap(),
at start
    broadcast use vp_mv::group_decomp;
    proof { match chunk.ref_simple { Some(k) => lemma_small(k), None => lemma_small(0) } }
@*/
/*@ fn decompile/decompiler.rs decompile_fmp12_file#17,5,_,5,_,129,5
sig
    fn arm_arg3(fmp_file: &mut FmpFile, $0: &str, $1: &str, chunk: &Chunk)
contract
    requires st_arg3(file_v(*old(fmp_file)), num_of($0@), num_of($1@), ev_of(*chunk)).is_some(),
    ensures file_v(*final(fmp_file)) =~~= st_arg3(file_v(*old(fmp_file)), num_of($0@), num_of($1@), ev_of(*chunk)).unwrap(),
at start
    broadcast use vp_mv::group_decomp;
    proof { match chunk.ref_simple { Some(k) => lemma_small(k), None => lemma_small(0) } }
@*/

//@ include code_core.vi

//@ include sector_core.vi
//@ include decomp_run.vi
/*@ fn decompile/decompiler.rs decompile_fmp12_file#*
opt own-solver
sig
    fn dispatch(fmp_file: &mut FmpFile, script_segments: &mut HashMap<usize, VpBMap<usize, Vec<u8>>>, occurrence: &mut usize, path: &Vec<String>, chunk: &Chunk, Ghost(dirs): Ghost<Seq<int>>)
contract
    requires numbers(dirs), texts(path@) == dec_path(dirs),
             step(st_of(*old(fmp_file), old(script_segments)@, *old(occurrence)), dirs, ev_of(*chunk)).is_some(),
    ensures st_of(*final(fmp_file), final(script_segments)@, *final(occurrence)) == step(st_of(*old(fmp_file), old(script_segments)@, *old(occurrence)), dirs, ev_of(*chunk)).unwrap(),
arm 3,17,5,0,251 arm_rel(fmp_file, *occurrence, chunk);
arm 3,17,5,0,.. arm_occ(fmp_file, occurrence, path, chunk);
arm 3,251,5,_,3 arm_criterion(fmp_file, $0, chunk);
arm 4,1,7,_,.. arm_layout(fmp_file, $0, Ghost(path@.len() as int), chunk);
arm _,3,5,_ arm_field(fmp_file, $0, $1, chunk);
arm 3,16,5,_ arm_table(fmp_file, $0, chunk);
arm 17,5,_,4 arm_segment(script_segments, $0, chunk);
arm 17,5,_,5,_,128,5 arm_arg2(fmp_file, $0, $1, chunk);
arm 17,5,_,5,_,128 arm_arg1(fmp_file, $0, $1, chunk);
arm 17,5,_,5,_,129,5 arm_arg3(fmp_file, $0, $1, chunk);
arm 17,5,_,.. arm_code(fmp_file, script_segments, $0, path, chunk);
arm 17,1,_,_,.. arm_script(fmp_file, $0, $1, Ghost(path@.len() as int), chunk);
arm 32,5,_,.. arm_source(fmp_file, $0, Ghost(path@.len() as int), chunk);
at start
    hide(st_rel); hide(st_occ); hide(st_criterion); hide(st_layout); hide(st_field); hide(st_table); hide(st_segment); hide(st_arg1); hide(st_arg2); hide(st_arg3);
    hide(st_code); hide(st_script); hide(st_source); hide(file_v); hide(segs_v); hide(num_of);
    broadcast use vp_mv::group_decomp;
    proof {
        lemma_path(dirs); lemma_literals();
        assert(texts(path@).len() == dec_path(dirs).len() && dec_path(dirs).len() == dirs.len());
        assert forall|i: int| 0 <= i < path@.len() implies (#[trigger] path@[i])@ == dec_text(dirs[i]) && num_of(path@[i]@) == Some(dirs[i]) && dirs[i] >= 0 by {
            assert(path@[i]@ == texts(path@)[i]);
            assert(plain(dirs, i));
        }
    }
@*/

/*@ fn decompile/decompiler.rs decompile_fmp12_file
opt own-solver
ret res
contract
    requires path.bytes() matches Some(b) && contents(b).is_some(),
    ensures file_v(res) =~~= contents(path.bytes().unwrap()).unwrap(),
arm * dispatch(&mut fmp_file, &mut script_segments, &mut occurrence, &path, &chunk, Ghost(dirs));
at call resize 0 before
    proof {
        assert(buffer@ =~= path.bytes().unwrap());
        assert(buffer@.skip(4096).subrange(8, 12) =~= buffer@.subrange(4104, 4108));
        assert(n_blocks == following(buffer@, 1));
    }
at loop 0 before
    let ghost c = buffer@;
    let ghost all = sectors_from(c, 2, nothing_yet(), (c.len() / 4096) as nat);
    let ghost mut fuel: nat = (c.len() / 4096) as nat;
    proof {
        assert(c =~= path.bytes().unwrap());
        assert(c.skip(4096).subrange(8, 12) =~= c.subrange(4104, 4108));
        assert(st_of(fmp_file, script_segments@, occurrence) =~~= nothing_yet());
    }
loop 0
    invariant
        buffer@ == c, path.bytes() == Some(c), contents(c).is_some(),
        sectors@.len() == following(c, 1) + 1,
        all == sectors_from(c, 2, nothing_yet(), (c.len() / 4096) as nat),
        sectors_from(c, idx as int, st_of(fmp_file, script_segments@, occurrence), fuel) == all,
    decreases fuel
at loop 1 before
    let ghost mut dirs: Seq<int> = Seq::empty();
    let ghost whole = chunks_in(c, start + 20, bound as int, Seq::empty(), st_of(fmp_file, script_segments@, occurrence));
    proof {
        assert(c.skip(start as int).subrange(8, 12) =~= c.subrange(idx * 4096 + 8, idx * 4096 + 12));
        assert(texts(path@) =~= dec_path(dirs));
    }
loop 1
    invariant
        buffer@ == c, numbers(dirs), texts(path@) == dec_path(dirs), whole.is_some(), bound <= c.len(),
        chunks_in(c, offset as int, bound as int, dirs, st_of(fmp_file, script_segments@, occurrence)) == whole,
    decreases (if offset < bound { bound - offset } else { 0 }),
at loop 1 start
    let ghost o = offset as int;
    let ghost before = dirs;
    proof { lemma_dirs(c, o, dirs); dirs = dirs_after(c, o, dirs); }
at call dispatch 0 before
    proof { assert(ev_of(chunk) =~~= ev_at(c, o)); }
at loop 0 end
    proof { fuel = (fuel - 1) as nat; }
at loop 2 before
    let ghost s0 = st_of(fmp_file, script_segments@, occurrence);
    proof { assert(finished(s0.file, Map::empty()).scripts =~= s0.file.scripts); }
loop 2 iter it
    invariant
        can_finish(s0.file, s0.segs),
        forall|i: int| 0 <= i < it.seq().len() ==> s0.segs.contains_key((#[trigger] it.seq()[i]).0) && s0.segs[it.seq()[i].0] == bytes_v(it.seq()[i].1),
        forall|i: int, j: int| 0 <= i < j < it.seq().len() ==> (#[trigger] it.seq()[i]).0 != (#[trigger] it.seq()[j]).0,
        forall|k: usize| #[trigger] s0.segs.contains_key(k) ==> exists|i: int| 0 <= i < it.seq().len() && (#[trigger] it.seq()[i]).0 == k,
        file_v(fmp_file) == finished(s0.file, taken(it.seq(), it.index@ as int)),
        contents(c) == Some(finished(s0.file, s0.segs)),
        it.index@ == it.seq().len() ==> file_v(fmp_file) == finished(s0.file, s0.segs),
at loop 2 start
    let ghost vs = it.seq();
    let ghost k = it.index@ as int;
    proof {
        lemma_taken(vs, s0.segs, k);
        assert(vs[k].0 == script && vs[k].1 == segments);
        lemma_finish(s0.file, s0.segs, taken(vs, k), script);
    }
at loop 2 end
    proof {
        lemma_taken(vs, s0.segs, k + 1);
        assert(k + 1 == vs.len() ==> taken(vs, k + 1) =~= s0.segs);
    }
at start
    broadcast use vp_mv::group_decomp;
@*/

// ---- what the contract says about the parts of a file ------------------------------------------------
/// nothing that was recovered is lost again
pub open spec fn grows(f: FileV, g: FileV) -> bool {
    &&& forall|k: usize| #[trigger] f.tables.contains_key(k) ==> g.tables.contains_key(k)
    &&& forall|k: usize, y: u16| f.tables.contains_key(k) && #[trigger] f.tables[k].fields.contains_key(y) ==> g.tables[k].fields.contains_key(y)
    &&& forall|k: usize| #[trigger] f.occs.contains_key(k) ==> g.occs.contains_key(k)
    &&& forall|k: usize| #[trigger] f.rels.contains_key(k) ==> g.rels.contains_key(k)
    &&& forall|k: usize| #[trigger] f.layouts.contains_key(k) ==> g.layouts.contains_key(k)
    &&& forall|k: usize| #[trigger] f.sources.contains_key(k) ==> g.sources.contains_key(k)
    &&& forall|k: usize| #[trigger] f.scripts.contains_key(k) ==> g.scripts.contains_key(k) && f.scripts[k].steps.len() <= g.scripts[k].steps.len()
}
#[verifier::spinoff_prover]
pub proof fn c24_step_grows(s: St, p: Seq<int>, e: Ev)
    requires step(s, p, e).is_some(),
    ensures grows(s.file, step(s, p, e).unwrap().file),
{
}
pub proof fn c24_chunks_grow(c: Seq<u8>, o: int, bound: int, p: Seq<int>, s: St)
    requires chunks_in(c, o, bound, p, s).is_some(),
    ensures grows(s.file, chunks_in(c, o, bound, p, s).unwrap().file),
    decreases (if o < bound { bound - o } else { 0 }),
{
    if o < bound {
        let q = dirs_after(c, o, p);
        c24_step_grows(s, q, ev_at(c, o));
        c24_chunks_grow(c, rule(c, o).unwrap().next, bound, q, step(s, q, ev_at(c, o)).unwrap());
    }
}
pub proof fn c24_sectors_grow(c: Seq<u8>, k: int, s: St, fuel: nat)
    requires sectors_from(c, k, s, fuel).is_some(),
    ensures grows(s.file, sectors_from(c, k, s, fuel).unwrap().file),
    decreases fuel,
{
    if k != 0 {
        c24_chunks_grow(c, k * 4096 + 20, k * 4096 + 4096, Seq::empty(), s);
        c24_sectors_grow(c, following(c, k), chunks_in(c, k * 4096 + 20, k * 4096 + 4096, Seq::empty(), s).unwrap(), (fuel - 1) as nat);
    }
}
pub proof fn c24_finish_grows(f: FileV, g: Segs)
    ensures grows(f, finished(f, g)),
{
}
/// every part of the file is only touched by its own directories
#[verifier::spinoff_prover]
pub proof fn c24_own_directories(s: St, p: Seq<int>, e: Ev)
    requires step(s, p, e).is_some(),
    ensures ({
        let t = step(s, p, e).unwrap();
        &&& !in4(p, 3, 17, 5, 0) ==> t.file.occs == s.file.occs && t.occ == s.occ
        &&& !in2(p, 3, 17) && !in2(p, 3, 251) ==> t.file.rels == s.file.rels
        &&& !in3(p, 4, 1, 7) ==> t.file.layouts == s.file.layouts
        &&& !in3(p, 3, 16, 5) && !(p.len() == 4 && p[1] == 3 && p[2] == 5) ==> t.file.tables == s.file.tables
        &&& !in2(p, 17, 5) && !in2(p, 17, 1) ==> t.file.scripts == s.file.scripts
        &&& !in2(p, 17, 5) ==> t.segs == s.segs
        &&& !in2(p, 32, 5) ==> t.file.sources == s.file.sources
    }),
{
}
/// the name record of a component gives that component its name, and no other
#[verifier::spinoff_prover]
pub proof fn c24_names(s: St, e: Ev, n: int, y: int)
    requires rec(e, 16), e.kind == ChunkType::RefSimple, e.data.is_some(), 0 <= n <= 0xFFFF, 0 <= y <= 0xFFFF,
    ensures ({
        let name = unmasked_text(e.data.unwrap()); let k = n as usize;
        &&& step(s, seq![3int, 16, 5, n + 128], e) matches Some(t) ==> t.file.tables == s.file.tables.insert(k, TableV { name, ..s.file.tables[k] })
        &&& n + 128 != 3 && n + 128 != 4 && n + 128 != 17 && (step(s, seq![n + 128, 3, 5, y], e) matches Some(t) ==>
                t.file.tables == s.file.tables.insert(k, TableV { fields: s.file.tables[k].fields.insert(y as u16, FieldV { name, ..s.file.tables[k].fields[y as u16] }), ..s.file.tables[k] }))
        &&& step(s, seq![4int, 1, 7, n], e) matches Some(t) ==> (s.file.layouts.contains_key(k) ==> t.file.layouts == s.file.layouts.insert(k, LayoutV { name, ..s.file.layouts[k] }))
        &&& step(s, seq![32int, 5, n], e) matches Some(t) ==> (s.file.sources.contains_key(k) ==> t.file.sources == s.file.sources.insert(k, SourceV { name, ..s.file.sources[k] }))
        &&& step(s, seq![17int, 1, y, n], e) matches Some(t) ==> t.file.scripts.contains_key(k) && t.file.scripts[k].name == name
                && (s.file.scripts.contains_key(k) ==> t.file.scripts[k].steps == s.file.scripts[k].steps) && t.file.scripts.remove(k) =~= s.file.scripts.remove(k)
        &&& 0 <= s.occ <= 0xFFFF ==> (step(s, seq![3int, 17, 5, 0], e) matches Some(t) ==>
                t.file.occs == s.file.occs.insert(s.occ as usize, OccV { name, ..s.file.occs[s.occ as usize] }))
    }),
{
}

} // verus!
fn main() {}
