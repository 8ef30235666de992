// C06: chunk consumption and directory path, /repo/src/chunk.rs
use vstd::prelude::*;
verus! {
//@ include chunk_core.vi
/// C06: every chunk of the format is at least one byte long, and covers what decoding it reads, apart
/// from the two length-prefixed forms whose stated length may be shorter than their fixed part
pub proof fn c06_progress(c: Seq<u8>, o: int)
    requires fits(c, o), rule(c, o).is_some(),
    ensures rule(c, o).unwrap().next > o,
            op_of(c, o) != 0x38 ==> rule(c, o).unwrap().reads <= rule(c, o).unwrap().next,
{}
} // verus!
fn main() {}
