// C05: contents of a decoded chunk, /repo/src/chunk.rs
use vstd::prelude::*;
verus! {
//@ include chunk_core.vi
} // verus!
fn main() {}
