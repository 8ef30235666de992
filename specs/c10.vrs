// C10: rendering of stored calculations; /repo/src/decompile/decompiler.rs, encoding_util.rs
use vstd::prelude::*;
use vstd::utf8::*;
use vstd::std_specs::iter::IteratorSpec;
verus! {
//@ include calc_core.vi
} // verus!
fn main() {}
