// C07: sector headers, /repo/src/decompile/sector.rs
use vstd::prelude::*;
verus! {
//@ include sector_core.vi

/// C07 for whole sectors: the payload is the 4076 bytes after the header
pub proof fn c07_whole(s: Seq<u8>, r: Sector)
    requires s.len() == 4096, is_header(s, r),
    ensures r.payload@.len() == 4076, forall|i: int| 0 <= i < 4076 ==> r.payload@[i] == s[i + 20],
{}
} // verus!
fn main() {}
