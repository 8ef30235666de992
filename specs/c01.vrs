// C01: fixed-width integers, /repo/src/encoding_util.rs
use vstd::prelude::*;
verus! {
//@ include enc_core.vi

/// C01: decoding what was encoded gives the integer back
pub proof fn c01_roundtrip(n: int, enc: Seq<u8>)
    requires 0 <= n < 0x1_0000_0000, enc.len() == 4, be_val(enc) == n,   // = put_int's postcondition
    ensures int_val(enc) == n,                                          // = what get_int returns for it
{}

pub fn c01_roundtrip_exec(n: usize) -> (r: usize)
    requires n < 0x1_0000_0000,
    ensures r == n,
{
    let e = put_int(n);
    get_int(e.as_slice())
}
} // verus!
fn main() {}
