// C02: path integers, /repo/src/encoding_util.rs
use vstd::prelude::*;
verus! {
//@ include path_core.vi

/// C02: decoding what was encoded gives the integer back
pub fn c02_roundtrip_exec(n: u32) -> (r: usize)
    requires n < 384,
    ensures r == n,
{
    let e = put_path_int(n);
    get_path_int(e.as_slice())
}

/// known finding C02-ALIAS: from 384 on the decoded value is 128 + (n-128) % 256
pub fn c02_known_alias(n: u32) -> (r: usize)
    requires n >= 384,
    ensures r == 128 + (n - 128) % 256, r != n,
{
    let e = put_path_int(n);
    get_path_int(e.as_slice())
}
} // verus!
fn main() {}
