// C03: text masking, /repo/src/encoding_util.rs
use vstd::prelude::*;
use vstd::utf8::*;
verus! {
//@ include mask_core.vi

/// C03: unmasking what was masked gives the text back, for every text
pub fn c03_roundtrip_exec(t: String) -> (r: String)
    ensures r@ == t@,
{
    let ghost s = t@;
    let e = fm_string_encrypt(t);
    let r = fm_string_decrypt(e.as_slice());
    proof {
        lemma_masked_twice(encode_utf8(s));
        encode_utf8_valid_utf8(s);
        encode_utf8_decode_utf8(s);
    }
    r
}

/// one masked byte per UTF-8 byte; masking is its own inverse on bytes
pub proof fn c03_involution(b: Seq<u8>)
    ensures masked(b).len() == b.len(), masked(masked(b)) == b,
{ lemma_masked_twice(b); }
} // verus!
fn main() {}
