// C04: two-byte name codec, /repo/src/dbcharconv.rs
use vstd::prelude::*;
use vstd::std_specs::iter::IteratorSpec;
verus! {
//@ include name_dec.vi

/// every pair of table entries differs in code and in character
pub proof fn c04_table_injective()
    ensures table_injective(),
{
}

/// no two supported characters share a code
pub proof fn c04_codes_distinct(a: char, b: char, h: u8, l: u8)
    requires supported(a), supported(b), is_code(a, h, l), is_code(b, h, l),
    ensures lower(a) == lower(b),
{
    c04_table_injective();
}

/// C04: for every text over the supported alphabet, whatever encode_text and decode_char
/// return (as fixed by their contracts) compose to the lower-cased text
pub proof fn c04_roundtrip(t: Seq<char>, b: Seq<u8>, r: Seq<char>)
    requires
        forall|i: int| 0 <= i < t.len() ==> supported(#[trigger] t[i]),
        is_encoding(t, b), is_decoding(b, r),
    ensures r == lower_text(t),
{
    c04_table_injective();
    assert forall|i: int| 0 <= i < t.len() implies r[i] == lower(#[trigger] t[i]) by {
        assert(is_code(t[i], b[2 * i], b[2 * i + 1]));
        assert(is_char_of(b[2 * i], b[2 * i + 1], r[i]));
    }
    assert(r =~= lower_text(t));
}

/// the same on the code: a single character through both functions
pub fn c04_roundtrip_exec(c: char) -> (r: char)
    ensures supported(c) ==> r == lower(c),
{
    let (h, l) = encode_char(c);
    proof { c04_table_injective(); }
    decode_char(h, l)
}
} // verus!
fn main() {}
