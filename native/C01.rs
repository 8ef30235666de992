//@ mount encoding_util.rs
// C01 on the real functions: every 1- and 2-byte pattern, boundary and random 4-byte values.
use super::*;
use crate::vp_fw::{hex, run, Out};

fn be(b: &[u8]) -> usize {
    match b.len() {
        1 | 2 | 4 => b.iter().fold(0usize, |a, x| a * 256 + *x as usize),
        _ => 0,
    }
}

pub fn vp_main() {
    run("decode: all 1-byte, all 2-byte, boundary and random 4-byte patterns and other widths against the big-endian value; encode: boundary and random n < 2^32; non-trivial: value not 0", |c| {
        let dec = |b: Vec<u8>| move || {
            let r = get_int(&b);
            if r == be(&b) { Out::Ok } else { Out::Bad(format!("get_int gave {}, the bytes mean {}", r, be(&b))) }
        };
        let enc = |n: usize| move || {
            let e = put_int(n);
            if e.len() != 4 || e.iter().fold(0usize, |a, x| a * 256 + *x as usize) != n { return Out::Bad(format!("put_int gave {}", hex(&e))); }
            if get_int(&e) != n { return Out::Bad(format!("read back as {}", get_int(&e))); }
            Out::Ok
        };
        for a in 0..=255u8 { c.case(format!("decode {}", hex(&[a])), a != 0, dec(vec![a])); }
        for a in 0..=255u8 { for b in 0..=255u8 { c.case(format!("decode {}", hex(&[a, b])), a != 0 || b != 0, dec(vec![a, b])); } }
        for w in [0usize, 3, 5, 6, 7, 8, 9, 16] { for _ in 0..200 { let b = c.rng.bytes(w); c.case(format!("decode {}", hex(&b)), w > 0, dec(b)); } }
        for sh in 0..32 { for d in [-1i64, 0, 1] {
            let n = (1i64 << sh) + d;
            c.case(format!("encode {}", n), n != 0, enc(n as usize));
            c.case(format!("decode {}", hex(&(n as u32).to_be_bytes())), true, dec((n as u32).to_be_bytes().to_vec()));
        } }
        c.case("encode 4294967295".into(), true, enc(0xffff_ffff));
        for k in 0..4 { for v in 0..=255u32 {
            let n = (v << (8 * k)) as usize;
            c.case(format!("encode {}", n), n != 0, enc(n));
            c.case(format!("decode {}", hex(&(n as u32).to_be_bytes())), true, dec((n as u32).to_be_bytes().to_vec()));
            for m in 0..=255u32 { let n = ((v << (8 * k)) | m.rotate_left(8 * ((k + 1) % 4))) as usize & 0xffff_ffff; c.case(format!("encode {}", n), n != 0, enc(n)); }
        } }
        let n = c.scale(100_000, 3_000_000);
        for _ in 0..n {
            if c.done() { break; }
            let sh = c.rng.below(32);
            let x = (c.rng.next() as u32 >> sh) as usize;
            c.case(format!("encode {}", x), x != 0, enc(x));
            c.case(format!("decode {}", hex(&(x as u32).to_be_bytes())), x != 0, dec((x as u32).to_be_bytes().to_vec()));
        }
    });
}
