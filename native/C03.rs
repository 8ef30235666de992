//@ mount encoding_util.rs
// C03 on the real functions: every single code point, random texts, random and invalid bytes.
use super::*;
use crate::vp_fw::{hex, run, Out};

pub fn vp_main() {
    run("mask and unmask: every Unicode scalar value alone, random texts of up to 300 characters; unmask: every 1- and 2-byte slice and random bytes; non-trivial: not empty", |c| {
        let round = |t: String| move || {
            let e = fm_string_encrypt(t.clone());
            let want: Vec<u8> = t.as_bytes().iter().map(|b| b ^ 0x5A).collect();
            if e != want { return Out::Bad(format!("masked as {}", hex(&e))); }
            let d = fm_string_decrypt(&e);
            if d == t { Out::Ok } else { Out::Bad(format!("unmasked as {:?}", d)) }
        };
        let un = |b: Vec<u8>| move || {
            let plain: Vec<u8> = b.iter().map(|x| x ^ 0x5A).collect();
            let want = String::from_utf8(plain).unwrap_or("value not utf-8.".to_string());
            let d = fm_string_decrypt(&b);
            if d == want { Out::Ok } else { Out::Bad(format!("unmasked as {:?}, expected {:?}", d, want)) }
        };
        c.case("roundtrip \"\"".into(), false, round(String::new()));
        let step = c.scale(7, 1);
        let mut cp = 0usize;
        while cp <= 0x10ffff {
            if let Some(ch) = char::from_u32(cp as u32) { c.case(format!("roundtrip U+{:04X}", cp), true, round(ch.to_string())); }
            cp += if cp < 0x900 { 1 } else { step };
        }
        for a in 0..=255u8 { c.case(format!("unmask {:02x}", a), true, un(vec![a])); for b in 0..=255u8 { c.case(format!("unmask {:02x}{:02x}", a, b), true, un(vec![a, b])); } }
        for n in [255usize, 256, 257, 1023, 1024, 4095, 4096, 4097, 32767, 32768, 65535, 65536, 65537, 100_000] { for k in 0..2 {
            let t = if k == 0 { c.rng.text(n) } else { c.rng.word(n) };
            c.case(format!("roundtrip {:?}", t), true, round(t.clone()));
            let b: Vec<u8> = t.bytes().map(|x| x ^ 0x5A).collect();
            c.case(format!("unmask {}", hex(&b)), true, un(b.clone()));
        } }
        for _ in 0..c.scale(3_000, 60_000) {
            if c.done() { break; }
            let n = c.rng.below(12);
            let t = c.rng.odd(n, "");
            c.case(format!("roundtrip {:?}", t), n > 0, round(t.clone()));
        }
        for _ in 0..c.scale(30_000, 500_000) {
            if c.done() { break; }
            let n = c.rng.below(if c.rng.chance(1, 20) { 300 } else { 12 });
            let t = c.rng.text(n);
            c.case(format!("roundtrip {:?}", t), n > 0, round(t.clone()));
            let mut b: Vec<u8> = t.bytes().map(|x| x ^ 0x5A).collect();
            if !b.is_empty() { let k = c.rng.below(b.len()); b[k] ^= 1 << c.rng.below(8); }
            c.case(format!("unmask {}", hex(&b)), n > 0, un(b.clone()));
            let m = c.rng.below(10);
            let r = c.rng.bytes(m);
            c.case(format!("unmask {}", hex(&r)), m > 0, un(r.clone()));
        }
    });
}
