//@ mount dbcharconv.rs
// C04 on the real functions. The oracle's table is its own copy of the format's codes.
use super::*;
use crate::vp_fw::{hex, run, Out};

const CODES: [(u8, u8, char); 29] = [
    (0x0, 0x0, '\0'), (0x2, 0xa, ' '), (0x2, 0x1d, '_'),
    (0x12, 0xf, 'a'), (0x12, 0x25, 'b'), (0x12, 0x3d, 'c'),
    (0x12, 0x50, 'd'), (0x12, 0x6b, 'e'), (0x12, 0xa3, 'f'),
    (0x12, 0xb0, 'g'), (0x12, 0xd3, 'h'), (0x12, 0xec, 'i'),
    (0x13, 0x5, 'j'), (0x13, 0x1e, 'k'), (0x13, 0x30, 'l'),
    (0x13, 0x5f, 'm'), (0x13, 0x6d, 'n'), (0x13, 0x8e, 'o'),
    (0x13, 0xb3, 'p'), (0x13, 0xc8, 'q'), (0x13, 0xda, 'r'),
    (0x14, 0x10, 's'), (0x14, 0x33, 't'), (0x14, 0x53, 'u'),
    (0x14, 0x7b, 'v'), (0x14, 0x8d, 'w'), (0x14, 0x97, 'x'),
    (0x14, 0x9c, 'y'), (0x14, 0xad, 'z')];

fn lower(c: char) -> char { if ('A'..='Z').contains(&c) { (c as u8 + 32) as char } else { c } }
fn code(c: char) -> (u8, u8) { CODES.iter().find(|x| x.2 == lower(c)).map(|x| (x.0, x.1)).unwrap_or((0, 0)) }
fn char_of(h: u8, l: u8) -> char { CODES.iter().find(|x| x.0 == h && x.1 == l).map(|x| x.2).unwrap_or('?') }
fn supported(c: char) -> bool { CODES.iter().any(|x| x.2 == lower(c)) }

pub fn vp_main() {
    run("decode_char: every pair; encode_char: every scalar value; encode_text and decode: random texts over the supported alphabet and beyond; non-trivial: not empty", |c| {
        for h in 0..=255u8 { for l in 0..=255u8 {
            c.case(format!("decode_char {:02x}{:02x}", h, l), true, || { let r = decode_char(h, l); if r == char_of(h, l) { Out::Ok } else { Out::Bad(format!("gave {:?}, expected {:?}", r, char_of(h, l))) } });
        } }
        let step = c.scale(11, 1);
        let mut cp = 0usize;
        while cp <= 0x10ffff {
            if let Some(ch) = char::from_u32(cp as u32) {
                c.case(format!("encode_char U+{:04X}", cp), true, || { let r = encode_char(ch); if r == code(ch) { Out::Ok } else { Out::Bad(format!("gave {:?}, expected {:?}", r, code(ch))) } });
            }
            cp += if cp < 0x3000 { 1 } else { step };
        }
        let text = |t: String| move || {
            let e = encode_text(&t);
            let want: Vec<u8> = t.chars().flat_map(|x| [code(x).0, code(x).1]).collect();
            if e != want { return Out::Bad(format!("encoded as {}, expected {}", hex(&e), hex(&want))); }
            if t.chars().all(supported) {
                let d: String = e.chunks(2).map(|p| decode_char(p[0], p[1])).collect();
                let w: String = t.chars().map(lower).collect();
                if d != w { return Out::Bad(format!("decodes to {:?}", d)); }
                let mut z = e.clone();
                z.extend([0, 0]);
                let d = decode_bytes(&z);
                if d != w { return Out::Bad(format!("decode_bytes gives {:?}", d)); }
            }
            Out::Ok
        };
        let ab: Vec<char> = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ _\0".chars().collect();
        c.case("text \"\"".into(), false, text(String::new()));
        for a in &ab { for b in &ab { let t: String = [*a, *b].iter().collect(); c.case(format!("text {:?}", t), true, text(t.clone())); } }
        for n in [127usize, 128, 255, 256, 257, 1024, 4096, 32767, 32768, 65535, 65536, 70_000] { let t: String = (0..n).map(|_| *c.rng.pick(&ab)).collect(); c.case(format!("text {:?}", t), true, text(t.clone())); }
        for _ in 0..c.scale(2_000, 40_000) { if c.done() { break; } let n = c.rng.below(8); let t = c.rng.odd(n, ""); c.case(format!("text {:?}", t), n > 0, text(t.clone())); }
        for _ in 0..c.scale(20_000, 400_000) {
            if c.done() { break; }
            let n = c.rng.below(if c.rng.chance(1, 20) { 400 } else { 20 });
            let t: String = if c.rng.chance(3, 4) { (0..n).map(|_| *c.rng.pick(&ab)).collect() } else { c.rng.text(n) };
            c.case(format!("text {:?}", t), n > 0, text(t.clone()));
        }
    });
}
