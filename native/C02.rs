//@ mount encoding_util.rs
// C02 on the real functions: every 1- and 2-byte pattern, every n up to 2^16 and random above.
use super::*;
use crate::vp_fw::{hex, run, Out};

pub fn vp_main() {
    run("decode: every 1- and 2-byte slice and other widths; encode and decode: every n below 65536, boundary and random above; non-trivial: all", |c| {
        for a in 0..=255u8 {
            c.case(format!("decode1 {:02x}", a), true, || if get_path_int(&[a]) == a as usize { Out::Ok } else { Out::Bad(format!("gave {}", get_path_int(&[a]))) });
            for b in 0..=255u8 {
                c.case(format!("decode2 {:02x}{:02x}", a, b), true, || if get_path_int(&[a, b]) == 0x80 + b as usize { Out::Ok } else { Out::Bad(format!("gave {}", get_path_int(&[a, b]))) });
            }
        }
        for w in [0usize, 3, 4, 5, 8, 200] { for _ in 0..100 {
            let b = c.rng.bytes(w);
            c.case(format!("decode-other {}", hex(&b)), true, || if get_path_int(&b) == 0 { Out::Ok } else { Out::Bad(format!("gave {}", get_path_int(&b))) });
        } }
        let enc = |n: u32| move || {
            let e = put_path_int(n);
            if n < 128 && e != vec![n as u8] { return Out::Bad(format!("encoded as {}", hex(&e))); }
            if n >= 128 && (e.len() != 2 || e[0] < 0x80) { return Out::Bad(format!("encoded as {}", hex(&e))); }
            let d = get_path_int(&e);
            if d == n as usize { return Out::Ok; }
            if n >= 384 && d == 128 + (n as usize - 128) % 256 { return Out::Known("C02-ALIAS", format!("decodes to {}", d)); }
            Out::Bad(format!("encoded as {}, decodes to {}", hex(&e), d))
        };
        for n in 0..65536u32 { c.case(format!("roundtrip {}", n), true, enc(n)); }
        for n in [65536u32, 1 << 20, u32::MAX, u32::MAX - 1, 1 << 31] { c.case(format!("roundtrip {}", n), true, enc(n)); }
        for _ in 0..c.scale(20_000, 1_000_000) { let n = c.rng.next() as u32; c.case(format!("roundtrip {}", n), true, enc(n)); }
    });
}
