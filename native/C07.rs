//@ mount decompile/sector.rs
// C07 on the real function: each header byte varied alone, random headers, lengths 20 and up.
use super::*;
use crate::vp_fw::{hex, run, Out};

fn judge(b: Vec<u8>) -> impl FnOnce() -> Out {
    move || {
        let s = get_sector(&b);
        let be = |i: usize| u32::from_be_bytes([b[i], b[i + 1], b[i + 2], b[i + 3]]);
        if s.deleted != (b[0] != 0) { return Out::Bad(format!("deleted {}", s.deleted)); }
        if s.level != b[1] as u32 { return Out::Bad(format!("level {}", s.level)); }
        if s.previous != be(4) { return Out::Bad(format!("previous {}", s.previous)); }
        if s.next != be(8) as usize { return Out::Bad(format!("next {}", s.next)); }
        if s.payload != &b[20..] { return Out::Bad(format!("payload of {} bytes starting {:?}", s.payload.len(), &s.payload[..s.payload.len().min(8)])); }
        if !s.chunks.is_empty() { return Out::Bad("chunks not empty".into()); }
        Out::Ok
    }
}

pub fn vp_main() {
    run("each of the first 24 bytes at every value with the rest random or zero, random sectors of 20 to 60 and 4096 bytes; non-trivial: all", |c| {
        for i in 0..24usize { for v in 0..=255u8 { for z in 0..2 {
            let mut b = if z == 0 { vec![0u8; 28] } else { c.rng.bytes(28) };
            b[i] = v;
            c.case(format!("sector {}", hex(&b)), true, judge(b.clone()));
        } } }
        for n in 20..60usize { for _ in 0..c.scale(200, 5000) { let b = c.rng.bytes(n); c.case(format!("sector {}", hex(&b)), true, judge(b.clone())); } }
        for n in [4096usize + 1, 5000, 8192, 65535, 65536, 70_000] { let b = c.rng.bytes(n); c.case(format!("sector {}", hex(&b)), true, judge(b.clone())); }
        for k in 0..c.scale(100, 2000) { let mut b = c.rng.bytes(4096); if k % 2 == 0 { b[0] = 0; } c.case(format!("sector4096 {}", hex(&b[..64])), true, judge(b.clone())); }
    });
}
