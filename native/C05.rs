//@ mount chunk.rs
// C05 on the real decoder against the layout oracle, every opcode.
use super::*;
use crate::vp_fw::{hex, run, Out};
include!("chunk_oracle.inc");

fn slice(c: &[u8], w: Option<(usize, usize)>) -> Option<Vec<u8>> { w.map(|(a, n)| c[a..a + n].to_vec()) }

fn judge(c: Vec<u8>, o: usize) -> impl FnOnce() -> Out {
    move || {
        let want = match rule(&c, o) { Ok(w) => w, Err(()) => return Out::Ok };
        let mut off = o;
        let mut path = vec!["3".to_string(), "17".to_string()];
        let got = get_chunk_from_code(&c, &mut off, &mut path, o.saturating_sub(c[o] as usize));
        match (got, want) {
            (Err(_), None) => Out::Ok,
            (Err(e), Some(_)) => Out::Bad(format!("rejected: {}", e)),
            (Ok(ch), None) => Out::Bad(format!("accepted as {:?}", ch)),
            (Ok(ch), Some(r)) => {
                let op = if c[o] >= 0xC0 { c[o] - 0xC0 } else { c[o] };
                if ch.ctype.clone() as usize != r.kind { return Out::Bad(format!("kind {:?}, expected number {}", ch.ctype, r.kind)); }
                if ch.code != op as u16 { return Out::Bad(format!("code {:x}, expected {:x}", ch.code, op)); }
                if ch.ref_simple.map(|x| x as usize) != r.simple { return Out::Bad(format!("short reference {:?}, expected {:?}", ch.ref_simple, r.simple)); }
                if ch.segment_idx.map(|x| x as usize) != r.seg { return Out::Bad(format!("segment {:?}, expected {:?}", ch.segment_idx, r.seg)); }
                if ch.ref_data.map(|x| x.to_vec()) != slice(&c, r.rf) { return Out::Bad(format!("long reference {:?}, expected bytes {:?} of the input", ch.ref_data, r.rf)); }
                if ch.data.map(|x| x.to_vec()) != slice(&c, r.data) { return Out::Bad(format!("payload {:?}, expected bytes {:?} of the input", ch.data, r.data)); }
                Out::Ok
            }
        }
    }
}

pub fn vp_main() {
    run("one chunk per case: every opcode byte, operand bytes and lengths random with boundary values, at offset 0 and inside a larger buffer; non-trivial: operands complete", |c| {
        // payloads at the ends of what the length bytes can say, with references of several sizes
        let n = |v: &mut Vec<u8>, n: usize, c: &crate::vp_fw::Ctx| { let l = v.len() + n; while v.len() < l { v.push(c.rng.byte()); } };
        for len in [0x7Fusize, 0x80, 0xFF, 0x100, 0x1FF, 0x3FF, 0x400, 0x7FE, 0x7FF, 0x800, 0xFFF, 0x1000, 0x3FFF, 0x4000, 0x7FFE, 0x7FFF, 0x8000, 0x8001, 0xBFFF, 0xC000, 0xFFFE, 0xFFFF] {
            for base in [0x07u8, 0x0F, 0x17, 0x1F] { for up in [0u8, 0xC0] { for short in [0usize, 1] {
                if c.done() { return; }
                let op = base.wrapping_add(up);
                let mut b = vec![op];
                let (hi, lo) = ((len >> 8) as u8, len as u8);
                match base {
                    0x07 => b.extend([c.rng.byte(), hi, lo]),
                    0x0F => b.extend([0x80, c.rng.byte(), hi, lo]),
                    0x17 => b.extend([c.rng.byte(), c.rng.byte(), c.rng.byte(), hi, lo]),
                    _ => { let k = c.rng.below(30); b.push(k as u8); n(&mut b, k, c); b.extend([hi, lo]); }
                }
                n(&mut b, len, c);
                if short == 1 { b.pop(); } else { let k = c.rng.below(9); n(&mut b, k, c); }
                c.case(format!("chunk {} at 0", hex(&b)), rule(&b, 0).is_ok(), judge(b.clone(), 0));
            } } }
        }
        let reps = c.scale(400, 8000);
        for k in 0..reps {
            for op in 0..=255u8 {
                if c.done() { return; }
                let pre = if k % 3 == 0 { 0 } else { c.rng.below(40) };
                let mut b = c.rng.bytes(pre);
                b.extend(gen_chunk(&c.rng, op));
                if k % 2 == 0 { let n = c.rng.below(20); b.extend(c.rng.bytes(n)); }
                c.case(format!("chunk {} at {}", hex(&b), pre), rule(&b, pre).is_ok(), judge(b.clone(), pre));
            }
        }
    });
}
