//@ mount chunk.rs
// C06 on the real decoder: position and directory path, single chunks and streams.
use super::*;
use crate::vp_fw::{hex, run, Out};
include!("chunk_oracle.inc");

fn after(c: &[u8], o: usize, r: &R, p: &[String]) -> Vec<String> {
    let mut q = p.to_vec();
    if let Some(d) = r.push { q.push(format!("{}", d)); } else if r.pop { q.pop(); }
    if c[o] >= 0xC0 { q.pop(); }
    q
}

fn stream(c: Vec<u8>, o: usize, p: Vec<String>, many: bool) -> impl FnOnce() -> Out {
    move || {
        let mut off = o;
        let mut path = p.clone();
        let mut n = 0;
        while off < c.len() && (many || n == 0) {
            n += 1;
            let before = off;
            let want = match rule(&c, off) { Ok(w) => w, Err(()) => return Out::Ok };
            let old = path.clone();
            match (get_chunk_from_code(&c, &mut off, &mut path, o.saturating_sub(c[o] as usize)), want) {
                (Err(_), _) => {
                    if off != before || path != old { return Out::Bad(format!("error at {}, but position {} and path {:?}", before, off, path)); }
                    return Out::Ok;
                }
                (Ok(ch), w) => {
                    if off <= before { return Out::Bad(format!("decoding at {} left the position at {}", before, off)); }
                    if ch.path != path { return Out::Bad(format!("chunk carries path {:?}, directory is {:?}", ch.path, path)); }
                    if let Some(r) = w {
                        if off != r.next { return Out::Bad(format!("chunk at {} ends at {}, position is {}", before, r.next, off)); }
                        let q = after(&c, before, &r, &old);
                        if path != q { return Out::Bad(format!("chunk at {}: path {:?}, expected {:?}", before, path, q)); }
                    }
                }
            }
        }
        Out::Ok
    }
}

pub fn vp_main() {
    run("single chunks of every opcode byte from empty and non-empty paths, and streams of 2 to 12 random chunks; non-trivial: operands complete", |c| {
        let reps = c.scale(300, 6000);
        for k in 0..reps {
            for op in 0..=255u8 {
                if c.done() { return; }
                let pre = if k % 3 == 0 { 0 } else { c.rng.below(40) };
                let mut b = c.rng.bytes(pre);
                b.extend(gen_chunk(&c.rng, op));
                if k % 2 == 0 { let n = c.rng.below(20); b.extend(c.rng.bytes(n)); }
                let depth = c.rng.below(4);
                let p: Vec<String> = (0..depth).map(|i| ["3", "17", "5"][i].to_string()).collect();
                c.case(format!("single {} at {} path {:?}", hex(&b), pre, p), rule(&b, pre).is_ok(), stream(b.clone(), pre, p.clone(), false));
            }
        }
        let ops: Vec<u8> = (0..=255u8).filter(|x| { let b = if *x >= 0xC0 { *x - 0xC0 } else { *x }; b <= 0x17 || (0x19..=0x20).contains(&b) || [0x23, 0x28, 0x30, 0x38, 0x3D, 0x40, 0x80].contains(&b) }).collect();
        // deep directories, and long streams far into a file
        for depth in [16usize, 63, 64, 65, 127, 128, 255, 256, 257, 300, 1000, 5000] {
            let mut b = vec![];
            for _ in 0..depth { let op = *c.rng.pick(&[0x20u8, 0x28, 0x30]); b.extend(gen_chunk(&c.rng, op)); }
            for _ in 0..depth + 1 { if c.rng.chance(1, 4) { let op = *c.rng.pick(&ops); b.extend(gen_chunk(&c.rng, op)); } b.push(if c.rng.chance(1, 4) { 0x3D } else { 0x40 }); }
            c.case(format!("stream {}", hex(&b)), true, stream(b.clone(), 0, vec![], true));
        }
        for _ in 0..c.scale(8000, 200000) {
            if c.done() { return; }
            let n = c.rng.range(2, 12);
            let mut b = vec![];
            for _ in 0..n { let op = if c.rng.chance(1, 2) { *c.rng.pick(&[0x20u8, 0x28, 0x40, 0xC1, 0xE0, 0xFD, 0xE8, 0xC8, 0x30, 0x38, 0x3D]) } else { *c.rng.pick(&ops) }; b.extend(gen_chunk(&c.rng, op)); }
            c.case(format!("stream {}", hex(&b)), true, stream(b.clone(), 0, vec![], true));
        }
    });
}
