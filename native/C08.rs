//@ mount compile/assembler.rs
// C08: every emitting primitive against the real chunk reader and the layout oracle.
use super::*;
use crate::chunk::{get_chunk_from_code, ChunkType};
use crate::vp_fw::{hex, run, Out};

#[derive(Clone, Debug)]
enum Op { Noop, Kv(u8, Vec<u8>), KvE(u32, Vec<u8>), Long(Vec<u8>, Vec<u8>), Data(Vec<u8>), Push(u32), Pop }

fn emit(a: &mut Assembler, op: &Op) {
    match op {
        Op::Noop => a.emit_noop(),
        Op::Kv(k, v) => a.emit_simple_kv(*k, v),
        Op::KvE(k, v) => a.emit_simple_kv_e(*k, v),
        Op::Long(k, v) => a.emit_long_kv(k, v),
        Op::Data(v) => a.emit_simple_data_1b(v),
        Op::Push(d) => a.push_directory(*d),
        Op::Pop => a.pop_directory(),
    }
}

/// largest number of bytes the operation may write
fn most(op: &Op) -> usize {
    match op { Op::Noop | Op::Pop => 1, Op::Kv(_, v) => v.len() + 3, Op::KvE(_, v) => v.len() + 4, Op::Long(k, v) => k.len() + v.len() + 3, Op::Data(v) => v.len() + 6, Op::Push(_) => 4 }
}

fn judge(ops: Vec<Op>, start: usize, fill: Vec<u8>) -> impl FnOnce() -> Out {
    move || {
        let file = FmpFile::new();
        let mut a = Assembler::new(&file);
        a.buffer = fill.clone();
        a.idx = start;
        let mut marks = vec![];
        for op in &ops {
            let (before, i0) = (a.buffer.clone(), a.idx);
            emit(&mut a, op);
            if a.buffer.len() != before.len() { return Out::Bad(format!("{:?} changed the buffer length from {} to {}", op, before.len(), a.buffer.len())); }
            if a.idx <= i0 || a.idx > i0 + most(op) { return Out::Bad(format!("{:?} moved the position from {} to {}", op, i0, a.idx)); }
            if let Some(i) = (0..before.len()).find(|i| (*i < i0 || *i >= a.idx) && before[*i] != a.buffer[*i]) { return Out::Bad(format!("{:?} at {} to {} changed byte {}", op, i0, a.idx, i)); }
            marks.push((i0, a.idx));
        }
        // read everything back
        let mut off = start;
        let mut path: Vec<String> = vec!["7".to_string()];
        let mut want = path.clone();
        for (op, (i0, i1)) in ops.iter().zip(marks) {
            if off != i0 { return Out::Bad(format!("reader at {} where {:?} starts at {}", off, op, i0)); }
            let code = a.buffer.clone();
            let ch = match get_chunk_from_code(&code, &mut off, &mut path, 0) { Ok(c) => c, Err(e) => return Out::Bad(format!("{:?} is rejected: {}", op, e)) };
            let ok = match op {
                Op::Noop => ch.ctype == ChunkType::Noop,
                Op::Kv(k, v) => ch.ctype == ChunkType::RefSimple && ch.ref_simple == Some(*k as u16) && ch.data == Some(&v[..]),
                Op::KvE(k, v) => ch.ctype == ChunkType::RefSimple && ch.ref_simple == Some(*k as u16) && ch.data == Some(&v[..]),
                Op::Long(k, v) => ch.ctype == ChunkType::RefLong && ch.ref_data == Some(&k[..]) && ch.data == Some(&v[..]),
                Op::Data(v) => ch.ctype == ChunkType::DataSimple && ch.data == Some(&v[..]),
                Op::Push(d) => { want.push(d.to_string()); ch.ctype == ChunkType::PathPush }
                Op::Pop => { want.pop(); ch.ctype == ChunkType::PathPop }
            };
            if !ok { return Out::Bad(format!("{:?} reads back as {:?}", op, ch)); }
            if let Op::Push(_) = op {
                // a push is followed by one no-op
                match get_chunk_from_code(&code, &mut off, &mut path, 0) { Ok(c) if c.ctype == ChunkType::Noop => {} x => return Out::Bad(format!("after {:?}: {:?}", op, x.map(|c| c.ctype))) }
            }
            if path != want { return Out::Bad(format!("after {:?} the path is {:?}, expected {:?}", op, path, want)); }
            if off != i1 { return Out::Bad(format!("{:?} ends at {}, reader at {}", op, i1, off)); }
        }
        Out::Ok
    }
}

pub fn vp_main() {
    run("every short key with every value length, every two-byte key below 384, long keys and counted data of every length, every directory below 384, then random sequences; non-trivial: all", |c| {
        let rnd = |c: &crate::vp_fw::Ctx, ops: Vec<Op>| { let n: usize = ops.iter().map(most).sum(); let s = if c.rng.chance(1, 50) { *c.rng.pick(&[255usize, 256, 4095, 4096, 5000, 65535, 65536]) } else { c.rng.below(30) }; let f = c.rng.bytes(s + n + c.rng.below(20)); (ops, s, f) };
        let go = |c: &mut crate::vp_fw::Ctx, ops: Vec<Op>| {
            let (ops, s, f) = rnd(c, ops);
            c.case(format!("{:?} at {} of {} fill {}", ops, s, f.len(), hex(&f[..f.len().min(8)])), true, judge(ops.clone(), s, f.clone()));
        };
        let f = |c: &crate::vp_fw::Ctx, n: usize| c.rng.bytes(n);
        for r in 0..c.scale(1, 4) {
            for k in 0..=255u8 { for n in (0..=20).chain([127, 128, 254, 255]) { let v = f(c, n); go(c, vec![Op::Kv(k, v)]); } }
            for n in 0..=255 { let v = f(c, n); go(c, vec![Op::Kv(16, v.clone()), Op::Kv(216, v.clone()), Op::Kv(r as u8, v)]); }
            for k in 128..384u32 { for n in [0, 1, 2, 5, 255] { let v = f(c, n); go(c, vec![Op::KvE(k, v)]); } }
            for n in 0..=255 { for m in [0, 1, 3, 255] { let (k, v) = (f(c, n), f(c, m)); go(c, vec![Op::Long(k, v)]); let (k, v) = (f(c, m), f(c, n)); go(c, vec![Op::Long(k, v)]); } }
            for n in 1..=255 { let v = f(c, n); go(c, vec![Op::Data(v)]); }
            for d in 0..384u32 { go(c, vec![Op::Push(d)]); go(c, vec![Op::Push(d), Op::Pop]); }
            go(c, vec![Op::Noop]); go(c, vec![Op::Pop]);
        }
        for _ in 0..c.scale(3000, 60000) {
            if c.done() { return; }
            let n = if c.rng.chance(1, 100) { c.rng.range(50, 600) } else { c.rng.range(1, 12) };
            let mut ops = vec![];
            for _ in 0..n {
                let l = *c.rng.pick(&[0usize, 1, 2, 3, 4, 5, 6, 7, 8, 9, 31, 255]);
                let v = c.rng.bytes(l);
                ops.push(match c.rng.below(7) {
                    0 => Op::Noop, 1 => Op::Kv(c.rng.byte(), v), 2 => Op::KvE(c.rng.range(128, 383) as u32, v),
                    3 => { let m = c.rng.below(12); Op::Long(c.rng.bytes(m), v) } 4 => Op::Data(if v.is_empty() { vec![0] } else { v }), 5 => Op::Push(c.rng.below(384) as u32), _ => Op::Pop });
            }
            go(c, ops);
        }
    });
}
