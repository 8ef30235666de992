//@ mount decompile/decompiler.rs
// C27: the instruction map for every opcode byte, and script code with random opcodes decompiled by the real function.
use super::*;
use crate::vp_fw::{run, Out, Rng};

/// the opcodes that have an instruction (the file format's numbers)
const NUMBERS: &[u8] = &[1, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 55, 56, 57, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 101, 102, 103, 104, 105, 106, 107, 108, 109, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 154, 155, 156, 157, 158, 159, 160, 161, 164, 165, 166, 167, 168, 169, 172, 174, 175, 176, 177, 178, 179, 180, 181, 182, 183, 185, 187, 188, 189, 190, 191, 192, 193, 194, 195, 196, 197, 199, 200, 201, 202, 203, 205, 206, 207, 208, 209, 210, 211, 255];

fn dir(n: usize) -> Vec<u8> { if n < 128 { vec![0x20, n as u8] } else { vec![0x28, 0x80, (n - 128) as u8] } }
fn dirs(v: &[usize]) -> Vec<u8> { v.iter().flat_map(|n| dir(*n)).collect() }
fn mask(t: &str) -> Vec<u8> { t.bytes().map(|b| b ^ 0x5a).collect() }
fn entry(n: u8) -> Out {
    let got = INSTRUCTIONMAP.get(n as usize).map(|i| i.clone().map(|i| i as u8));
    match got {
        None => Out::Bad(format!("no entry for opcode {}", n)),
        Some(Some(k)) if k != n => Out::Bad(format!("opcode {} stands for the instruction with number {}", n, k)),
        Some(None) if NUMBERS.contains(&n) => Out::Bad(format!("opcode {} is not known", n)),
        _ => Out::Ok,
    }
}
fn file(seed: u64, n: usize, segments: usize) -> Out {
    let r = Rng::new(seed);
    let ops: Vec<u8> = (0..n).map(|_| match r.below(3) { 0 => r.byte(), _ => *r.pick(NUMBERS) }).collect();
    let script = r.range(1, 255);
    let mut sectors: Vec<Vec<u8>> = vec![];
    let mut b = dirs(&[17, 1, 1, script]);
    b.extend([0x06, 16, 4]);
    b.extend(mask("main"));
    b.extend([0x40; 4]);
    let mut code: Vec<u8> = vec![];
    for (i, op) in ops.iter().enumerate() {
        let mut s = r.bytes(28);
        let id = i % 100 + 1;
        s[0] = 2; s[2] = id as u8; s[8] = script as u8; s[21] = *op;
        code.extend(s);
    }
    if segments == 0 {
        b.extend(dirs(&[17, 5, script]));
        b.extend([0x06, 4, code.len() as u8]);
        b.extend(&code);
        b.extend([0x40; 3]);
    } else {
        b.extend(dirs(&[17, 5, script, 4]));
        let each = (code.len() + segments - 1) / segments;
        for (i, p) in code.chunks(each.max(1)).enumerate() {
            // a segment that does not fit goes into the next sector, in the same directory
            if b.len() + p.len() + 16 > 4000 {
                b.extend([0x40; 4]);
                sectors.push(std::mem::replace(&mut b, dirs(&[17, 5, script, 4])));
            }
            b.extend([0x07, 1 + i as u8, (p.len() >> 8) as u8, p.len() as u8]);
            b.extend(p);
        }
        b.extend([0x40; 4]);
    }
    sectors.push(b);
    let last = 1 + sectors.len();
    let mut buf = vec![0u8; 4096 * (1 + last)];
    buf[4096 + 8..4096 + 12].copy_from_slice(&(last as u32).to_be_bytes());
    for (i, b) in sectors.iter().enumerate() {
        let o = 4096 * (2 + i);
        if i + 1 < sectors.len() { buf[o + 8..o + 12].copy_from_slice(&(3 + i as u32).to_be_bytes()); }
        for x in &mut buf[o + 20..o + 4096] { *x = 0x80; }
        buf[o + 20..o + 20 + b.len()].copy_from_slice(b);
    }
    std::fs::write("vp27.fmp12", &buf).unwrap();
    let f = decompile_fmp12_file(std::path::Path::new("vp27.fmp12"));
    let got: Vec<u8> = f.scripts.get(&script).map_or(vec![], |s| s.instructions.iter().map(|i| i.opcode.clone() as u8).collect());
    let known = |n: &&u8| NUMBERS.contains(n) || matches!(INSTRUCTIONMAP.get(**n as usize), Some(Some(_)));
    let want: Vec<u8> = ops.iter().filter(known).cloned().collect();
    if got == want { Out::Ok } else { Out::Bad(format!("a script stored with the opcodes {:?} has the instructions {:?}, expected {:?}", ops, got, want)) }
}
pub fn vp_main() {
    run("every opcode byte; scripts with random opcodes stored in a record or in segments (up to 600 steps in up to 60 segments over several sectors), decompiled from a file; non-trivial: an instruction is expected", |c| {
        for n in 0..=255u8 { c.case(format!("opcode {}", n), NUMBERS.contains(&n), move || entry(n)); }
        let n = c.scale(3000, 30000);
        for i in 0..n {
            if c.done() { break; }
            let seed = c.rng.next();
            let (segments, steps) = match i % 5 {
                0 => (0, c.rng.range(1, 9)),
                4 if i % 20 == 19 => { let n = c.rng.range(100, 600); (c.rng.range(n / 100 + 1, 60), n) }
                k => (k, c.rng.range(1, 120)),
            };
            c.case(format!("file seed={} steps={} segments={}", seed, steps, segments), true, move || file(seed, steps, segments));
        }
    });
}
