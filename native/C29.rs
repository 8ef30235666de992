//@ mount compile/assembler.rs
// C29: whole files for random schemas, read back with the real chunk reader; what the list directories hold against the schema.
use super::*;
use crate::chunk::{get_chunk_from_code, ChunkType};
use crate::component::{FMComponentLayout, FMComponentScript, FMComponentTable, FMComponentTableOccurence};
use crate::vp_fw::{run, Out, Rng};

/// a name over any characters; 2n bytes when encoded
fn name(r: &Rng, n: usize) -> String {
    match r.below(4) {
        0 => r.odd(n, "").chars().take(n).collect(),
        1 => r.text(n).chars().take(n).collect(),
        _ => r.word(n),
    }
}

/// a schema whose lists fit in one sector
fn schema(r: &Rng, big: bool) -> FmpFile {
    let mut f = FmpFile::new();
    f.name = if r.chance(1, 4) { r.text(12) } else { r.word(8) };
    let mut left = if big { 2500usize } else { 200 + r.below(2300) };
    let ids = r.below(4);
    let mut k = r.below(3);
    for _ in 0..if big { 100 } else { r.below(30) } {
        let n = *r.pick(if big { &[0usize, 1, 3, 8] } else { &[0usize, 1, 5, 20, 63, 64, 126] });
        if left < 2 * n + 25 { break; }
        let id = match ids { 0 => { k += 1; k } 1 => r.below(256), 2 => 255 - k.min(255), _ => *r.pick(&[0usize, 1, 127, 128, 129, 254, 255, 5, 6, 7]) };
        if ids == 2 { k += 1; }
        if id > 255 || f.tables.contains_key(&id) { continue; }
        let mut t = FMComponentTable::new();
        t.table_name = if r.chance(1, 8) { f.tables.values().next().map_or(String::new(), |t| t.table_name.clone()) } else { name(r, n) };
        left = left.saturating_sub(2 * t.table_name.chars().count() + 25);
        f.tables.insert(id, t);
        if left < 300 { break; }
    }
    for _ in 0..r.below(if big { 60 } else { 12 }) {
        let n = *r.pick(if big { &[0usize, 1, 4] } else { &[0usize, 1, 5, 20, 62, 125] });
        if left < 2 * n + 24 { break; }
        let id = match r.below(4) { 0 => r.next() as u32 as usize, 1 => *r.pick(&[0usize, 255, 256, 65535, 65536, 0xFF_FFFF, 0x100_0000, 0xFFFF_FFFF]), _ => r.below(40) };
        if f.table_occurrences.contains_key(&id) { continue; }
        let mut t = FMComponentTableOccurence::new();
        t.table_occurence_name = name(r, n);
        left -= 2 * n + 24;
        f.table_occurrences.insert(id, t);
    }
    for k in 0..if r.chance(1, 6) { r.below(300) } else { r.below(5) } { let mut s = FMComponentScript::new(); s.script_name = r.word(6); f.scripts.insert(k + 1, s); }
    for k in 0..if r.chance(1, 6) { r.below(300) } else { r.below(5) } { f.layouts.insert(k + 1, FMComponentLayout::new()); }
    f
}

/// the code of a text, from the table itself
fn code(t: &str) -> Vec<u8> { t.chars().flat_map(|c| { let (h, l) = crate::dbcharconv::encode_char(c); [h, l] }).collect() }

fn judge(seed: u64, big: bool) -> Out {
    let f = schema(&Rng::new(seed), big);
    let mut a = Assembler::new(&f);
    a.assemble_fmp12(&f);
    let c = &a.buffer;
    let (mut names, mut nos, mut counts, mut dirs, mut onames, mut onos, mut lc, mut sc) = (vec![], vec![], vec![], vec![], vec![], vec![], vec![], vec![]);
    let (mut off, mut path) = (2 * 4096 + 20, Vec::<String>::new());
    while off < 3 * 4096 {
        let o = off;
        let before = path.clone();
        let chunk = match get_chunk_from_code(c, &mut off, &mut path, 2 * 4096) { Ok(x) => x, Err(e) => return Out::Bad(format!("byte {}: {}", o, e)) };
        if off <= o { return Out::Bad(format!("no progress at {}", o)); }
        let p: Vec<usize> = path.iter().map(|s| s.parse().unwrap()).collect();
        let b: Vec<usize> = before.iter().map(|s| s.parse().unwrap()).collect();
        let d = chunk.data.unwrap_or(&[]).to_vec();
        match (p.as_slice(), chunk.ctype) {
            ([3, 16, 1, 1], ChunkType::RefLong) => names.push((chunk.ref_data.unwrap().to_vec(), d)),
            ([3, 16, 1, 3], ChunkType::RefLong) => nos.push((chunk.ref_data.unwrap().to_vec(), d)),
            ([3, 16, 1], ChunkType::RefSimple) if chunk.ref_simple == Some(4) => counts.push(d),
            ([3, 16, 1, 5, n], ChunkType::PathPush) if b.len() == 4 => dirs.push(*n),
            ([3, 17, 1, 1], ChunkType::DataSimple) => onames.push(d),
            ([3, 17, 1, 3], ChunkType::DataSimple) => onos.push(d),
            ([4, 1], ChunkType::RefSimple) if chunk.ref_simple == Some(0) => lc.push(d),
            ([17, 1], ChunkType::RefSimple) if chunk.ref_simple == Some(0) => sc.push(d),
            _ => {}
        }
    }
    let be = |n: usize| (n as u32).to_be_bytes().to_vec();
    let mut w = vec![];
    for (k, t) in &f.tables { let mut n = code(&t.table_name); n.extend([0, 0, 0]); w.push((n, vec![2u8, 128, *k as u8])); }
    names.sort(); w.sort();
    if names != w { return Out::Bad(format!("table names {:?}, expected {:?}", names, w)); }
    let mut w: Vec<_> = f.tables.keys().map(|k| (be(*k), be(*k))).collect();
    nos.sort(); w.sort();
    if nos != w { return Out::Bad(format!("table numbers {:?}, expected {:?}", nos, w)); }
    if counts != vec![be(f.tables.len())] { return Out::Bad(format!("table count {:?}, expected {}", counts, f.tables.len())); }
    let mut w: Vec<_> = f.tables.keys().map(|k| 128 + k).collect();
    dirs.sort(); w.sort();
    if dirs != w { return Out::Bad(format!("table directories {:?}, expected {:?}", dirs, w)); }
    let mut w: Vec<_> = f.table_occurrences.values().map(|t| code(&(t.table_occurence_name.clone() + "\0\0"))).collect();
    onames.sort(); w.sort();
    if onames != w { return Out::Bad(format!("occurrence names {:?}, expected {:?}", onames, w)); }
    let mut w: Vec<_> = f.table_occurrences.keys().map(|k| be(*k)).collect();
    onos.sort(); w.sort();
    if onos != w { return Out::Bad(format!("occurrence numbers {:?}, expected {:?}", onos, w)); }
    if lc != vec![vec![1, f.layouts.len() as u8]] { return Out::Bad(format!("layout count {:?}, expected {}", lc, f.layouts.len())); }
    if sc != vec![vec![1, f.scripts.len() as u8]] { return Out::Bad(format!("script count {:?}, expected {}", sc, f.scripts.len())); }
    Out::Ok
}

pub fn vp_main() {
    run("whole files for random schemas whose lists fit in a sector (table numbers 0 to 255, occurrence numbers of four bytes, names of any characters, up to 100 tables); a case is its seed; non-trivial: all", |c| {
        for i in 0..c.scale(6000, 60000) {
            if c.done() { return; }
            let seed = c.rng.next();
            let big = i % 10 == 9;
            c.case(format!("schema seed={} big={}", seed, big), true, move || judge(seed, big));
        }
    });
}
