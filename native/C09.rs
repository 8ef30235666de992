//@ mount compile/assembler.rs
// C09: whole files and single sections, read back with the real sector and chunk readers.
use super::*;
use crate::chunk::get_chunk_from_code;
use crate::component::{FMComponentScript, FMComponentTable, FMComponentTableOccurence, FMComponentLayout};
use crate::decompile::sector::get_sector;
use crate::vp_fw::{hex, run, Out, Rng};

fn schema(rng: &Rng, tables: usize, occs: usize, scripts: usize, layouts: usize) -> FmpFile {
    let mut f = FmpFile::new();
    f.name = if rng.chance(1, 4) { rng.text(12) } else { let n = rng.below(20); rng.word(n) };
    let mut keys = std::collections::BTreeSet::new();
    while keys.len() < tables { keys.insert(rng.below(256)); }
    for k in keys { let mut t = FMComponentTable::new(); let n = *rng.pick(&[0usize, 1, 5, 20, 126]); t.table_name = if rng.chance(1, 5) { rng.text(n) } else { rng.word(n) }; f.tables.insert(k, t); }
    let mut keys = std::collections::BTreeSet::new();
    while keys.len() < occs { keys.insert(if rng.chance(1, 4) { rng.next() as u32 as usize } else { rng.below(300) }); }
    for k in keys { let mut t = FMComponentTableOccurence::new(); let n = *rng.pick(&[0usize, 1, 5, 20, 125]); t.table_occurence_name = rng.word(n); f.table_occurrences.insert(k, t); }
    for k in 0..scripts { let mut s = FMComponentScript::new(); s.script_name = rng.word(6); f.scripts.insert(k + 1, s); }
    for k in 0..layouts { f.layouts.insert(k + 1, FMComponentLayout::new()); }
    f
}

/// chunks from `at` up to `end`; the path afterwards
fn read(code: &[u8], at: usize, end: usize, path: &mut Vec<String>) -> Result<(), String> {
    let mut off = at;
    while off < end {
        let o = off;
        let mut p = path.clone();
        if let Err(e) = get_chunk_from_code(code, &mut off, &mut p, 0) { return Err(format!("byte {} of the section: {}", o - at, e)); }
        if off <= o { return Err(format!("no progress at {}", o)); }
        if code[o] == 0x40 && path.is_empty() { return Err(format!("pop of an empty path at byte {}", o - at)); }
        *path = p;
    }
    if off != end { return Err(format!("the last chunk ends at {}, the section at {}", off, end)); }
    Ok(())
}

fn sections(n: usize) -> (&'static str, Box<dyn Fn(&mut Assembler)>) {
    match n {
        0 => ("layouts", Box::new(|a| a.emit_layout_data())),
        1 => ("themes", Box::new(|a| a.emit_theme_data())),
        2 => ("security", Box::new(|a| a.emit_security_data())),
        3 => ("value lists", Box::new(|a| a.emit_value_list_data())),
        4 => ("fonts", Box::new(|a| a.emit_font_data())),
        5 => ("toolbars", Box::new(|a| a.emit_toolbar_data())),
        6 => ("initial metadata", Box::new(|a| a.emit_init_blobs())),
        7 => ("scripts", Box::new(|a| a.emit_script_data())),
        8 => ("table metadata", Box::new(|a| a.emit_table_metadata())),
        _ => ("relationships", Box::new(|a| a.emit_relationship_data())),
    }
}

fn section(f: FmpFile, n: usize, start: usize, fill: Vec<u8>) -> impl FnOnce() -> Out {
    move || {
        let (name, emit) = sections(n);
        let mut a = Assembler::new(&f);
        a.buffer = fill.clone();
        a.idx = start;
        emit(&mut a);
        if a.buffer.len() != fill.len() || a.idx < start { return Out::Bad(format!("{}: position {} -> {}, length {} -> {}", name, start, a.idx, fill.len(), a.buffer.len())); }
        if let Some(i) = (0..fill.len()).find(|i| (*i < start || *i >= a.idx) && fill[*i] != a.buffer[*i]) { return Out::Bad(format!("{}: byte {} outside the section changed", name, i)); }
        let mut path = vec!["91".to_string(), "92".to_string()];
        if let Err(e) = read(&a.buffer, start, a.idx, &mut path) { return Out::Bad(format!("{}: {}", name, e)); }
        let want: Vec<String> = match n { 8 => vec!["91".into(), "92".into(), "3".into()], 9 => vec!["91".into()], _ => vec!["91".into(), "92".into()] };
        if path != want { return Out::Bad(format!("{}: the path afterwards is {:?}, expected {:?}", name, path, want)); }
        Out::Ok
    }
}

fn whole(f: FmpFile) -> impl FnOnce() -> Out {
    move || {
        let mut a = Assembler::new(&f);
        a.assemble_fmp12(&f);
        let c = &a.buffer;
        if c.len() != 5 * 4096 { return Out::Bad(format!("file of {} bytes", c.len())); }
        let next: Vec<usize> = (1..5).map(|k| get_sector(&c[k * 4096..(k + 1) * 4096]).next).collect();
        if next != [4, 3, 4, 0] { return Out::Bad(format!("next sectors {:?}", next)); }
        let used = (2 * 4096 + 20..3 * 4096).rev().find(|i| c[*i] != 0).map(|i| i + 1).unwrap_or(0);
        let mut path = vec![];
        if let Err(e) = read(c, 2 * 4096 + 20, used, &mut path) { return Out::Bad(e); }
        if !path.is_empty() { return Out::Bad(format!("directories left open: {:?}", path)); }
        Out::Ok
    }
}

fn append(len: usize, idx: usize) -> impl FnOnce() -> Out {
    move || {
        let f = FmpFile::new();
        let mut a = Assembler::new(&f);
        a.buffer = (0..len).map(|i| (i * 7 + 1) as u8).collect();
        a.idx = idx;
        let b = a.buffer.clone();
        a.append_blank_chunk();
        if a.buffer.len() != len + 4096 || a.idx != len || a.buffer[..len] != b[..] || a.buffer[len..].iter().any(|x| *x != 0) {
            return Out::Bad(format!("length {}, position {}", a.buffer.len(), a.idx));
        }
        Out::Ok
    }
}

pub fn vp_main() {
    run("blank sectors appended to buffers of many lengths, every section from random states and schemas, whole files for random schemas that fit; non-trivial: all", |c| {
        for k in 0..c.scale(40, 200) { let l = match k { 0 => 0, 1 => 4096, 2 => 8192, _ => c.rng.below(9000) }; let i = c.rng.below(l + 1); c.case(format!("append {} {}", l, i), true, append(l, i)); }
        for k in 0..c.scale(1500, 30000) {
            if c.done() { return; }
            let n = k % 10;
            let most = if c.rng.chance(1, 12) { 20 } else { 6 };
            let (t, o, s, l) = (c.rng.below(most), c.rng.below(most), c.rng.below(most * most), if c.rng.chance(1, 5) { c.rng.below(300) } else { c.rng.below(5) });
            let f = schema(&c.rng, t, o, s, l);
            let start = if c.rng.chance(1, 20) { *c.rng.pick(&[255usize, 256, 4000, 4095, 4096, 8192, 65536]) } else { c.rng.below(50) };
            let fill = c.rng.bytes(start + 5000);
            c.case(format!("section {} at {} schema {}", n, start, serde_json::to_string(&f).unwrap_or_default()), true, section(f, n, start, fill));
        }
        for _ in 0..c.scale(400, 8000) {
            if c.done() { return; }
            let (t, o, s, l) = (c.rng.below(5), c.rng.below(4), c.rng.below(if c.rng.chance(1, 8) { 400 } else { 4 }), c.rng.below(if c.rng.chance(1, 8) { 400 } else { 5 }));
            let f = schema(&c.rng, t, o, s, l);
            c.case(format!("file {}", serde_json::to_string(&f).unwrap_or_default()), true, whole(f));
        }
        let _ = hex(&[]);
    });
}
