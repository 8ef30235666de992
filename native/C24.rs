//@ mount decompile/decompiler.rs
// C24: random files built from a list of components, written as chunks into a chain of sectors, decompiled by the
// real function and compared with that list.
use super::*;
use crate::vp_fw::{run, Out, Rng};
use std::collections::BTreeMap as Map;

#[derive(Clone, PartialEq, Debug)]
enum Dir { One(u8), Two(u8, u8), Three(u8, u8, u8) }
fn dir(n: usize) -> Dir { if n < 128 { Dir::One(n as u8) } else { Dir::Two(0x80, (n - 128) as u8) } }
fn dirs(v: &[usize]) -> Vec<Dir> { v.iter().map(|n| if *n == 251 { Dir::One(251) } else { dir(*n) }).collect() }
fn push_bytes(d: &Dir) -> Vec<u8> {
    match d { Dir::One(a) => vec![0x20, *a], Dir::Two(a, b) => vec![0x28, *a, *b], Dir::Three(a, b, c) => vec![0x30, *a, *b, *c] }
}
fn mask(t: &str) -> Vec<u8> { t.bytes().map(|b| b ^ 0x5a).collect() }

/// a directory to be in and the chunk to write there (an empty chunk: just be there)
type Rec = (Vec<Dir>, Vec<u8>);

/// key and value in one of the forms the format has for them
fn kv(r: &Rng, key: usize, v: &[u8]) -> Vec<u8> {
    let n = v.len();
    let mut o = vec![];
    if key >= 128 || r.chance(1, 8) && key >= 128 {
        match n {
            1 if r.chance(1, 2) => o.extend([0x09, 0x80, (key - 128) as u8]),
            2 | 4 | 6 | 8 if r.chance(1, 2) => o.extend([0x09 + (n / 2) as u8, 0x80, (key - 128) as u8]),
            _ => o.extend([0x0E, 0x80, (key - 128) as u8, n as u8]),
        }
    } else {
        match n {
            1 if r.chance(1, 2) => o.extend([0x01, key as u8]),
            2 | 4 | 6 | 8 if r.chance(1, 2) => o.extend([0x01 + (n / 2) as u8, key as u8]),
            _ => o.extend([0x06, key as u8, n as u8]),
        }
    }
    o.extend(v);
    o
}
/// as much as one record holds
fn long(r: &Rng) -> String {
    let n = r.range(100, 255);
    let mut s = if r.chance(1, 3) { r.text(n) } else { r.word(n) };
    while s.len() > 255 { s.pop(); }
    s
}
fn text(r: &Rng) -> String {
    if r.chance(1, 8) { let k = r.range(0, 6); return r.odd(k, ""); }
    let n = match r.below(6) { 0 => 0, 1 => r.range(1, 2), 2 => r.range(20, 60), _ if r.chance(1, 20) => return long(r), _ => r.range(1, 12) };
    if r.chance(1, 3) { r.text(n) } else { r.word(n) }
}
fn name(r: &Rng) -> String { if r.chance(1, 60) { return long(r); } let n = if r.chance(1, 16) { r.range(30, 62) } else { r.range(1, 14) }; if r.chance(1, 8) { let k = r.range(1, 4); return r.odd(k, ""); }  if r.chance(1, 4) { r.text(n) } else { r.word(n) } }
/// unused numbers, in random or increasing order
fn ids(r: &Rng, n: usize, lo: usize, hi: usize) -> Vec<usize> {
    let mut v: Vec<usize> = vec![];
    while v.len() < n && v.len() <= hi - lo { let k = if r.chance(1, 3) { r.range(lo, hi.min(lo + 8)) } else { r.range(lo, hi) }; if !v.contains(&k) { v.push(k); } }
    if r.chance(2, 3) { v.sort(); }
    v
}
fn noise(r: &Rng, not: &[usize]) -> Vec<u8> {
    let key = loop { let k = *r.pick(&[0usize, 5, 6, 8, 9, 20, 32, 60, 131, 216, 240, 252]); if !not.contains(&k) { break k; } };
    let n = r.below(30);
    kv(r, key, &r.bytes(n))
}
fn number_token(r: &Rng) -> (Vec<u8>, String) { let mut b = vec![0x10]; b.extend(r.bytes(19)); let t = b[9].to_string(); (b, t) }
/// a calculation: bytes and text
fn calc(r: &Rng) -> (Vec<u8>, String) {
    let (mut b, mut t) = (vec![], String::new());
    for _ in 0..r.range(1, 5) {
        let (x, y) = match r.below(5) {
            0 => number_token(r),
            1 => (vec![0x25], "+".to_string()),
            2 => { let s = r.word(3); let mut v = vec![0x1a, 3]; v.extend(mask(&s)); (v, s) }
            3 => { let s = r.word(4); let mut v = vec![0x13, 4]; v.extend(mask(&s)); (v, format!("\"{}\"", s)) }
            _ => (vec![0x50], "&".to_string()),
        };
        b.extend(x);
        t.push_str(&y);
    }
    (b, t)
}

/// what has to come out, one line per fact
type Facts = Map<String, String>;

struct File { recs: Vec<Rec>, want: Facts }

fn one_of(n: u8) -> Option<Instruction> { INSTRUCTIONMAP[n as usize].clone() }
/// the numbers of the instructions this decompiler knows, from the declaration of the type itself
fn known_op(n: u8) -> bool { one_of(n).map_or(false, |i| i as u8 == n) }

fn build(r: &Rng, size: usize) -> File {
    let mut want: Facts = Map::new();
    let mut groups: Vec<Vec<Rec>> = vec![];
    // tables and fields
    let ts = ids(r, r.below(size + 1), 1, 255);
    let mut meta: Vec<Rec> = vec![];
    let mut fields: Vec<Rec> = vec![];
    for t in &ts {
        let d = dirs(&[3, 16, 5, 128 + t]);
        let n = name(r);
        meta.push((d.clone(), vec![]));
        if r.chance(1, 3) { meta.push((d.clone(), noise(r, &[16]))); }
        meta.push((d.clone(), kv(r, 16, &mask(&n))));
        if r.chance(1, 3) { meta.push((d.clone(), noise(r, &[16]))); }
        want.insert(format!("table {}", t), n);
        for f in ids(r, r.below(size + 1), 1, 255) {
            let d = dirs(&[128 + t, 3, 5, f]);
            let mut v = [text(r), text(r), name(r), text(r), text(r)];
            let mut order = vec![(2usize, 0usize), (3, 1), (16, 2), (129, 3), (130, 4)];
            if r.chance(1, 2) { let k = r.below(5); order.swap(k, r.below(5)); }
            fields.push((d.clone(), vec![]));
            for (key, i) in order {
                if key != 16 && r.chance(1, 3) { v[i] = String::new(); continue; }
                if r.chance(1, 6) { fields.push((d.clone(), noise(r, &[]))); }
                fields.push((d.clone(), kv(r, key, &mask(&v[i]))));
            }
            want.insert(format!("field {} of table {}", f, t), format!("{:?}", v));
        }
    }
    groups.push(meta);
    groups.push(fields);
    // occurrences and relationships
    let os = ids(r, r.below(size + 1), 1, 127);
    let nrel = if os.len() < 2 { 0 } else { r.below(size + 1) };
    let mut rels: Vec<(usize, usize, usize)> = vec![];
    for id in ids(r, nrel, 1, 253) {
        if id == 251 { continue; }
        let a = *r.pick(&os);
        let b = *r.pick(&os);
        if a != b { rels.push((id, a, b)); }
    }
    let mut occ: Vec<Rec> = vec![];
    let mut seen: Map<usize, (usize, usize)> = Map::new();
    for o in &os {
        let mut d = dirs(&[3, 17, 5]);
        d.push(Dir::Three(208, 0, *o as u8));
        let t = r.range(1, 255);
        let n = name(r);
        let mut data = r.bytes(7 + r.below(20));
        data[6] = t as u8;
        occ.push((d.clone(), vec![]));
        occ.push((d.clone(), kv(r, 2, &data)));
        if r.chance(1, 3) { occ.push((d.clone(), noise(r, &[]))); }
        occ.push((d.clone(), kv(r, 16, &mask(&n))));
        if r.chance(1, 3) { let mut e = d.clone(); e.push(Dir::One(219)); e.push(Dir::One(5)); occ.push((e, vec![])); }
        for (id, a, b) in &rels {
            if a == o || b == o {
                let other = if a == o { b } else { a };
                let mut e = d.clone();
                e.push(Dir::One(251));
                occ.push((e, vec![0x12, 208, 0, *other as u8, 1, *id as u8]));
                seen.entry(*id).or_insert((*o, *other));
            }
        }
        if r.chance(1, 3) { occ.push((d.clone(), noise(r, &[2, 16]))); }
        want.insert(format!("occurrence {}", o), format!("{:?} of table {}", n, t));
    }
    let mut crit = rels.clone();
    if r.chance(1, 3) { crit.reverse(); }
    for (id, _, _) in &crit {
        let (c, f1, f2) = (r.below(9) as u8, r.byte(), r.byte());
        let d = dirs(&[3, 251, 5, *id, 3]);
        let mut data = vec![c, 2, 0x80, f1, 2, 0x80, f2];
        data.extend(r.bytes(r.below(6)));
        if r.chance(1, 3) { occ.push((dirs(&[3, 251, 5, *id]), noise(r, &[]))); }
        occ.push((d, kv(r, 1, &data)));
        let (a, b) = seen[id];
        let cn = ["Equal", "NotEqual", "Less", "LessEqual", "Greater", "GreaterEqual", "Cartesian", "Equal", "Equal"][c as usize];
        want.insert(format!("relationship {}", id), format!("{}.{} {} {}.{}", a, f1, cn, b, f2));
    }
    groups.push(occ);
    // layouts
    let mut lay: Vec<Rec> = vec![];
    for l in ids(r, r.below(size + 1), 1, 300) {
        let d = dirs(&[4, 1, 7, l]);
        let (o, n) = (r.below(128), name(r));
        let mut data = r.bytes(2 + r.below(6));
        data[1] = 128 + o as u8;
        lay.push((d.clone(), vec![]));
        let a = (d.clone(), kv(r, 2, &data));
        let b = (d.clone(), kv(r, 16, &mask(&n)));
        if r.chance(1, 3) { lay.push(b); lay.push(a); } else { lay.push(a); lay.push(b); }
        if r.chance(1, 3) { let mut e = d.clone(); e.push(dir(r.range(1, 20))); lay.push((e, noise(r, &[2, 16]))); }
        want.insert(format!("layout {}", l), format!("{:?} on {}", n, o));
    }
    groups.push(lay);
    // scripts
    let ss = ids(r, r.below(size + 1), 1, 255);
    let mut scr: Vec<Rec> = vec![];
    let mut names: Map<usize, String> = Map::new();
    for s in &ss {
        let n = name(r);
        let d = dirs(&[17, 1, 7, *s]);
        scr.push((d.clone(), kv(r, 16, &mask(&n))));
        if r.chance(1, 3) { scr.push((d, noise(r, &[16]))); }
        names.insert(*s, n);
    }
    for s in &ss {
        let long = r.chance(1, 3);
        let k = if long && size > 2 && r.chance(1, 100) { r.range(200, 380) } else if long { r.below(size * 4 + 1) } else { r.below(10) };
        let sids = ids(r, k, 1, 383);
        let mut bytes = vec![];
        let mut facts: Vec<(Instruction, usize, Vec<String>)> = vec![];
        let mut args: Vec<Rec> = vec![];
        let mut ops: Vec<u8> = vec![];
        for id in &sids {
            let op = match r.below(6) { 0 => r.byte(), 1 => 1, 2 | 3 => 141, 4 => 103, _ => *r.pick(&[68u8, 69, 71, 72, 76, 89, 125, 255, 254, 211]) };
            let op = if op == 1 && names.is_empty() { 2 } else { op };
            let mut b = r.bytes(28);
            if *id < 128 { b[0] = 2; b[2] = *id as u8; } else { b[0] = 3; b[2] = 0x80; b[3] = (*id - 128) as u8; }
            b[21] = op;
            let mut sw = vec![];
            if op == 1 { let t = *r.pick(&ss); b[8] = t as u8; sw.push(names[&t].clone()); }
            bytes.extend(b);
            ops.push(op);
            if known_op(op) { facts.push((one_of(op).unwrap(), *id, sw)); }
        }
        if r.chance(1, 4) { bytes.extend(r.bytes(*r.pick(&[1usize, 20, 21]))); if !long && bytes.len() > 255 { bytes.truncate(bytes.len() / 28 * 28); } }
        // step arguments
        for (i, id) in sids.iter().enumerate() {
            let step = |more: &[usize]| { let mut d = dirs(&[17, 5, *s, 5, *id]); for m in more { d.push(if *m >= 128 { Dir::Two(0, (*m - 128) as u8) } else { dir(*m) }); } d };
            let mut push = |f: &mut Vec<(Instruction, usize, Vec<String>)>, t: String| if let Some(x) = f.iter_mut().find(|x| x.1 == *id) { x.2.push(t); };
            if r.chance(1, 4) { args.push((step(&[]), noise(r, &[]))); }
            let set = ops[i] == Instruction::SetVariable as u8;
            let exit = ops[i] == Instruction::ExitScript as u8;
            if (set || r.chance(1, 6)) && r.chance(5, 6) {
                let t = name(r);
                args.push((step(&[128]), kv(r, 1, &mask(&t))));
                if set { push(&mut facts, t); }
            }
            if (exit || r.chance(1, 8)) && r.chance(5, 6) {
                let (b, t) = calc(r);
                if r.chance(1, 2) { args.push((step(&[128, 5]), kv(r, 4, &[1, 0]))); }
                args.push((step(&[128, 5]), kv(r, 5, &b)));
                if exit { push(&mut facts, t); } else if set { push(&mut facts, fm_string_decrypt(&b)); }
                if r.chance(1, 2) { args.push((step(&[128, 5]), kv(r, 6, &b))); }
            }
            if (set || r.chance(1, 6)) && r.chance(5, 6) {
                let (b, t) = calc(r);
                if r.chance(1, 2) { args.push((step(&[129, 5]), kv(r, 4, &[1, 0]))); }
                args.push((step(&[129, 5]), kv(r, 5, &b)));
                push(&mut facts, t);
            }
            if r.chance(1, 6) { let (b, _) = calc(r); args.push((step(&[130, 5]), kv(r, 5, &b))); }
        }
        if long {
            let d = dirs(&[17, 5, *s, 4]);
            let mut segs = vec![];
            let mut rest = &bytes[..];
            let mut no = 1u8;
            while !rest.is_empty() {
                let n = r.range(1, if r.chance(1, 4) { 3000 } else { 600 }).min(rest.len());
                let mut c = vec![0x07, no, (n >> 8) as u8, n as u8];
                c.extend(&rest[..n]);
                segs.push((d.clone(), c));
                rest = &rest[n..];
                no += 1;
            }
            if r.chance(1, 3) { segs.reverse(); }
            scr.extend(segs);
        } else {
            scr.push((dirs(&[17, 5, *s]), kv(r, 4, &bytes)));
            if r.chance(1, 3) { scr.push((dirs(&[17, 5, *s]), noise(r, &[]))); }
        }
        scr.extend(args);
        want.insert(format!("script {}", s), format!("{:?} {:?}", names[s], facts));
    }
    groups.push(scr);
    // data sources
    let mut dss: Vec<Rec> = vec![];
    let dsn = ids(r, r.below(size + 1), 1, 255);
    let mut index: Vec<String> = dsn.iter().map(|_| r.word(4)).collect();
    index.sort();
    for n in &index {
        let mut b = vec![0x1a, 2 * n.len() as u8];
        b.extend(n.chars().flat_map(|c| { let (x, y) = crate::dbcharconv::encode_char(c); [x, y] }));
        b.extend([0, 0]);
        dss.push((dirs(&[32, 1, 1]), b));
    }
    for d in &dsn {
        let at = dirs(&[32, 5, *d]);
        let (n, u) = (name(r), text(r));
        let pick = |r: &Rng, n: usize| -> String { (0..n).map(|_| *r.pick(&['a', 'e', 'k', 'z', 'Q', '_', '1'])).collect() };
        let (ty, file) = (pick(r, 4), { let k = r.range(1, 9); pick(r, k) });
        let (mut pb, mut pt) = (vec![], String::new());
        for _ in 0..r.below(6) {
            match r.below(3) { 0 => { pb.push(219); pt.push_str(".."); } 1 => { pb.push(218); pt.push('/'); } _ => { let w = pick(r, 3); pb.extend(mask(&w)); pt.push_str(&w); } }
        }
        let mut loc = vec![0, 0, 0, 1, 4];
        loc.extend(mask(&ty));
        loc.extend([pb.len() as u8, 65, 50]);
        loc.extend(&pb);
        loc.push(file.len() as u8);
        loc.extend(mask(&file));
        dss.push((at.clone(), vec![]));
        dss.push((at.clone(), kv(r, 16, &mask(&n))));
        let mut p = vec![0x06, 130, loc.len() as u8];
        p.extend(&loc);
        dss.push((at.clone(), p));
        if r.chance(1, 3) { let mut e = at.clone(); e.push(dir(r.range(1, 9))); dss.push((e, noise(r, &[16]))); }
        let m = mask(&u);
        let mut q = vec![0x0E, 0x80, 2, m.len() as u8];
        q.extend(m);
        dss.push((at.clone(), q));
        want.insert(format!("data source {}", d), format!("{:?} {} {} {} {:?}", n, ty, pt, file, u));
    }
    groups.push(dss);
    // directories nobody asks for
    let mut other: Vec<Rec> = vec![];
    for _ in 0..r.below(4) {
        let mut d = vec![dir(*r.pick(&[2usize, 5, 9, 14, 33]))];
        for _ in 0..r.below(3) { d.push(dir(r.range(1, 200))); }
        let n = r.below(50);
        other.push((d, if r.chance(1, 2) { noise(r, &[]) } else { let mut v = vec![0x07, 4, 0, n as u8]; v.extend(r.bytes(n)); v }));
    }
    groups.push(other);
    if r.chance(1, 2) { for _ in 0..4 { let i = r.below(groups.len()); let j = r.below(groups.len()); groups.swap(i, j); } }
    File { recs: groups.concat(), want }
}

/// the chunks laid into sectors of the size given: (sector contents, reopening the directories in each)
fn lay_out(r: &Rng, recs: &[Rec], room: usize) -> Vec<Vec<u8>> {
    let mut out: Vec<Vec<u8>> = vec![vec![]];
    let mut cur: Vec<Dir> = vec![];
    for (d, c) in recs {
        loop {
            let common = cur.iter().zip(d).take_while(|(a, b)| a == b).count();
            let mut b = vec![];
            for _ in common..cur.len() { b.push(if r.chance(1, 9) { 0x3D } else { 0x40 }); }
            for x in &d[common..] { b.extend(push_bytes(x)); if r.chance(1, 3) { b.push(0x80); } }
            b.extend(c);
            let used = out.last().unwrap().len();
            if used == 0 || used + b.len() + cur.len() + 8 < room {
                out.last_mut().unwrap().extend(b);
                cur = d.clone();
                break;
            }
            let s = out.last_mut().unwrap();
            if r.chance(1, 2) { for _ in &cur { s.push(0x40); } } else { while s.len() < 4076 { s.push(0x80); } }
            out.push(vec![]);
            cur.clear();
        }
    }
    let s = out.last_mut().unwrap();
    for _ in &cur { s.push(0x40); }
    out
}

fn bytes_of(r: &Rng, sectors: Vec<Vec<u8>>) -> Vec<u8> {
    let spare = r.below(3);
    let count = sectors.len() + spare;
    // sector numbers: 2 is first, the others anywhere behind it
    let mut free: Vec<usize> = (3..2 + count).collect();
    if r.chance(2, 3) { for i in (1..free.len()).rev() { free.swap(i, r.below(i + 1)); } }
    let mut at = vec![2];
    at.extend(&free[..sectors.len() - 1]);
    let mut buf = vec![0u8; 4096 * (2 + count)];
    for b in buf[..4096].iter_mut() { *b = r.byte(); }
    let last = 1 + count;
    buf[4096 + 8..4096 + 12].copy_from_slice(&(last as u32).to_be_bytes());
    for k in &free[sectors.len() - 1..] { for b in buf[4096 * k..4096 * (k + 1)].iter_mut() { *b = r.byte(); } }
    for (i, s) in sectors.iter().enumerate() {
        let o = 4096 * at[i];
        let next = if i + 1 < at.len() { at[i + 1] } else { 0 };
        let prev = if i > 0 { at[i - 1] } else { 0 };
        buf[o + 4..o + 8].copy_from_slice(&(prev as u32).to_be_bytes());
        buf[o + 8..o + 12].copy_from_slice(&(next as u32).to_be_bytes());
        // what else the header holds does not decide what is read
        if r.chance(1, 4) { buf[o] = *r.pick(&[0u8, 1, 1, 255]); }
        if r.chance(1, 4) { buf[o + 1] = r.byte(); }
        if r.chance(1, 4) { for b in buf[o + 12..o + 20].iter_mut() { *b = r.byte(); } }
        buf[o + 20..o + 20 + s.len()].copy_from_slice(s);
    }
    buf
}

fn facts_of(f: &FmpFile) -> Facts {
    let mut m = Map::new();
    for (i, t) in &f.tables {
        m.insert(format!("table {}", i), t.table_name.clone());
        for (k, x) in &t.fields { m.insert(format!("field {} of table {}", k, i), format!("{:?}", [&x.field_type, &x.field_description, &x.field_name, &x.created_by_account, &x.created_by_user])); }
    }
    for (i, o) in &f.table_occurrences { m.insert(format!("occurrence {}", i), format!("{:?} of table {}", o.table_occurence_name, o.table_actual)); }
    for (i, x) in &f.relationships { m.insert(format!("relationship {}", i), format!("{}.{} {:?} {}.{}", x.table1, x.field1, x.comparison, x.table2, x.field2)); }
    for (i, l) in &f.layouts { m.insert(format!("layout {}", i), format!("{:?} on {}", l.layout_name, l.table_occurrence)); }
    for (i, s) in &f.scripts {
        let steps: Vec<(Instruction, usize, Vec<String>)> = s.instructions.iter().map(|x| (x.opcode.clone(), x.index, x.switches.clone())).collect();
        m.insert(format!("script {}", i), format!("{:?} {:?}", s.script_name, steps));
    }
    for (i, d) in &f.data_sources { m.insert(format!("data source {}", i), format!("{:?} {} {} {} {:?}", d.source_name, d.source_location.source_type, d.source_location.source_path, d.source_location.source_filename, d.created_by_user)); }
    m
}

fn judge(seed: u64, size: usize, room: usize) -> Out {
    let r = Rng::new(seed);
    let f = build(&r, size);
    let buf = bytes_of(&r, lay_out(&r, &f.recs, room));
    std::fs::write("vp.fmp12", &buf).unwrap();
    let got = facts_of(&decompile_fmp12_file(std::path::Path::new("vp.fmp12")));
    for (k, v) in &f.want {
        match got.get(k) { None => return Out::Bad(format!("{} is missing, expected {}", k, v)), Some(g) if g != v => return Out::Bad(format!("{} is {}, expected {}", k, g, v)), _ => {} }
    }
    for (k, v) in &got { if !f.want.contains_key(k) { return Out::Bad(format!("{} ({}) is not in the file", k, v)); } }
    Out::Ok
}

pub fn vp_main() {
    run("files generated from random components (tables with fields, occurrences, relationships with criteria, layouts, scripts short and in segments with step arguments, data sources, unrelated records), written as chunks in every key/value form into chains of 1 to many sectors, re-opened directories included; a case is its seed, its size and the room used per sector; non-trivial: at least one component", |c| {
        let n = c.scale(6000, 60000);
        for i in 0..n {
            if c.done() { break; }
            let seed = c.rng.next();
            let size = if i % 60 == 59 { 40 } else { 1 + i % 7 };
            let room = if i % 120 == 59 { 64 } else { [4076usize, 700, 4076, 1500][(i / 7) % 4] };
            c.case(format!("file seed={} size={} room={}", seed, size, room), size > 1, move || judge(seed, size, room));
        }
    });
}
