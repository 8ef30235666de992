// the format's chunk layout, written independently of chunk.rs
#[derive(Clone, Debug, Default)]
pub struct R {
    pub kind: usize, // discriminants of ChunkType
    pub simple: Option<usize>,
    pub rf: Option<(usize, usize)>,
    pub seg: Option<usize>,
    pub data: Option<(usize, usize)>,
    pub next: usize,
    pub push: Option<usize>,
    pub pop: bool,
}

/// Err(()): the buffer does not hold the operands; Ok(None): not a chunk
pub fn rule(c: &[u8], o: usize) -> Result<Option<R>, ()> {
    let g = |i: usize| c.get(i).map(|x| *x as usize).ok_or(());
    let g2 = |i: usize| Ok::<usize, ()>(g(i)? * 256 + g(i + 1)?);
    let p2 = |i: usize| { g(i)?; Ok::<usize, ()>(0x80 + g(i + 1)?) };
    let raw = g(o)?;
    let op = if raw >= 0xC0 { raw - 0xC0 } else { raw };
    let mut r = R::default();
    let simple = |a: usize, n: usize, next: usize| R { kind: 0, data: Some((a, n)), next, ..R::default() };
    let sref = |k: usize, a: usize, n: usize| R { kind: 1, simple: Some(k), data: Some((a, n)), next: a + n, ..R::default() };
    let lref = |ra: usize, rn: usize, a: usize, n: usize| R { kind: 2, rf: Some((ra, rn)), data: Some((a, n)), next: a + n, ..R::default() };
    let seg = |s: usize, a: usize, n: usize| R { kind: 3, seg: Some(s), data: Some((a, n)), next: a + n, ..R::default() };
    let push = |d: usize, a: usize, n: usize, next: usize| R { kind: 4, push: Some(d), data: Some((a, n)), next, ..R::default() };
    r = match op {
        0x00 => { if c.len() < 2 { return Err(()); } simple(o + 1, 0, o + 2) }
        0x01 => sref(g(o + 1)?, o + 2, 1),
        0x02..=0x05 => sref(g(o + 1)?, o + 2, [2, 4, 6, 8][op - 2]),
        0x06 => sref(g(o + 1)?, o + 3, g(o + 2)?),
        0x07 => seg(g(o + 1)?, o + 4, g2(o + 2)?),
        0x08 => simple(o + 1, 2, o + 3),
        0x09 => sref(p2(o + 1)?, o + 3, 1),
        0x0A..=0x0D => sref(p2(o + 1)?, o + 3, [2, 4, 6, 8][op - 10]),
        0x0E => if g(o + 1)? == 0xFF { simple(o + 1, 6, o + 7) } else { sref(p2(o + 1)?, o + 4, g(o + 3)?) },
        0x0F => if g(o + 1)? == 0x80 { seg(g(o + 2)?, o + 5, g2(o + 3)?) } else { return Ok(None) },
        0x10 => simple(o + 1, 3, o + 4),
        0x11 => simple(o + 1, 4, o + 5),
        0x12..=0x15 => { let n = [5, 7, 9, 11][op - 0x12]; simple(o + 1, n, o + 1 + n) }
        0x16 => lref(o + 1, 3, o + 5, g(o + 4)?),
        0x17 => lref(o + 1, 3, o + 6, p2(o + 4)?),
        0x1B if g(o + 1)? == 0 => sref(g(o + 2)?, o + 3, 4),
        0x19..=0x1D => { let n = g(o + 1)?; simple(o + 2, n, o + 2 + n + [1, 2, 4, 6, 8][op - 0x19]) }
        0x1E => { let n = g(o + 1)?; lref(o + 2, n, o + 3 + n, g(o + 2 + n)?) }
        0x1F => { let n = g(o + 1)?; lref(o + 2, n, o + 4 + n, g2(o + 2 + n)?) }
        0x20 => if g(o + 1)? == 0xFE { push(g(o + 2)?, o + 2, 8, o + 10) } else { push(g(o + 1)?, o + 1, 1, o + 2) },
        0x23 => { let n = g(o + 1)?; simple(o + 2, n, o + 2 + n) }
        0x28 => push(p2(o + 1)?, o + 1, 2, o + 3),
        0x30 => push(0, o + 1, 3, o + 4),
        0x38 => { let n = g(o + 1)?; push(p2(o + 2)?, o + 2, 2, o + 2 + n) }
        0x3D | 0x40 => R { kind: 5, pop: true, next: o + 1, ..R::default() },
        0x80 => R { kind: 6, next: o + 1, ..R::default() },
        _ => return Ok(None),
    };
    if let Some((a, n)) = r.data { if a + n > c.len() { return Err(()); } }
    Ok(Some(r))
}

/// one random chunk with opcode `op` (its bytes, operands complete)
pub fn gen_chunk(rng: &crate::vp_fw::Rng, op: u8) -> Vec<u8> {
    let len_limit = *rng.pick(&[0usize, 1, 2, 3, 7, 20, 255]);
    let base = if op >= 0xC0 { op - 0xC0 } else { op };
    let mut v = vec![op];
    for _ in 0..12 { v.push(if rng.chance(1, 3) { *rng.pick(&[0u8, 0xFF, 0xFE, 0x80, 1, 0x7f]) } else { rng.byte() }); }
    let n = rng.below(len_limit + 1);
    match base {
        0x06 => v[2] = n as u8,
        0x07 => { let big = rng.chance(1, 6); v[2] = if big { rng.range(1, 4) as u8 } else { 0 }; v[3] = n as u8; }
        0x0E => { if rng.chance(1, 3) { v[1] = 0xFF } else { v[3] = n as u8 } }
        0x0F => { if rng.chance(4, 5) { v[1] = 0x80; v[3] = if rng.chance(1, 6) { 2 } else { 0 }; v[4] = n as u8; } }
        0x16 => v[4] = n as u8,
        0x17 => { v[5] = n as u8; }
        0x19..=0x1D | 0x23 | 0x38 => v[1] = n as u8,
        0x1E | 0x1F => { v[1] = rng.below(30) as u8; }
        _ => {}
    }
    while v.len() < 700 { v.push(rng.byte()); }
    if base == 0x1F { let k = 2 + v[1] as usize; v[k] = if rng.chance(1, 6) { 1 } else { 0 }; }
    if let Ok(Some(r)) = rule(&v, 0) {
        let end = r.next.max(r.data.map(|(a, n)| a + n).unwrap_or(0));
        while v.len() < end { v.push(rng.byte()); }
        v.truncate(end.max(2));
    } else { v.truncate(3); }
    v
}
