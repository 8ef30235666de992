//@ mount decompile/decompiler.rs
// C10: random token sequences rendered by the real function against a token-by-token oracle.
use super::*;
use crate::vp_fw::{hex, run, Out, Rng};

const OPS: &[(u8, &str)] = &[(4, "("), (5, ")"), (0x2d, "Abs"), (0x9b, "Get"), (0x9d, "Acos"), (0x25, "+"), (0x26, "-"), (0x27, "*"), (0x28, "/"),
    (0x41, "<"), (0x43, "<="), (0x44, "=="), (0x46, "!="), (0x47, ">="), (0x49, ">"), (0x50, "&"), (0x0c, " ")];
const GETS: &[(u8, &str)] = &[(0x1d, "CurrentTime"), (0x20, "AccountName"), (0x49, "DocumentsPath"), (0x5d, "DocumentsPathListing")];

fn text_of(b: &[u8]) -> String { String::from_utf8(b.iter().map(|x| x ^ 0x5a).collect()).unwrap_or("value not utf-8.".to_string()) }

/// one token: its bytes and its text
fn token(rng: &Rng, kind: usize) -> (Vec<u8>, String) {
    let content = |rng: &Rng| -> Vec<u8> {
        let mut b: Vec<u8> = match rng.below(6) {
            0 => vec![], 1 => { let n = rng.below(8); rng.bytes(n) } 2 => { let n = *rng.pick(&[1usize, 127, 254, 255]); rng.word(n).bytes().map(|x| x ^ 0x5a).collect() }
            _ => { let n = rng.below(20); rng.text(n).bytes().map(|x| x ^ 0x5a).collect() }
        };
        b.truncate(255);
        b
    };
    match kind {
        k if k < OPS.len() => (vec![OPS[k].0], OPS[k].1.to_string()),
        17 => { let (c, t) = if rng.chance(3, 4) { *rng.pick(GETS) } else { let b = rng.byte(); (b, GETS.iter().find(|g| g.0 == b).map(|g| g.1).unwrap_or("")) }; (vec![0x9c, c], t.to_string()) }
        18 => { let c = if rng.chance(1, 2) { 3 } else { rng.byte() }; (vec![0xfb, c], if c == 3 { "Char".into() } else { String::new() }) }
        19 => { let b = rng.bytes(19); let t = b[8].to_string(); let mut v = vec![0x10]; v.extend(b); (v, t) }
        20 => { let b = content(rng); let t = format!("\"{}\"", text_of(&b)); let mut v = vec![0x13, b.len() as u8]; v.extend(b); (v, t) }
        21 => { let b = content(rng); let t = text_of(&b); let mut v = vec![0x1a, b.len() as u8]; v.extend(b); (v, t) }
        _ => { // a code outside the table
            loop { let c = rng.byte(); if ![0x9c, 0xfb, 0x10, 0x13, 0x1a].contains(&c) && !OPS.iter().any(|o| o.0 == c) { return (vec![c], String::new()); } } }
    }
}

fn judge(code: Vec<u8>, want: String) -> impl FnOnce() -> Out {
    move || { let got = decompile_calculation(&code); if got == want { Out::Ok } else { Out::Bad(format!("rendered {:?}, expected {:?}", got, want)) } }
}

pub fn vp_main() {
    run("every single byte code, every token kind alone and in random sequences of up to 30 tokens with text of every UTF-8 width and invalid UTF-8; non-trivial: at least one token", |c| {
        c.case("calculation ".into(), false, judge(vec![], String::new()));
        for k in 0..23 { for _ in 0..60 { let (b, t) = token(&c.rng, k); c.case(format!("calculation {}", hex(&b)), true, judge(b.clone(), t)); } }
        for _ in 0..c.scale(20000, 400000) {
            if c.done() { return; }
            let n = if c.rng.chance(1, 200) { c.rng.range(300, 3000) } else { c.rng.range(1, 30) };
            let (mut b, mut t) = (vec![], String::new());
            for _ in 0..n { let k = if c.rng.chance(1, 2) { c.rng.range(17, 22) } else { c.rng.below(23) }; let (x, y) = token(&c.rng, k); b.extend(x); t.push_str(&y); }
            c.case(format!("calculation {}", hex(&b)), true, judge(b.clone(), t));
        }
    });
}
