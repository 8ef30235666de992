//@ mount compile/lexer.rs
// C26 on the real code: random element sequences -> schema text -> tokens.
use super::*;
use crate::vp_fw::{run, Out, Rng};

type Tok = (String, String);
fn show(t: &Token) -> Tok { (format!("{:?}", t.ttype), t.text.clone()) }
fn k(s: &str, v: &str) -> Tok { (s.to_string(), v.to_string()) }
fn name(r: &Rng) -> String {
    match r.below(10) {
        2 => r.ident(),
        0 => r.pick(&["inf", "nan", "infinity", "NaN", "e5", "tables", "ends", "End", "script_", "table2", "_", "x.y", "<", "a>b", "+", "-x", "&", "#", "relationship1"]).to_string(),
        1 => r.pick(&["\u{e9}t\u{e9}", "\u{4e2d}\u{6587}", "\u{1F600}", "na\u{ef}ve"]).to_string(),
        _ => { let n = r.range(0, 8); format!("k{}", r.word(n)) }
    }
}
fn number(r: &Rng) -> String {
    match r.below(6) { 0 => format!("{}.{}", r.below(1000), r.below(1000)), 1 => format!(".{}", r.below(100)), 2 if r.chance(1, 2) => { let n = r.range(1, 60); (0..n).map(|_| *r.pick(&['0', '1', '5', '9'])).collect() } 3 => format!("{}e{}{}", r.range(1, 99), r.pick(&["", "-", "+"]), r.below(300)), 2 => format!("00{}", r.below(100)), 4 => format!("-{}", r.below(50)), _ => format!("{}", r.below(1_000_000)) }
}
const WS: [char; 7] = [' ', '\n', '\t', '\r', '\u{a0}', '\u{3000}', ' '];
fn space(r: &Rng, out: &mut String, must: bool) { for _ in 0..r.below(3) + must as usize { out.push(*r.pick(&WS)); } }
fn inside(r: &Rng, out: char, lead: bool) -> String {
    let mut s = String::new();
    for _ in 0..if r.chance(1, 300) { r.range(200, 3000) } else { r.below(12) } {
        match r.below(4) { 3 => s.push_str(&r.odd(1, "")), 0 => s.push(*r.pick(&[' ', '\n', '=', ',', ';', ':', '(', ')', '{', '}', '[', ']', '"', '!'])), 1 => s.push_str(&name(r)), _ => s.push(r.ch()) }
    }
    let s: String = s.chars().filter(|c| *c != out).collect();
    if lead { s } else { s.trim_start().to_string() }
}
pub fn vp_main() {
    run("random sequences of up to 25 words, marks, strings and embedded blocks as schema text; non-trivial: at least 4 tokens", |c| {
        for i in 0..c.scale(30000, 1000000) {
            if c.done() { break; }
            let (mut text, mut toks, mut word, mut follow) = (String::new(), Vec::<Tok>::new(), false, false);
            let r = &c.rng;
            for _ in 0..if i % 300 == 299 { r.range(500, 3000) } else { r.range(0, 25) } {
                let had = word; let hadf = follow; word = false; follow = false;
                match r.below(8) {
                    0 | 1 | 2 => {
                        if had { space(r, &mut text, true); }
                        let (w, t) = match r.below(4) {
                            0 => { let (w, t) = *r.pick(&[("table", "Table"), ("relationship", "Relationship"), ("value_list", "ValueList"), ("table_occurence", "TableOccurence"), ("script", "Script"), ("test", "Test"), ("end", "End")]); (w.to_string(), k(t, "")) }
                            1 => { let n = number(r); let t = k("NumericLiteral", &n); (n, t) }
                            _ => { let n = name(r); let t = k("Identifier", &n); (n, t) }
                        };
                        text.push_str(&w); toks.push(t); word = true;
                    }
                    3 | 4 => {
                        let (ch, t) = *r.pick(&[(']', "CloseSquare"), (')', "CloseParen"), ('!', "Exclamation"), ('}', "CloseCurly"), (';', "SemiColon"), (':', "Colon"), (',', "Comma")]);
                        space(r, &mut text, false); text.push(ch); toks.push(k(t, ""));
                    }
                    5 => match r.below(3) {
                        0 => { text.push_str("=="); toks.push(k("EComparison", "")); }
                        1 => { text.push('='); text.push(*r.pick(&WS)); toks.push(k("Assign", "")); }
                        _ => if toks.len() - (had as usize).min(toks.len()) >= 2 { text.push('('); toks.push(k("OpenParen", "")); } else { word = had; follow = hadf; }
                    },
                    6 => { let s = inside(r, '"', true); text.push('"'); text.push_str(&s); text.push('"'); toks.push(k("String", &s)); follow = true; }
                    _ => {
                        let (a, b, x, y, z) = if r.chance(1, 2) { ('[', ']', "OpenSquare", "Script", "CloseSquare") } else { ('{', '}', "OpenCurly", "Calculation", "CloseCurly") };
                        if a == '[' && toks.len() - (had as usize).min(toks.len()) < 1 { word = had; follow = hadf; continue; }
                        text.push(a); space(r, &mut text, false); let s = inside(r, b, false); text.push_str(&s); text.push(b);
                        toks.push(k(x, "")); toks.push(k(y, &s)); toks.push(k(z, ""));
                    }
                }
            }
            if word || follow { text.push('\n'); }
            let t = text.clone();
            c.case(format!("text {:?}", text), toks.len() >= 4, move || {
                let got: Vec<Tok> = tokenize(&t).iter().map(show).collect();
                if got == toks { return Out::Ok; }
                let i = (0..got.len().min(toks.len())).find(|i| got[*i] != toks[*i]).unwrap_or(got.len().min(toks.len()));
                Out::Bad(format!("token {} is {:?} instead of {:?} ({} tokens, {} expected)", i, got.get(i), toks.get(i), got.len(), toks.len()))
            });
        }
    });
}
