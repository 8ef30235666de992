//@ mount burn_script/lexer.rs
// C25 on the real code: random element sequences -> script text -> tokens.
use super::*;
use crate::vp_fw::{run, Out, Rng};

type Tok = (String, String);
fn show(t: &Token) -> Tok { (format!("{:?}", t.ttype), t.value.clone()) }
fn k(s: &str, v: &str) -> Tok { (s.to_string(), v.to_string()) }

fn name(r: &Rng) -> String {
    match r.below(10) {
        2 => r.ident(),
        0 => r.pick(&["inf", "nan", "infinity", "NaN", "e5", "defined", "iff", "Let", "loop_", "else2", "_", "::", "A::B", "x.y", "[", "a[1]", "\"q\"", "a\"b", "1a", "0x10", "1_000"]).to_string(),
        1 => r.pick(&["\u{e9}t\u{e9}", "\u{4e2d}\u{6587}", "\u{1F600}", "na\u{ef}ve"]).to_string(),
        _ => { let n = r.range(0, 8); format!("k{}", r.word(n)) }
    }
}
fn number(r: &Rng) -> String {
    match r.below(6) { 0 => format!("{}.{}", r.below(1000), r.below(1000)), 1 => format!(".{}", r.below(100)), 2 if r.chance(1, 2) => { let n = r.range(1, 60); (0..n).map(|_| *r.pick(&['0', '1', '5', '9'])).collect() } 3 => format!("{}e{}", r.range(1, 99), r.below(300)), 2 => format!("00{}", r.below(100)), 4 => format!("{}.", r.below(50)), _ => format!("{}", r.below(1_000_000)) }
}
fn space(r: &Rng, out: &mut String, must: bool) {
    let n = r.below(3) + must as usize;
    for _ in 0..n { out.push(*r.pick(&[' ', '\n', '\t', '\r', '\u{a0}', '\u{3000}', ' '])); }
}
/// text of an argument: parentheses match outside strings, commas are inside parentheses or strings
fn arg(r: &Rng, depth: usize, out: &mut String) {
    for _ in 0..r.below(4) {
        match r.below(9) {
            0 if r.chance(1, 2) => { let k = r.below(6); out.push('"'); out.push_str(&r.odd(k, "\"")); out.push('"'); }
            0 => { out.push('"'); for _ in 0..r.below(6) { out.push(*r.pick(&['a', ' ', ',', '(', ')', ';', '{', '}', '=', '\u{e9}', '\n'])); } out.push('"'); }
            1 if depth < 4 => { out.push('('); arg(r, depth + 1, out); if r.chance(1, 2) { out.push(','); arg(r, depth + 1, out); } out.push(')'); }
            2 if depth > 0 => { out.push(','); }
            3 => out.push_str(r.pick(&[" + ", " == ", " & ", "-", "*", "/", " ", "{", "}", ";", "\n", "\t"])),
            4 => out.push_str(&number(r)),
            _ => out.push_str(&name(r).replace('"', "").replace('(', "").replace(')', "")),
        }
    }
}
fn element(r: &Rng, text: &mut String, toks: &mut Vec<Tok>, word_before: &mut bool) {
    let had = *word_before;
    *word_before = false;
    match r.below(7) {
        0 | 1 | 2 => {
            if had { space(r, text, true); }
            let (w, t) = match r.below(4) {
                0 => { let (w, t) = *r.pick(&[("define", "Define"), ("let", "Let"), ("loop", "Loop"), ("if", "If"), ("elif", "Elif"), ("else", "Else")]); (w.to_string(), k(t, "")) }
                1 => { let n = number(r); let t = k("NumericLiteral", &n); (n, t) }
                _ => { let n = name(r); let t = k("Identifier", &n); (n, t) }
            };
            text.push_str(&w); toks.push(t); *word_before = true;
        }
        3 | 4 => {
            let (c, t) = *r.pick(&[('{', "OpenBracket"), ('}', "CloseBracket"), (',', "Comma"), (';', "SemiColon"), ('+', "Plus"), ('-', "Minus"), ('*', "Multiply"), ('/', "Divide"), ('&', "Ampersand")]);
            space(r, text, false); text.push(c); toks.push(k(t, ""));
        }
        5 => {
            let (c, t) = *r.pick(&[("==", "Eq"), ("!=", "Neq"), (">=", "Geq"), ("<=", "Leq"), ("= ", "Assign"), ("! ", "Assign"), ("> ", "Gt"), ("< ", "Lt"), ("=a", "Assign"), (">a", "Gt"), ("<b", "Lt"), ("<1", "Lt"), (">;", "Gt"), ("=;", "Assign"), ("<,", "Lt"), ("<-", "Lt")]);
            space(r, text, false); text.push_str(c); toks.push(k(t, ""));
            match c.chars().nth(1).unwrap() {
                'a' | 'b' => { let n = format!("{}", &c[1..]); toks.push(k("Identifier", &n)); *word_before = true; }
                '1' => { toks.push(k("NumericLiteral", "1")); *word_before = true; }
                ';' => toks.push(k("SemiColon", "")), ',' => toks.push(k("Comma", "")), '-' => toks.push(k("Minus", "")),
                _ => {}
            }
        }
        _ => {
            if r.chance(1, 4) { space(r, text, false); }
            text.push('(');
            for i in 0..if r.chance(1, 400) { r.range(100, 400) } else { r.range(1, 4) } {
                if i > 0 { text.push(','); }
                for _ in 0..r.below(3) { text.push(' '); }
                let mut a = String::new(); arg(r, 0, &mut a);
                if r.chance(1, 400) { let k = r.range(100, 400); a = format!("{}{a}{}", "f(".repeat(k), ")".repeat(k)); }
                let a = a.trim_start_matches(' ').to_string();
                text.push_str(&a); toks.push(k("Argument", &a));
            }
            text.push(')');
        }
    }
}
fn first_diff(a: &[Tok], b: &[Tok]) -> String {
    let i = (0..a.len().min(b.len())).find(|i| a[*i] != b[*i]).unwrap_or(a.len().min(b.len()));
    format!("token {} is {:?} instead of {:?} ({} tokens, {} expected)", i, a.get(i), b.get(i), a.len(), b.len())
}
pub fn vp_main() {
    run("random sequences of up to 25 words, marks, comparisons and argument lists as script text; non-trivial: at least 4 tokens", |c| {
        for i in 0..c.scale(30000, 1000000) {
            if c.done() { break; }
            let (mut text, mut toks, mut w) = (String::new(), vec![], false);
            let n = if i % 300 == 299 { c.rng.range(500, 3000) } else { c.rng.range(0, 25) };
            for _ in 0..n { element(&c.rng, &mut text, &mut toks, &mut w); }
            if w { text.push('\n'); }
            let t = text.clone();
            c.case(format!("text {:?}", text), toks.len() >= 4, move || {
                let got: Vec<Tok> = Lexer::new(t).get_tokens().iter().map(show).collect();
                if got == toks { Out::Ok } else { Out::Bad(first_diff(&got, &toks)) }
            });
        }
    });
}
