//@ mount compile/parser.rs
// C20 on the real code: random programs of all kinds of declaration, as tokens and as source text, and malformed ones.
use super::*;
use crate::vp_fw::{run, Out, Rng};

#[derive(Debug, Default, Clone, PartialEq)]
struct Want { tables: Vec<String>, rels: Vec<(String, String)>, lists: Vec<String>, scripts: Vec<String>, occs: Vec<(String, String)>, tests: Vec<(String, String)> }
#[derive(Debug, Clone)]
struct Gen { toks: Vec<(TT, String)>, text: String, want: Want }
#[derive(Debug, Clone, Copy, PartialEq)]
enum TT { Table, Rel, VList, Script, Test, Occ, Id, Colon, Comma, Semi, OpenSq, CloseSq, End, Str, EComp, Excl, Num }
fn tt(t: TT) -> TokenType {
    match t { TT::Table => TokenType::Table, TT::Rel => TokenType::Relationship, TT::VList => TokenType::ValueList, TT::Script => TokenType::Script, TT::Test => TokenType::Test, TT::Occ => TokenType::TableOccurence,
        TT::Id => TokenType::Identifier, TT::Colon => TokenType::Colon, TT::Comma => TokenType::Comma, TT::Semi => TokenType::SemiColon, TT::OpenSq => TokenType::OpenSquare, TT::CloseSq => TokenType::CloseSquare,
        TT::End => TokenType::End, TT::Str => TokenType::String, TT::EComp => TokenType::EComparison, TT::Excl => TokenType::Exclamation, TT::Num => TokenType::NumericLiteral }
}
impl Gen {
    fn t(&mut self, t: TT, s: &str) { self.toks.push((t, if matches!(t, TT::Id | TT::Num) { s.to_string() } else { String::new() })); self.text.push_str(s); }
    fn sp(&mut self, s: &str) { self.text.push_str(s); }
    fn name(&mut self, r: &Rng) -> String { let n = r.ident(); self.t(TT::Id, &n); n }
    fn end(&mut self, k: TT, word: &str) { self.t(TT::End, "end"); self.sp(" "); self.t(k, word); self.t(TT::Semi, ";"); self.sp("\n"); }
    fn block(&mut self, r: &Rng, most: usize) -> Vec<String> {
        let (mut names, mut text) = (vec![], String::from("\n"));
        for _ in 0..r.range(1, most) {
            let n = r.ident(); let x = r.word(1);
            text.push_str(&format!(" define {n}({x}) {{ set_variable({x}, {}, \"{}\"); }}\n", r.below(100), { let k = r.below(4); r.odd(k, "\"]") })); names.push(n);
        }
        self.t(TT::OpenSq, "["); self.toks.push((TT::Script, text.clone())); self.sp(&text); names
    }
    fn fields(&mut self, r: &Rng) {
        for _ in 0..r.below(4) {
            self.name(r); self.t(TT::Colon, ":"); self.sp(" ");
            for i in 0..r.range(1, 3) { if i > 0 { self.t(TT::Comma, ","); self.sp(" "); } if r.chance(1, 4) { self.t(TT::Num, &format!("{}", r.below(50))); } else { self.name(r); } }
            self.t(TT::Comma, ","); self.sp("\n  ");
        }
    }
    fn decl(&mut self, r: &Rng) {
        match r.below(6) {
            0 => { self.t(TT::Table, "table"); self.sp(" "); let n = self.name(r); self.t(TT::Colon, ":"); self.sp("\n  "); self.fields(r); self.end(TT::Table, "table"); self.want.tables.push(n); }
            1 => {
                self.t(TT::Rel, "relationship"); self.t(TT::Colon, ":"); self.sp("\n  ");
                let a = self.name(r); self.t(TT::Colon, ":"); let b = self.name(r); self.t(TT::Comma, ","); self.sp("\n  ");
                for _ in 0..r.below(3) { self.name(r); self.sp(" "); self.t(TT::EComp, "=="); self.sp(" "); self.name(r); self.t(TT::Comma, ","); self.sp("\n  "); }
                self.end(TT::Rel, "relationship"); self.want.rels.push((a, b));
            }
            2 => {
                self.t(TT::VList, "value_list"); self.sp(" "); let n = self.name(r); self.t(TT::Colon, ":"); self.sp(" ");
                for i in 0..r.below(4) { if i > 0 { self.t(TT::Comma, ","); self.sp(" "); } self.name(r); }
                self.sp(" "); self.end(TT::VList, "value_list"); self.want.lists.push(n);
            }
            3 => { self.t(TT::Script, "script"); self.t(TT::Colon, ":"); self.sp(" "); let n = self.block(r, 3); self.t(TT::CloseSq, "]"); self.sp("\n"); self.want.scripts.extend(n); }
            4 => {
                self.t(TT::Occ, "table_occurence"); self.sp(" "); let n = self.name(r); self.t(TT::Colon, ":"); self.sp("\n  ");
                self.t(TT::Table, "table"); self.t(TT::Colon, ":"); self.sp(" "); let m = self.name(r); self.t(TT::Comma, ","); self.sp("\n"); self.end(TT::Occ, "table_occurence"); self.want.occs.push((n, m));
            }
            _ => {
                self.t(TT::Test, "test"); self.sp(" "); let n = self.name(r); self.t(TT::Colon, ":"); self.sp("\n  ");
                let s = if r.chance(5, 6) { self.t(TT::Script, "script"); self.t(TT::Colon, ":"); self.sp(" "); let s = self.block(r, 1).remove(0); self.t(TT::CloseSq, "]"); self.t(TT::Comma, ","); s } else { String::new() };
                self.sp("\n"); self.end(TT::Test, "test"); self.want.tests.push((n, s));
            }
        }
    }
}
fn vals<T: Clone>(m: &std::collections::HashMap<usize, T>, first: usize) -> Result<Vec<T>, String> {
    (0..m.len()).map(|i| m.get(&(i + first)).cloned().ok_or(format!("numbers {:?} instead of {first}..", m.keys().collect::<Vec<_>>()))).collect()
}
fn seen(f: &FmpFile) -> Result<Want, String> {
    Ok(Want {
        tables: vals(&f.tables, 1)?.into_iter().map(|x| x.table_name).collect(),
        rels: vals(&f.relationships, 1)?.into_iter().map(|x| (x.table1_name, x.table2_name)).collect(),
        lists: vals(&f.value_lists, 1)?.into_iter().map(|x| x.list_name).collect(),
        scripts: vals(&f.scripts, 1)?.into_iter().map(|x| x.script_name).collect(),
        occs: vals(&f.table_occurrences, 0)?.into_iter().map(|x| (x.table_occurence_name, x.table_actual_name)).collect(),
        tests: f.tests.iter().map(|x| (x.test_name.clone(), x.script.script_name.clone())).collect(),
    })
}
fn judge(toks: Vec<Token>, want: Want) -> Out {
    match Parser::new(toks).parse_program() {
        Err(e) => Out::Bad(format!("refused: {e}")),
        Ok(f) => match seen(&f) { Err(e) => Out::Bad(e), Ok(w) if w != want => Out::Bad(format!("{w:?} instead of {want:?}")), _ => Out::Ok },
    }
}
fn real(toks: &[(TT, String)]) -> Vec<Token> { toks.iter().map(|(t, s)| Token { ttype: tt(*t), text: s.clone() }).collect() }
pub fn vp_main() {
    run("random programs of up to 10 declarations of all kinds, from tokens and from source text; each with one flaw; non-trivial: at least 3 declarations of at least 2 kinds", |c| {
        for i in 0..c.scale(4000, 100000) {
            if c.done() { break; }
            let mut g = Gen { toks: vec![], text: String::new(), want: Want::default() };
            let k = if i % 100 > 96 { c.rng.range(100, 600) } else { c.rng.range(0, 10) };
            for _ in 0..k { g.decl(&c.rng); }
            let w = &g.want;
            let kinds = [w.tables.len(), w.rels.len(), w.lists.len(), w.scripts.len(), w.occs.len(), w.tests.len()].iter().filter(|x| **x > 0).count();
            let nt = k >= 3 && kinds >= 2;
            match i % 3 {
                0 => { let t = real(&g.toks); let w = g.want.clone(); c.case(format!("tokens {:?}", g.toks), nt, move || judge(t, w)); }
                1 => { let x = g.text.clone(); let w = g.want.clone(); c.case(format!("text {:?}", g.text), nt, move || judge(crate::compile::lexer::tokenize(&x), w)); }
                _ => {
                    // one flaw at the end of the program, then more tokens
                    let mut b = g.toks.clone();
                    let r = &c.rng;
                    let kinds = [TT::Table, TT::Rel, TT::VList, TT::Occ, TT::Test];
                    let kd = *r.pick(&kinds);
                    let start = |b: &mut Vec<(TT, String)>| { b.push((kd, String::new())); if kd != TT::Rel { b.push((TT::Id, "X".into())); } b.push((TT::Colon, String::new())); };
                    match r.below(7) {
                        0 => b.push((*r.pick(&[TT::Id, TT::Colon, TT::End, TT::Semi, TT::Str, TT::CloseSq]), String::new())),
                        1 => { b.push((kd, String::new())); b.push((*r.pick(&[TT::Comma, TT::Table, TT::End, TT::Str]), String::new())); }
                        2 => { start(&mut b); b.push((TT::End, String::new())); b.push((*r.pick(&[TT::Id, TT::Semi, TT::Script, if kd == TT::Table { TT::Occ } else { TT::Table }]), String::new())); }
                        3 => { start(&mut b); b.push((TT::End, String::new())); b.push((kd, String::new())); b.push((*r.pick(&[TT::Id, TT::Comma, TT::Table]), String::new())); }
                        4 => { b.push((TT::Script, String::new())); b.push((*r.pick(&[TT::Id, TT::Comma, TT::OpenSq]), String::new())); }
                        5 => { b.push((TT::Script, String::new())); b.push((TT::Colon, String::new())); b.push((*r.pick(&[TT::Id, TT::Comma, TT::CloseSq]), String::new())); }
                        _ => { b.push((TT::Script, String::new())); b.push((TT::Colon, String::new())); b.push((TT::OpenSq, String::new())); b.push((TT::Script, " define a() { exit_script(1); } ".into())); b.push((*r.pick(&[TT::Id, TT::Comma, TT::OpenSq]), String::new())); }
                    }
                    for _ in 0..3 { b.push((*r.pick(&[TT::Id, TT::Comma, TT::Semi, TT::Colon]), "y".into())); }
                    let t = real(&b);
                    c.case(format!("flawed {b:?}"), true, move || match Parser::new(t).parse_program() { Err(_) => Out::Ok, Ok(_) => Out::Bad("accepted".into()) });
                }
            }
        }
    });
}
