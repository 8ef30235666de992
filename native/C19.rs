//@ mount burn_script/parser.rs
// C19 on the real code: random scripts, nested to depth 6, parsed from tokens and from source text.
use super::*;
use crate::vp_fw::{run, Out, Rng};

const NAMES: [(&str, Instruction); 18] = [
    ("perform_script", Instruction::PerformScript), ("go_to_layout", Instruction::GoToLayout), ("go_to_record", Instruction::GoToRecordRequestPage), ("go_to_request", Instruction::GoToRecordRequestPage),
    ("enter_find_mode", Instruction::EnterFindMode), ("perform_find", Instruction::PerformFind), ("show_all_records", Instruction::ShowAllRecords), ("set_field", Instruction::SetField),
    ("set_variable", Instruction::SetVariable), ("loop", Instruction::Loop), ("if", Instruction::If), ("elif", Instruction::ElseIf), ("else", Instruction::Else), ("exit_loop_if", Instruction::ExitLoopIf),
    ("new_record_request", Instruction::NewRecordRequest), ("exit_script", Instruction::ExitScript), ("show_custom_dialog", Instruction::ShowCustomDialog), ("assert", Instruction::Assert)];

struct Gen { free: bool, toks: Vec<(TokenType, String)>, text: String, steps: Vec<(Instruction, Vec<String>)> }
impl Gen {
    fn tok(&mut self, t: TokenType, v: &str) { self.toks.push((t, v.to_string())); }
    fn args(&mut self, r: &Rng, min: usize) -> Vec<String> {
        let k = if r.chance(1, 300) { r.range(200, 400) } else if r.chance(1, 12) { r.range(min, 12) } else { r.range(min, 3) };
        // the parser gets any text as an argument; in source text it is a plain word
        let a: Vec<String> = (0..k).map(|_| { let k = r.range(1, 4); if self.free && r.chance(1, 2) { r.odd(k, "") } else { r.word(k) } }).collect();
        for x in &a { self.tok(TokenType::Argument, x); }
        if k > 0 { self.text.push_str(&format!("({})", a.join(", "))); }
        a
    }
    fn body(&mut self, r: &Rng, depth: usize, budget: &mut usize) {
        for _ in 0..r.below(4) {
            if *budget == 0 { return; }
            *budget -= 1;
            match if depth == 0 { 0 } else { r.below(5) } {
                3 => {
                    self.tok(TokenType::Loop, ""); self.tok(TokenType::OpenBracket, ""); self.text.push_str(" loop { "); self.steps.push((Instruction::Loop, vec![]));
                    self.body(r, depth - 1, budget);
                    self.tok(TokenType::CloseBracket, ""); self.text.push_str(" } "); self.steps.push((Instruction::EndLoop, vec![]));
                }
                4 => {
                    self.tok(TokenType::If, ""); self.text.push_str(" if "); let a = self.args(r, 1); self.tok(TokenType::OpenBracket, ""); self.text.push_str(" { "); self.steps.push((Instruction::If, a));
                    self.body(r, depth - 1, budget);
                    for _ in 0..r.below(3) {
                        self.tok(TokenType::CloseBracket, ""); self.tok(TokenType::Elif, ""); self.text.push_str(" } elif"); let a = self.args(r, 1);
                        self.tok(TokenType::OpenBracket, ""); self.text.push_str(" { "); self.steps.push((Instruction::ElseIf, a));
                        self.body(r, depth - 1, budget);
                    }
                    if r.chance(1, 2) {
                        self.tok(TokenType::CloseBracket, ""); self.tok(TokenType::Else, ""); self.tok(TokenType::OpenBracket, ""); self.text.push_str(" } else { "); self.steps.push((Instruction::Else, vec![]));
                        self.body(r, depth - 1, budget);
                    }
                    self.tok(TokenType::CloseBracket, ""); self.text.push_str(" } "); self.steps.push((Instruction::EndIf, vec![]));
                }
                _ => {
                    // the four block words are kept for blocks when the text is lexed
                    let (n, op) = loop { let x = r.pick(&NAMES); if !["loop", "if", "elif", "else"].contains(&x.0) { break x.clone(); } };
                    self.tok(TokenType::Identifier, n); self.text.push_str(n); let a = self.args(r, 0);
                    self.tok(TokenType::SemiColon, ""); self.text.push_str(";\n"); self.steps.push((op, a));
                }
            }
        }
    }
}
fn judge(toks: Vec<Token>, want: Vec<(String, Vec<String>, Vec<(Instruction, Vec<String>)>)>) -> Out {
    let p = Parser::new(toks);
    let got = match p.parse() { Ok(g) => g, Err(e) => return Out::Bad(format!("refused: {e}")) };
    let got: Vec<_> = got.into_iter().map(|s| (s.script_name, s.arguments, s.instructions.into_iter().map(|x| (x.opcode, x.switches)).collect::<Vec<_>>())).collect();
    if got != want { return Out::Bad(format!("{got:?} instead of {want:?}")); }
    Out::Ok
}
pub fn vp_main() {
    run("every step name; random programs of one to three scripts nested up to depth 6, from tokens and from their source text; non-trivial: at least 4 steps", |c| {
        for (n, op) in NAMES.iter() { c.case(format!("step {n}"), true, || if Instruction::from_str(n) == Ok(op.clone()) { Out::Ok } else { Out::Bad(format!("{:?}", Instruction::from_str(n))) }); }
        for i in 0..c.scale(4000, 80000) {
            if c.done() { break; }
            let r = &c.rng;
            let mut toks = vec![]; let mut text = String::new(); let mut want = vec![]; let mut n = 0;
            let big = i % 100 > 97;
            for _ in 0..if big { r.range(1, 30) } else { r.range(1, 3) } {
                let mut g = Gen { free: i % 2 == 0, toks: vec![], text: String::new(), steps: vec![] };
                let name = if r.chance(1, 2) { format!("s{}", r.below(5)) } else { r.ident() };
                g.tok(TokenType::Define, ""); g.tok(TokenType::Identifier, &name); g.text.push_str(&format!("define {name}"));
                let a = g.args(r, 0);
                g.tok(TokenType::OpenBracket, ""); g.text.push_str(" {\n");
                let mut budget = if big { r.range(30, 400) } else { r.range(3, 25) };
                while budget > 0 && r.chance(4, 5) { let d = if big { r.below(80) } else { r.below(7) }; g.body(r, d, &mut budget); }
                g.tok(TokenType::CloseBracket, ""); g.text.push_str("}\n");
                n += g.steps.len();
                toks.extend(g.toks); text.push_str(&g.text); want.push((name, a, g.steps));
            }
            if i % 2 == 0 {
                let t2: Vec<Token> = toks.into_iter().map(|(t, v)| Token::with_value(t, &v)).collect();
                c.case(format!("tokens {t2:?}"), n >= 4, move || judge(t2, want));
            } else {
                c.case(format!("text {text:?}"), n >= 4, move || judge(crate::burn_script::lexer::Lexer::new(text).get_tokens(), want));
            }
        }
    });
}
