//@ mount compile/compiler.rs
// C28 on the real code: source text with every kind of declaration and scripts of nested steps, compiled end to end.
use super::*;
use crate::fm_script_engine::fm_script_engine_instructions::{Instruction, ScriptStep};
use crate::component::FMComponentScript;
use crate::burn_script::compiler::BurnScriptCompiler;
use crate::vp_fw::{run, Out, Rng};

const NAMES: [(&str, Instruction); 14] = [
    ("perform_script", Instruction::PerformScript), ("go_to_layout", Instruction::GoToLayout), ("go_to_record", Instruction::GoToRecordRequestPage), ("go_to_request", Instruction::GoToRecordRequestPage),
    ("enter_find_mode", Instruction::EnterFindMode), ("perform_find", Instruction::PerformFind), ("show_all_records", Instruction::ShowAllRecords), ("set_field", Instruction::SetField),
    ("set_variable", Instruction::SetVariable), ("exit_loop_if", Instruction::ExitLoopIf), ("new_record_request", Instruction::NewRecordRequest), ("exit_script", Instruction::ExitScript),
    ("show_custom_dialog", Instruction::ShowCustomDialog), ("assert", Instruction::Assert)];
type Script = (String, Vec<String>, Vec<(Instruction, Vec<String>)>);
#[derive(Debug, Default, Clone, PartialEq)]
struct Want { tables: Vec<String>, rels: Vec<(String, String)>, lists: Vec<String>, scripts: Vec<Script>, occs: Vec<(String, String)>, tests: Vec<(String, Script)>, other: usize }

fn blanks(r: &Rng) -> &'static str { *r.pick(&[" ", "\n", "  ", "\t", "\r\n", "\n\n    ", " \t "]) }
fn maybe(r: &Rng) -> &'static str { if r.chance(1, 2) { "" } else { blanks(r) } }
fn arg(r: &Rng) -> String {
    let piece = |r: &Rng| -> String {
        match r.below(7) {
            6 => { let k = r.below(6); format!("\"{}\"", r.odd(k, "\"]")) }
            0 if r.chance(1, 6) => format!("{}e{}", r.below(100), r.below(300)),
            0 if r.chance(1, 6) => "9".repeat(r.range(15, 60)),
            0 => format!("{}", r.below(1000)),
            1 => format!("\"{}\"", r.pick(&["", "a, b", "x) (", "tab\there", "  two  blanks  ", "Mixed CASE", "// not a comment", "{ } ;", "== !=", "line\nbreak", "é→ü", "# hash", "%", "'"])),
            2 => format!("f({}, {})", r.word(2), r.below(9)),
            3 => format!("${}", r.word(3)),
            _ => { let k = r.range(1, 5); r.word(k) }
        }
    };
    let mut s = piece(r);
    for _ in 0..r.below(3) { s.push_str(r.pick(&[" + ", " & ", " == ", "*", " ≠ ", "  -  "])); s.push_str(&piece(r)); }
    s
}
fn args(r: &Rng, text: &mut String, min: usize) -> Vec<String> {
    let a: Vec<String> = (0..r.range(min, 3)).map(|_| arg(r)).collect();
    if !a.is_empty() { text.push_str(if r.chance(1, 2) { "(" } else { " (" }); for (i, x) in a.iter().enumerate() { if i > 0 { text.push(','); } for _ in 0..r.below(3) { text.push(' '); } text.push_str(x); } text.push(')'); }
    a
}
fn body(r: &Rng, depth: usize, budget: &mut usize, text: &mut String, steps: &mut Vec<(Instruction, Vec<String>)>) {
    for _ in 0..r.below(4) {
        if *budget == 0 { return; }
        *budget -= 1;
        match if depth == 0 { 0 } else { r.below(5) } {
            3 => { text.push_str("loop"); text.push_str(maybe(r)); text.push('{'); steps.push((Instruction::Loop, vec![])); text.push_str(maybe(r)); body(r, depth - 1, budget, text, steps); text.push('}'); steps.push((Instruction::EndLoop, vec![])); }
            4 => {
                text.push_str("if"); let a = args(r, text, 1); text.push_str(maybe(r)); text.push('{'); steps.push((Instruction::If, a)); body(r, depth - 1, budget, text, steps);
                for _ in 0..r.below(3) { text.push('}'); text.push_str(maybe(r)); text.push_str("elif"); let a = args(r, text, 1); text.push('{'); steps.push((Instruction::ElseIf, a)); body(r, depth - 1, budget, text, steps); }
                if r.chance(1, 2) { text.push('}'); text.push_str(maybe(r)); text.push_str("else"); text.push_str(maybe(r)); text.push('{'); steps.push((Instruction::Else, vec![])); body(r, depth - 1, budget, text, steps); }
                text.push('}'); steps.push((Instruction::EndIf, vec![]));
            }
            _ => { let (n, op) = r.pick(&NAMES).clone(); text.push_str(n); let a = args(r, text, 0); text.push_str(maybe(r)); text.push(';'); steps.push((op, a)); }
        }
        text.push_str(blanks(r));
    }
}
fn script(r: &Rng, text: &mut String, name: &str) -> Script {
    text.push_str("define"); text.push_str(blanks(r)); text.push_str(name);
    let a = args(r, text, 0);
    text.push_str(maybe(r)); text.push('{'); text.push_str(maybe(r));
    let mut steps = vec![];
    let big = r.chance(1, 100);
    let mut budget = if big { r.range(20, 300) } else { r.range(1, 20) };
    while budget > 0 && r.chance(3, 4) { let d = if big { r.below(60) } else { r.below(6) }; body(r, d, &mut budget, text, &mut steps); }
    text.push('}');
    (name.to_string(), a, steps)
}
fn block(r: &Rng, most: usize) -> (String, Vec<Script>) {
    let mut text = String::new(); let mut ss = vec![];
    // several scripts may have the same name
    for i in 0..r.range(1, most) { if i > 0 { text.push_str(maybe(r)); } let n = if r.chance(1, 2) { format!("s{}", r.below(4)) } else { r.ident() }; let s = script(r, &mut text, &n); ss.push(s); }
    text.push_str(maybe(r));
    (text, ss)
}
fn fields(r: &Rng, t: &mut String) {
    for _ in 0..r.below(4) {
        t.push_str(&name(r)); t.push(':'); t.push_str(blanks(r));
        for i in 0..r.range(1, 3) { if i > 0 { t.push(','); } t.push_str(maybe(r)); t.push_str(&if r.chance(1, 24) { "7".repeat(r.range(15, 60)) } else if r.chance(1, 4) { format!("{}", r.below(50)) } else { name(r) }); }
        t.push(','); t.push_str(maybe(r));
    }
}
fn name(r: &Rng) -> String { r.ident() }
fn end(r: &Rng, t: &mut String, k: &str) { t.push_str(blanks(r)); t.push_str("end"); t.push_str(blanks(r)); t.push_str(k); t.push_str(maybe(r)); t.push(';'); t.push_str(maybe(r)); }
fn decl(r: &Rng, t: &mut String, w: &mut Want) {
    let k = r.below(6);
    let head = |t: &mut String, word: &str| -> String { t.push_str(word); t.push_str(blanks(r)); let n = name(r); t.push_str(&n); t.push_str(maybe(r)); t.push(':'); t.push_str(maybe(r)); n };
    match k {
        0 => { let n = head(t, "table"); fields(r, t); end(r, t, "table"); w.tables.push(n); }
        1 => {
            t.push_str("relationship"); t.push_str(maybe(r)); t.push(':'); t.push_str(maybe(r));
            let (a, b) = (name(r), name(r)); t.push_str(&format!("{a}{}:{}{b},", maybe(r), maybe(r)));
            for _ in 0..r.below(3) { t.push_str(&format!("{}{} == {},", blanks(r), name(r), name(r))); }
            end(r, t, "relationship"); w.rels.push((a, b));
        }
        2 => { let n = head(t, "value_list"); for i in 0..r.below(4) { if i > 0 { t.push(','); } t.push_str(maybe(r)); t.push_str(&name(r)); } end(r, t, "value_list"); w.lists.push(n); }
        3 => { let (b, ss) = block(r, 4); t.push_str("script"); t.push_str(maybe(r)); t.push(':'); t.push_str(maybe(r)); t.push('['); t.push_str(maybe(r)); t.push_str(&b); t.push(']'); t.push_str(blanks(r)); w.scripts.extend(ss); }
        4 => { let n = head(t, "table_occurence"); t.push_str("table"); t.push_str(maybe(r)); t.push(':'); t.push_str(maybe(r)); let m = name(r); t.push_str(&m); t.push(','); end(r, t, "table_occurence"); w.occs.push((n, m)); }
        _ => {
            let n = head(t, "test");
            let s = if r.chance(5, 6) { let (b, mut ss) = block(r, 1); t.push_str("script"); t.push_str(maybe(r)); t.push(':'); t.push_str(maybe(r)); t.push('['); t.push_str(&b); t.push(']'); t.push(','); ss.remove(0) } else { (String::new(), vec![], vec![]) };
            end(r, t, "test"); w.tests.push((n, s));
        }
    }
}
fn vals<T: Clone>(m: &std::collections::HashMap<usize, T>, first: usize) -> Result<Vec<T>, String> {
    (0..m.len()).map(|i| m.get(&(i + first)).cloned().ok_or(format!("numbers {:?} instead of {first}..", m.keys().collect::<Vec<_>>()))).collect()
}
fn view(s: FMComponentScript) -> Script { (s.script_name, s.arguments, s.instructions.into_iter().map(|x: ScriptStep| (x.opcode, x.switches)).collect()) }
fn seen(f: &FmpFile) -> Result<Want, String> {
    Ok(Want {
        tables: vals(&f.tables, 1)?.into_iter().map(|x| x.table_name).collect(),
        rels: vals(&f.relationships, 1)?.into_iter().map(|x| (x.table1_name, x.table2_name)).collect(),
        lists: vals(&f.value_lists, 1)?.into_iter().map(|x| x.list_name).collect(),
        scripts: vals(&f.scripts, 1)?.into_iter().map(view).collect(),
        occs: vals(&f.table_occurrences, 0)?.into_iter().map(|x| (x.table_occurence_name, x.table_actual_name)).collect(),
        tests: f.tests.iter().map(|x| (x.test_name.clone(), view(x.script.clone()))).collect(),
        other: f.layouts.len() + f.data_sources.len(),
    })
}
pub fn vp_main() {
    run("random programs of up to 8 declarations with scripts of up to 20 steps, as text; blocks of scripts on their own; non-trivial: at least 3 steps in scripts", |c| {
        for i in 0..c.scale(4000, 80000) {
            if c.done() { break; }
            let r = &c.rng;
            if i % 3 == 0 {
                let mut text = String::from(maybe(r)); let (b, ss) = block(r, if i % 100 > 97 { 60 } else { 5 }); text.push_str(&b);
                let nt = ss.iter().map(|s| s.2.len()).sum::<usize>() >= 3;
                c.case(format!("scripts {text:?}"), nt, move || {
                    let got: Vec<Script> = BurnScriptCompiler::compile_burn_script(&text).into_iter().map(view).collect();
                    if got == ss { Out::Ok } else { Out::Bad(format!("{got:?} instead of {ss:?}")) }
                });
            } else {
                let mut text = String::from(maybe(r)); let mut w = Want::default();
                for _ in 0..if i % 100 > 97 { r.range(50, 300) } else { r.range(0, 8) } { decl(r, &mut text, &mut w); }
                let nt = w.scripts.iter().map(|s| s.2.len()).sum::<usize>() + w.tests.iter().map(|t| t.1.2.len()).sum::<usize>() >= 3;
                c.case(format!("program {text:?}"), nt, move || match seen(&compile_burn(&text)) {
                    Err(e) => Out::Bad(e), Ok(g) if g != w => Out::Bad(format!("{g:?} instead of {w:?}")), _ => Out::Ok,
                });
            }
        }
    });
}
