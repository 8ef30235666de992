//@ mount testing/database.rs
// C14 on the real code: every field accessor on random small databases.
use super::*;
use crate::vp_fw::{run, Out};
include!("db_oracle.inc");

fn judge(mut d: Database, occ: String, kind: usize, pick: usize) -> Out {
    let a = snap(&d);
    let h = if kind < 4 { a.handle as usize } else { a.names.iter().find(|x| x.0 == occ).unwrap().1 as usize };
    let (found, t, p) = (a.occs[h].0.clone(), a.occs[h].1 as usize, a.occs[h].2);
    let fi0 = pick % a.tables[t].1.len();
    let name = a.tables[t].1[fi0].0.clone();
    let fi = a.tables[t].1.iter().position(|f| f.0 == name).unwrap();
    let rec = found.get(p).copied();
    let want = rec.map(|r| a.tables[t].1[fi].1[r].clone());
    let mut e = a.clone();
    let got: Option<String> = match kind {
        0 => { let v = d.get_current_record_field(&name).to_string(); if rec.is_none() && v.is_empty() { None } else { Some(v) } }
        1 if rec.is_none() => match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| d.get_found_set_record_field(&name).to_string())) {
            Err(_) => return Out::Known("C14-NONE", "reading a found-set field without a current record panics".into()),
            Ok(v) => if v.is_empty() { None } else { Some(v) } },
        1 => { let v = d.get_found_set_record_field(&name).to_string(); if rec.is_none() && v.is_empty() { None } else { Some(v) } }
        2 => { let k = if a.tables[t].1[fi].1.is_empty() { 0 } else { pick % a.tables[t].1[fi].1.len() };
               let w = if rec.is_some() { Some(a.tables[t].1[fi].1[k].clone()) } else { None };
               let g = d.get_record_by_field(&name, k).ok().map(|x| x.to_string());
               if g != w { return Out::Bad(format!("record {k} of {name:?}: {g:?} instead of {w:?}")); }
               want.clone() }
        3 => match d.get_current_record_by_field_mut(&name) { Ok(v) => { let o = v.to_string(); v.make_ascii_uppercase(); e.tables[t].1[fi].1[rec.unwrap_or(0)] = o.to_ascii_uppercase(); Some(o) } Err(_) => None },
        4 => d.get_current_record_by_table_field(&occ, &name).ok().map(|x| x.to_string()),
        _ => match d.get_current_record_by_table_field_mut(&occ, &name) { Ok(v) => { let o = v.clone(); *v = "written".into(); e.tables[t].1[fi].1[rec.unwrap_or(0)] = "written".into(); Some(o) } Err(_) => None },
    };
    if got != want { return Out::Bad(format!("field {name:?}: {got:?} instead of {want:?}")); }
    if snap(&d) != e { return Out::Bad(format!("afterwards {:?} instead of {:?}", snap(&d), e)); }
    if kind == 0 && d.get_occurrence(h).get_current_record().ok() != rec { return Out::Bad("get_current_record".into()); }
    if kind == 1 && rec.is_some() && d.get_found_set_record_field("no such field") != "" { return Out::Bad("unknown field".into()); }
    Out::Ok
}
pub fn vp_main() {
    run("random databases, each accessor, every declared field name including repeated ones; non-trivial: there is a current record", |c| {
        for i in 0..c.scale(6000, 90000) {
            if c.done() { break; }
            let d = random_db(&c.rng);
            let mut names: Vec<String> = d.occurrence_indices.keys().cloned().collect();
            names.sort();
            let occ = c.rng.pick(&names).clone();
            let (kind, pick) = (i % 6, c.rng.below(60));
            let nt = d.get_current_occurrence().get_current_record().is_ok();
            c.case(format!("accessor {kind} {pick} {occ} in {}", text_of(&d)), nt, move || judge(d, occ, kind, pick));
        }
    });
}
