//@ mount testing/database.rs
// C13 on the real code: show all records and apply find results on random small databases.
use super::*;
use crate::vp_fw::{run, Out};
include!("db_oracle.inc");

fn judge(mut d: Database, find: Option<Vec<usize>>) -> Out {
    let mut e = snap(&d);
    let h = e.handle as usize;
    let t = e.occs[h].1 as usize;
    let all: Vec<usize> = (0..e.tables[t].1[0].1.len()).collect();
    match &find { None => d.reset_found_set(), Some(v) => d.update_found_set(v) }
    let got = snap(&d);
    match &find {
        Some(v) if !v.is_empty() => { e.occs[h].0 = v.clone(); e.occs[h].2 = 0; }
        _ => {
            e.occs[h].0 = all.clone();
            let p = got.occs[h].2;
            if !(p < all.len() || (p == 0 && all.is_empty())) { return Out::Bad(format!("position {p} of {}", all.len())); }
            e.occs[h].2 = p;
        }
    }
    if got != e { return Out::Bad(format!("{:?} instead of {:?}", got, e)); }
    Out::Ok
}
pub fn vp_main() {
    run("random databases, show all records or a find result that is empty or any list of different records; non-trivial: all", |c| {
        for _ in 0..c.scale(3000, 60000) {
            if c.done() { break; }
            let d = random_db(&c.rng);
            let n = d.get_current_table().fields[0].records.len();
            let find = if c.rng.chance(1, 3) { None } else {
                let mut v: Vec<usize> = (0..n).collect();
                for i in (1..n).rev() { let j = c.rng.below(i + 1); v.swap(i, j); }
                v.truncate(c.rng.below(n + 1)); Some(v) };
            c.case(format!("find {:?} in {}", find, text_of(&d)), true, move || judge(d, find));
        }
    });
}
