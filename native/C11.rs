//@ mount testing/database.rs
// C11 on the real code: create_record (once and repeatedly) on random small databases.
use super::*;
use crate::vp_fw::{run, Out};
include!("db_oracle.inc");

fn judge(mut d: Database, times: usize) -> Out {
    for k in 0..times {
        let a = snap(&d);
        d.create_record();
        let b = snap(&d);
        let t = a.occs[a.handle as usize].1;
        let n = a.tables[t as usize].1[0].1.len();
        let mut e = a.clone();
        for f in &mut e.tables[t as usize].1 { f.1.push(String::new()); }
        for o in &mut e.occs { if o.1 == t { o.0.push(n); o.2 = o.0.len() - 1; } }
        if b != e { return Out::Bad(format!("record {k}: {:?} instead of {:?}", b, e)); }
        if d.tables[t as usize].get_records_n() != n + 1 { return Out::Bad("get_records_n".into()); }
    }
    Out::Ok
}
pub fn vp_main() {
    run("random databases of up to 4 tables, 5 occurrences and 4 records, one to three records created; non-trivial: all", |c| {
        for _ in 0..c.scale(3000, 60000) {
            if c.done() { break; }
            let d = random_db(&c.rng); let k = c.rng.range(1, 3);
            c.case(format!("create {k} in {}", text_of(&d)), true, move || judge(d, k));
        }
    });
}
