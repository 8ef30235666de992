//@ mount testing/database.rs
// C12 on the real code: walks of navigation steps over random small databases.
use super::*;
use crate::vp_fw::{run, Out};
include!("db_oracle.inc");

fn judge(mut d: Database, steps: Vec<usize>) -> Out {
    for (k, s) in steps.iter().enumerate() {
        let mut e = snap(&d);
        let h = e.handle as usize;
        let (n, p) = (e.occs[h].0.len(), e.occs[h].2);
        let last = if n == 0 { 0 } else { n - 1 };
        // known: next, last and go to underflow on an empty found set
        if n == 0 && *s != 1 && *s != 2 {
            let mut before = snap(&d);
            let ok = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match s { 0 => d.goto_next_record(), 3 => d.goto_last_record(), m => d.goto_record(if *m == usize::MAX { *m } else { *m - 4 }) })).is_ok();
            if ok && snap(&d) == before { continue; }
            before.occs[h].2 = d.table_occurrences[h].record_ptr;
            if snap(&d) != before { return Out::Bad(format!("step {k} ({s}) on an empty found set: {:?}", snap(&d))); }
            return Out::Known("C12-EMPTY", format!("step {k} on an empty found set underflows"));
        }
        e.occs[h].2 = match s { 0 => { d.goto_next_record(); if p + 1 < n { p + 1 } else { p } }
            1 => { d.goto_previous_record(); if p > 0 { p - 1 } else { 0 } }
            2 => { d.goto_first_record(); 0 }
            3 => { d.goto_last_record(); last }
            m => { let to = if *m == usize::MAX { *m } else { *m - 4 }; d.goto_record(to); if to < n { to } else { last } } };
        if snap(&d) != e { return Out::Bad(format!("step {k} ({s}): {:?} instead of {:?}", snap(&d), e)); }
    }
    Out::Ok
}
pub fn vp_main() {
    run("random databases, one to six steps of next, previous, first, last, go to a number in and past the found set; non-trivial: all", |c| {
        for _ in 0..c.scale(3000, 60000) {
            if c.done() { break; }
            let d = random_db(&c.rng);
            let steps: Vec<usize> = (0..c.rng.range(1, 6)).map(|_| if c.rng.chance(1, 20) { usize::MAX } else { c.rng.below(11) }).collect();
            c.case(format!("steps {:?} in {}", steps, text_of(&d)), true, move || judge(d, steps));
        }
    });
}
