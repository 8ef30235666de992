// shared by C11-C14 and C16: small random databases, snapshots of them and their text
#[allow(unused_imports)]
use crate::component::RelationComparison as RC;

#[derive(Clone, PartialEq, Debug)]
struct Snap {
    tables: Vec<(String, Vec<(String, Vec<String>)>)>,
    occs: Vec<(Vec<usize>, u16, usize, String)>,
    handle: u16,
    names: Vec<(String, u16)>,
}
fn snap(d: &Database) -> Snap {
    let mut names: Vec<(String, u16)> = d.occurrence_indices.iter().map(|(k, v)| (k.clone(), *v)).collect();
    names.sort();
    Snap {
        tables: d.tables.iter().map(|t| (t.name.clone(), t.fields.iter().map(|f| (f.name.clone(), f.records.clone())).collect())).collect(),
        occs: d.table_occurrences.iter().map(|o| (o.found_set.clone(), o.table_ptr, o.record_ptr, format!("{:?}", o.related_records))).collect(),
        handle: d.occurrence_handle,
        names,
    }
}
fn text_of(d: &Database) -> String {
    let s = snap(d);
    let t: Vec<String> = s.tables.iter().map(|(n, f)| format!("{n}{:?}", f)).collect();
    let o: Vec<String> = s.occs.iter().map(|(f, t, r, rel)| format!("(table {t} found {:?} at {r} rel {rel})", f)).collect();
    format!("tables {} occurrences {} current {} names {:?}", t.join(";"), o.join(";"), s.handle, s.names)
}
/// a database in a consistent state: table 0 may be a gap, found sets are distinct records, positions inside them
fn random_db(r: &crate::vp_fw::Rng) -> Database {
    let mut d = Database::new();
    let nt = r.range(1, 3);
    for t in 0..=nt {
        let mut tab = Table::new(if t == 0 { "".to_string() } else { format!("t{t}") });
        if t > 0 {
            let n = r.below(5);
            for f in 0..r.range(1, 4) {
                let mut fl = Field::new();
                fl.name = if f == 0 && r.chance(1, 2) { "".to_string() } else { format!("f{}", if r.chance(1, 10) { f / 2 } else { f }) };
                fl.records = (0..n).map(|_| { let k = r.below(3); r.word(k) }).collect();
                tab.fields.push(fl);
            }
        }
        d.tables.push(tab);
    }
    let no = r.range(1, 4);
    for o in 0..=no {
        let mut oc = TableOccurrence::new();
        if o > 0 || r.chance(1, 4) {
            oc.table_ptr = r.range(1, nt) as u16;
            let n = d.tables[oc.table_ptr as usize].fields[0].records.len();
            let mut all: Vec<usize> = (0..n).collect();
            if r.chance(1, 2) { for i in (1..n).rev() { let j = r.below(i + 1); all.swap(i, j); } }
            if r.chance(2, 3) { all.truncate(r.below(n + 1)); }
            oc.record_ptr = r.below(all.len().max(1));
            oc.found_set = all;
            d.occurrence_indices.insert(format!("o{o}"), o as u16);
        }
        d.table_occurrences.push(oc);
    }
    d.occurrence_handle = r.range(1, no) as u16;
    d
}
