//@ mount testing/relation_mgr.rs
// C15 on the real code: random graphs, relations added one by one, every path query.
use super::*;
use crate::vp_fw::{run, Out};
use std::collections::BTreeSet;

fn judge(n: usize, rels: Vec<(usize, usize)>) -> Out {
    let mut m = RelationMgr::new();
    let mut want: BTreeSet<(usize, usize)> = BTreeSet::new();
    for (a, b) in &rels {
        m.add_relation(*a, *b);
        want.insert((*a, *b)); want.insert((*b, *a));
        let mut got: Vec<(usize, usize)> = m.graph.iter().flat_map(|(k, v)| v.iter().map(move |x| (*k, *x))).collect();
        got.sort();
        if got != want.iter().cloned().collect::<Vec<_>>() { return Out::Bad(format!("after {a}-{b}: relations {got:?} instead of {want:?}")); }
    }
    for a in 0..n { 
        // distances from a by relaxation
        let mut dist = vec![usize::MAX; n]; dist[a] = 1;
        for _ in 0..n { for (x, y) in &want { if dist[*x] != usize::MAX && dist[*x] + 1 < dist[*y] { dist[*y] = dist[*x] + 1; } } }
        for b in 0..n {
            if a == b { continue; }
            match m.get_path(a, b) {
                None => if dist[b] != usize::MAX { return Out::Bad(format!("no path {a} to {b}, there is one of {}", dist[b])); },
                Some(p) => {
                    if p.first() != Some(&a) || p.last() != Some(&b) { return Out::Bad(format!("path {a} to {b}: {p:?}")); }
                    if p.windows(2).any(|w| !want.contains(&(w[0], w[1]))) { return Out::Bad(format!("path {a} to {b} uses an unrecorded relation: {p:?}")); }
                    if p.len() != dist[b] { return Out::Bad(format!("path {a} to {b}: {p:?} instead of one of {}", dist[b])); }
                }
            }
        }
    }
    Out::Ok
}
pub fn vp_main() {
    run("random graphs of up to 9 nodes and 14 relations, some repeated or from a node to itself, every pair queried; non-trivial: at least 3 relations", |c| {
        for _ in 0..c.scale(1500, 30000) {
            if c.done() { break; }
            let n = c.rng.range(2, 9);
            let rels: Vec<(usize, usize)> = (0..c.rng.below(15)).map(|_| (c.rng.below(n), c.rng.below(n))).collect();
            c.case(format!("{n} nodes, relations {rels:?}"), rels.len() >= 3, move || judge(n, rels));
        }
    });
}
