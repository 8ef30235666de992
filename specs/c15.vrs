// C15: the relation graph; /repo/src/testing/relation_mgr.rs
#![feature(allocator_api)]
#![allow(unreachable_code)]
use vstd::prelude::*;
use vstd::std_specs::iter::IteratorSpec;
use std::collections::{HashMap, VecDeque};
verus! {
//@ include iter_core.vi
//@ include graph_core.vi
//@ rule for-ref
//@ rule method get_mut/1 vp_get_mut mut
//@ rule method contains/1 vp_contains ref


/// `HashMap::get_mut` (trusted)
#[verifier::external_body]
pub fn vp_get_mut<'a>(m: &'a mut HashMap<usize, Vec<usize>>, k: &usize) -> (r: Option<&'a mut Vec<usize>>)
    ensures r.is_some() == old(m)@.contains_key(*k),
            r.is_some() ==> *r.unwrap() == old(m)@[*k] && final(m)@ == old(m)@.insert(*k, *final(r.unwrap())),
            r.is_none() ==> *final(m) == *old(m),
{ m.get_mut(k) }

pub assume_specification<T, A: std::alloc::Allocator> [std::collections::VecDeque::<T, A>::is_empty] (q: &VecDeque<T, A>) -> (r: bool)
    ensures r == (q@.len() == 0);
pub assume_specification<T, A: std::alloc::Allocator> [std::collections::VecDeque::<T, A>::front] (q: &VecDeque<T, A>) -> (r: Option<&T>)
    ensures r.is_some() == (q@.len() > 0), r.is_some() ==> *r.unwrap() == q@[0];

pub open spec fn seen(v: Seq<&usize>, n: usize) -> bool { exists|k: int| 0 <= k < v.len() && *(#[trigger] v[k]) == n }
/// slice `contains` (trusted)
#[verifier::external_body]
pub fn vp_contains(v: &Vec<&usize>, x: &&usize) -> (r: bool)
    ensures r == seen(v@, **x),
{ v.contains(x) }

/// clone of a queue entry (trusted)
pub trait VpClone: Sized {
    spec fn same_as(&self, r: &Self) -> bool;
    fn vp_clone(&self) -> (r: Self)
        ensures self.same_as(&r);
}
impl VpClone for (usize, Vec<usize>) {
    open spec fn same_as(&self, r: &Self) -> bool { r.0 == self.0 && r.1@ == self.1@ }
    #[verifier::external_body]
    fn vp_clone(&self) -> (r: Self) { self.clone() }
}
impl VpClone for Vec<usize> {
    open spec fn same_as(&self, r: &Self) -> bool { r@ == self@ }
    #[verifier::external_body]
    fn vp_clone(&self) -> (r: Self) { self.clone() }
}

/// the breadth-first search between two of its steps: `done` are the nodes whose neighbours have all been looked at
pub open spec fn entries_ok(g: Graph, a: usize, b: usize, queue: Seq<(usize, Vec<usize>)>, k: int) -> bool {
    &&& forall|i: int| 0 <= i < queue.len() ==> leads(g, (#[trigger] queue[i]).1@, a, queue[i].0) && queue[i].0 != b && (queue[i].1@.len() == k || queue[i].1@.len() == k + 1)
    &&& forall|i: int, j: int| 0 <= i < j < queue.len() ==> (#[trigger] queue[i]).1@.len() <= (#[trigger] queue[j]).1@.len()
}
pub open spec fn queued(queue: Seq<(usize, Vec<usize>)>, n: usize) -> bool { exists|i: int| 0 <= i < queue.len() && (#[trigger] queue[i]).0 == n }
pub open spec fn queued_at(queue: Seq<(usize, Vec<usize>)>, n: usize, k: int) -> bool { exists|i: int| 0 <= i < queue.len() && (#[trigger] queue[i]).0 == n && queue[i].1@.len() == k }
pub open spec fn closed_under(g: Graph, b: usize, visited: Seq<&usize>, done: Set<usize>) -> bool {
    forall|n: usize, m: usize| done.contains(n) && #[trigger] edge(g, n, m) ==> m != b && seen(visited, m)
}
pub open spec fn covered(g: Graph, a: usize, b: usize, visited: Seq<&usize>, queue: Seq<(usize, Vec<usize>)>, done: Set<usize>) -> bool {
    &&& done.contains(a) || queued(queue, a)
    &&& forall|v: usize| #[trigger] seen(visited, v) ==> (done.contains(v) || queued(queue, v)) && v != b && g.contains_key(v)
}
pub open spec fn levels(g: Graph, a: usize, queue: Seq<(usize, Vec<usize>)>, done: Set<usize>, k: int) -> bool {
    &&& forall|q: Seq<usize>| #[trigger] walk(g, q, a) && q.len() < k ==> done.contains(q.last())
    &&& forall|q: Seq<usize>| #[trigger] walk(g, q, a) && q.len() == k ==> done.contains(q.last()) || queued_at(queue, q.last(), k)
}
pub open spec fn bfs(g: Graph, a: usize, b: usize, visited: Seq<&usize>, queue: Seq<(usize, Vec<usize>)>, done: Set<usize>, k: int) -> bool {
    &&& k >= 1
    &&& entries_ok(g, a, b, queue, k)
    &&& closed_under(g, b, visited, done)
    &&& covered(g, a, b, visited, queue, done)
    &&& levels(g, a, queue, done, k)
}
/// nodes not yet met
pub open spec fn unmet(g: Graph, visited: Seq<&usize>) -> Set<usize> { g.dom().filter(|n: usize| !seen(visited, n)) }

pub proof fn lemma_walk_shorter(g: Graph, q: Seq<usize>, a: usize)
    requires walk(g, q, a), q.len() >= 2,
    ensures walk(g, q.drop_last(), a), edge(g, q.drop_last().last(), q.last()),
{
    let p = q.drop_last();
    assert(edge(g, q[q.len() - 2], q[q.len() - 2 + 1]));
    assert forall|i: int| 0 <= i < p.len() - 1 implies #[trigger] edge(g, p[i], p[i + 1]) by { assert(edge(g, q[i], q[i + 1])); }
}
pub proof fn lemma_walk_push(g: Graph, p: Seq<usize>, a: usize, m: usize)
    requires walk(g, p, a), edge(g, p.last(), m),
    ensures leads(g, p.push(m), a, m),
{
    let q = p.push(m);
    assert forall|i: int| 0 <= i < q.len() - 1 implies #[trigger] edge(g, q[i], q[i + 1]) by { if i < p.len() - 1 { assert(edge(g, p[i], p[i + 1])); } }
}
/// the front entry is of the next level: so is every entry, and the level before is finished
pub proof fn lemma_level(g: Graph, a: usize, b: usize, visited: Seq<&usize>, queue: Seq<(usize, Vec<usize>)>, done: Set<usize>, k: int)
    requires bfs(g, a, b, visited, queue, done, k), queue.len() > 0, queue[0].1@.len() == k + 1,
    ensures bfs(g, a, b, visited, queue, done, k + 1),
{
    assert forall|i: int| 0 <= i < queue.len() implies (#[trigger] queue[i]).1@.len() == k + 1 by { if i > 0 { assert(queue[0].1@.len() <= queue[i].1@.len()); } }
    assert forall|q: Seq<usize>| #[trigger] walk(g, q, a) && q.len() == k + 1 implies done.contains(q.last()) || queued_at(queue, q.last(), k + 1) by {
        lemma_walk_shorter(g, q, a);
        let n = q.drop_last().last();
        assert(done.contains(n));
        assert(seen(visited, q.last()));
        if !done.contains(q.last()) {
            let i = choose|i: int| 0 <= i < queue.len() && (#[trigger] queue[i]).0 == q.last();
            assert(queue[i].1@.len() == k + 1);
        }
    }
}
/// the front entry was taken, its unmet neighbours `fresh` entered
pub proof fn lemma_step(g: Graph, a: usize, b: usize, v0: Seq<&usize>, q0: Seq<(usize, Vec<usize>)>, done: Set<usize>, k: int, fresh: Seq<&usize>, v1: Seq<&usize>, q1: Seq<(usize, Vec<usize>)>)
    requires bfs(g, a, b, v0, q0, done, k), q0.len() > 0, q0[0].1@.len() == k,
             forall|m: usize| #[trigger] edge(g, q0[0].0, m) ==> seen(v0, m) || seen(fresh, m),
             forall|i: int| 0 <= i < fresh.len() ==> edge(g, q0[0].0, *#[trigger] fresh[i]) && *fresh[i] != b && g.contains_key(*fresh[i]),
             v1 == v0 + fresh,
             q1.len() == q0.len() - 1 + fresh.len(),
             forall|i: int| 0 <= i < q0.len() - 1 ==> #[trigger] q1[i] == q0[i + 1],
             forall|i: int| 0 <= i < fresh.len() ==> (#[trigger] q1[q0.len() - 1 + i]).0 == *fresh[i] && q1[q0.len() - 1 + i].1@ == q0[0].1@.push(*fresh[i]),
    ensures bfs(g, a, b, v1, q1, done.insert(q0[0].0), k),
{
    let cur = q0[0].0; let p = q0[0].1@; let n0 = q0.len() - 1; let d1 = done.insert(cur);
    assert forall|m: usize| #[trigger] seen(v1, m) <==> (seen(v0, m) || seen(fresh, m)) by {
        if seen(v0, m) { let i = choose|i: int| 0 <= i < v0.len() && *(#[trigger] v0[i]) == m; assert(*v1[i] == m); }
        if seen(fresh, m) { let i = choose|i: int| 0 <= i < fresh.len() && *(#[trigger] fresh[i]) == m; assert(*v1[v0.len() + i] == m); }
        if seen(v1, m) { let i = choose|i: int| 0 <= i < v1.len() && *(#[trigger] v1[i]) == m; if i < v0.len() { assert(*v0[i] == m); } else { assert(*fresh[i - v0.len()] == m); } }
    }
    assert forall|n: usize| #[trigger] queued(q0, n) implies n == cur || queued(q1, n) by {
        let i = choose|i: int| 0 <= i < q0.len() && (#[trigger] q0[i]).0 == n;
        if i > 0 { assert(q1[i - 1] == q0[i - 1 + 1]); }
    }
    assert forall|n: usize| #[trigger] seen(fresh, n) implies queued(q1, n) by {
        let i = choose|i: int| 0 <= i < fresh.len() && *(#[trigger] fresh[i]) == n;
        assert(q1[n0 + i].0 == n);
    }
    assert forall|i: int| 0 <= i < q1.len() implies leads(g, (#[trigger] q1[i]).1@, a, q1[i].0) && q1[i].0 != b && (q1[i].1@.len() == k || q1[i].1@.len() == k + 1) && (i >= n0 ==> q1[i].1@.len() == k + 1) by {
        if i < n0 { assert(q1[i] == q0[i + 1]); }
        else { let j = i - n0; assert(q1[n0 + j].1@ == p.push(*fresh[j])); assert(leads(g, p, a, cur)); lemma_walk_push(g, p, a, *fresh[j]); }
    }
    assert forall|i: int, j: int| 0 <= i < j < q1.len() implies (#[trigger] q1[i]).1@.len() <= (#[trigger] q1[j]).1@.len() by {
        if j < n0 { assert(q1[i] == q0[i + 1] && q1[j] == q0[j + 1]); }
    }
    assert forall|n: usize, m: usize| d1.contains(n) && #[trigger] edge(g, n, m) implies m != b && seen(v1, m) by {
        if !done.contains(n) {
            assert(n == cur);
            if seen(fresh, m) { let i = choose|i: int| 0 <= i < fresh.len() && *(#[trigger] fresh[i]) == m; }
        }
    }
    assert forall|v: usize| #[trigger] seen(v1, v) implies (d1.contains(v) || queued(q1, v)) && v != b && g.contains_key(v) by {
        if !seen(v0, v) { let i = choose|i: int| 0 <= i < fresh.len() && *(#[trigger] fresh[i]) == v; }
    }
    assert forall|q: Seq<usize>| #[trigger] walk(g, q, a) && q.len() == k implies d1.contains(q.last()) || queued_at(q1, q.last(), k) by {
        if !done.contains(q.last()) {
            let i = choose|i: int| 0 <= i < q0.len() && (#[trigger] q0[i]).0 == q.last() && q0[i].1@.len() == k;
            if i > 0 { assert(q1[i - 1] == q0[i - 1 + 1]); }
        }
    }
}
/// a neighbour of the front entry is the target: its path plus the target is a shortest way there
pub proof fn lemma_found(g: Graph, a: usize, b: usize, visited: Seq<&usize>, queue: Seq<(usize, Vec<usize>)>, done: Set<usize>, k: int)
    requires bfs(g, a, b, visited, queue, done, k), queue.len() > 0, queue[0].1@.len() == k, a != b, edge(g, queue[0].0, b),
    ensures leads(g, queue[0].1@.push(b), a, b), forall|q: Seq<usize>| #[trigger] leads(g, q, a, b) ==> q.len() >= k + 1,
{
    lemma_walk_push(g, queue[0].1@, a, b);
    assert forall|q: Seq<usize>| #[trigger] leads(g, q, a, b) implies q.len() >= k + 1 by {
        if q.len() <= k {
            assert(q.len() >= 2);
            lemma_walk_shorter(g, q, a);
            assert(done.contains(q.drop_last().last()));
        }
    }
}
/// nothing left to look at: every walk stays among the nodes that are done
pub proof fn lemma_walk_done(g: Graph, a: usize, b: usize, visited: Seq<&usize>, queue: Seq<(usize, Vec<usize>)>, done: Set<usize>, k: int, q: Seq<usize>)
    requires bfs(g, a, b, visited, queue, done, k), queue.len() == 0, walk(g, q, a),
    ensures done.contains(q.last()), q.len() >= 2 ==> q.last() != b,
    decreases q.len(),
{
    if q.len() >= 2 { lemma_walk_shorter(g, q, a); lemma_walk_done(g, a, b, visited, queue, done, k, q.drop_last()); assert(seen(visited, q.last())); }
}
pub proof fn lemma_none(g: Graph, a: usize, b: usize, visited: Seq<&usize>, queue: Seq<(usize, Vec<usize>)>, done: Set<usize>, k: int)
    requires bfs(g, a, b, visited, queue, done, k), queue.len() == 0, a != b,
    ensures forall|q: Seq<usize>| !#[trigger] leads(g, q, a, b),
{
    assert forall|q: Seq<usize>| !#[trigger] leads(g, q, a, b) by { if leads(g, q, a, b) { lemma_walk_done(g, a, b, visited, queue, done, k, q); } }
}
pub proof fn lemma_fewer(g: Graph, v0: Seq<&usize>, fresh: Seq<&usize>)
    requires fresh.len() > 0 ==> !seen(v0, *fresh[0]) && g.contains_key(*fresh[0]),
    ensures unmet(g, v0 + fresh).len() <= unmet(g, v0).len(), fresh.len() > 0 ==> unmet(g, v0 + fresh).len() < unmet(g, v0).len(),
{
    let a = unmet(g, v0); let b = unmet(g, v0 + fresh);
    assert forall|m: usize| seen(v0, m) implies #[trigger] seen(v0 + fresh, m) by {
        let i = choose|i: int| 0 <= i < v0.len() && *(#[trigger] v0[i]) == m; assert(*(v0 + fresh)[i] == m);
    }
    assert(b.subset_of(a));
    vstd::set_lib::lemma_len_subset(b, a);
    if fresh.len() > 0 {
        let x = *fresh[0];
        assert(*(v0 + fresh)[v0.len() as int] == x);
        assert(seen(v0 + fresh, x));
        assert(a.contains(x) && !b.contains(x));
        assert(b.subset_of(a.remove(x)));
        vstd::set_lib::lemma_len_subset(b, a.remove(x));
    }
}

impl RelationMgr {
/*@ fn testing/relation_mgr.rs RelationMgr::new
ret res
contract
    ensures res.graph@.len() == 0, graph_wf(res.graph@),
@*/
/*@ fn testing/relation_mgr.rs RelationMgr::add_node
contract
    requires old(self).graph@.contains_key(occ1) ==> old(self).graph@[occ1]@.no_duplicates(),
    ensures forall|a: usize, b: usize| edge(final(self).graph@, a, b) <==> (edge(old(self).graph@, a, b) || (a == occ1 && b == occ2)),
            forall|a: usize| a != occ1 ==> (#[trigger] final(self).graph@.contains_key(a)) == old(self).graph@.contains_key(a),
            forall|a: usize| a != occ1 && old(self).graph@.contains_key(a) ==> (#[trigger] final(self).graph@[a]) == old(self).graph@[a],
            final(self).graph@.contains_key(occ1) && final(self).graph@[occ1]@.no_duplicates(),
            old(self).graph@.contains_key(occ1) ==> old(self).graph@[occ1]@.is_prefix_of(final(self).graph@[occ1]@),
closure 0 (&&usize) -> (b: bool) ensures b == (**$0 == occ2)
at call collect 0 before
    let ghost g0 = self.graph@;
    let ghost l0: Seq<usize> = if g0.contains_key(occ1) { g0[occ1]@ } else { Seq::empty() };
    let ghost rr = l0.as_ref();
    proof {
        assert(rr.unref() =~= l0);
        assert forall|i: int| 0 <= i < l0.len() implies *(#[trigger] rr[i]) == l0[i] by {}
        if l0.contains(occ2) { let j = choose|j: int| 0 <= j < l0.len() && l0[j] == occ2; assert(*rr[j] == occ2); }
    }
at call collect 0 after
    assert(exists == l0.contains(occ2));
at end
    proof {
        let l1 = self.graph@[occ1]@;
        assert(l1 == if exists { l0 } else { l0.push(occ2) } || l1 =~= l0.push(occ2));
    }
@*/
/*@ fn testing/relation_mgr.rs RelationMgr::add_relation
contract
    requires graph_wf(old(self).graph@),
    ensures graph_wf(final(self).graph@),
            forall|a: usize, b: usize| edge(final(self).graph@, a, b) <==> (edge(old(self).graph@, a, b) || (a == occ1 && b == occ2) || (a == occ2 && b == occ1)),
            forall|a: usize| old(self).graph@.contains_key(a) ==> final(self).graph@.contains_key(a) && old(self).graph@[a]@.is_prefix_of(#[trigger] final(self).graph@[a]@),
at start
    let ghost g0 = self.graph@;
at call add_node 0 after
    let ghost g1 = self.graph@;
at end
    assert forall|a: usize| g0.contains_key(a) implies self.graph@.contains_key(a) && g0[a]@.is_prefix_of(#[trigger] self.graph@[a]@) by {
        let g2 = self.graph@;
        if a != occ1 { assert(g1.contains_key(a) && g1[a] == g0[a]); }
        assert(g0[a]@.is_prefix_of(g1[a]@));
        if a != occ2 { assert(g2.contains_key(a) && g2[a] == g1[a]); }
        assert(g1[a]@.is_prefix_of(g2[a]@));
    }
@*/
/*@ fn testing/relation_mgr.rs RelationMgr::get_path
ret res
opt rename=clone:vp_clone
contract
    requires graph_wf(self.graph@), occ1 != occ2,
    ensures res.is_some() ==> leads(self.graph@, res.unwrap()@, occ1, occ2) && forall|q: Seq<usize>| #[trigger] leads(self.graph@, q, occ1, occ2) ==> q.len() >= res.unwrap()@.len(),
            res.is_none() ==> forall|q: Seq<usize>| !#[trigger] leads(self.graph@, q, occ1, occ2),
closure 0 (&&usize) -> (b: bool) ensures b == !seen(visited@, **$0)
loop 0
    invariant
        g == self.graph@, graph_wf(g), occ1 != occ2, bfs(g, occ1, occ2, visited@, queue@, done, k),
    decreases unmet(g, visited@).len(), queue@.len(),
at loop 0 before
    let ghost g = self.graph@;
    let ghost mut done = Set::<usize>::empty();
    let ghost mut k = 1int;
    proof {
        assert(queue@[0].0 == occ1 && queue@[0].1@ =~= seq![occ1]);
        assert forall|q: Seq<usize>| #[trigger] walk(g, q, occ1) && q.len() == k implies queued_at(queue@, q.last(), k) by { assert(queue@[0].0 == q.last()); }
    }
at loop 0 start
    let ghost v0 = visited@;
    let ghost q0 = queue@;
    let ghost done0 = done;
    proof {
        if queue@[0].1@.len() == k + 1 { lemma_level(g, occ1, occ2, visited@, queue@, done, k); k = k + 1; }
        done = done.insert(queue@[0].0);
    }
at call is_none 0 before
    proof {
        if !g.contains_key(cur) {
            assert(v0 + Seq::<&usize>::empty() =~= v0);
            lemma_step(g, occ1, occ2, v0, q0, done0, k, Seq::<&usize>::empty(), visited@, queue@);
        }
    }
at loop 1 before
    let ghost l0 = g[cur]@;
    let ghost rr = l0.as_ref();
    proof {
        assert(rr.unref() =~= l0);
        assert forall|i: int| 0 <= i < l0.len() implies *(#[trigger] rr[i]) == l0[i] by {}
        assert forall|m: usize| #[trigger] edge(g, cur, m) implies exists|i: int| 0 <= i < l0.len() && *(#[trigger] rr[i]) == m by {
            let i = choose|i: int| 0 <= i < l0.len() && l0[i] == m; assert(*rr[i] == m);
        }
    }
loop 1 iter it
    invariant
        g == self.graph@, graph_wf(g), occ1 != occ2, bfs(g, occ1, occ2, v0, q0, done0, k),
        q0.len() > 0, q0[0].0 == cur, q0[0].1@ == path@, path@.len() == k,
        forall|m: usize| #[trigger] edge(g, cur, m) ==> seen(v0, m) || seen(it.seq(), m),
        forall|i: int| 0 <= i < it.seq().len() ==> edge(g, cur, *#[trigger] it.seq()[i]) && !seen(v0, *it.seq()[i]),
        forall|i: int| 0 <= i < it.index@ ==> *#[trigger] it.seq()[i] != occ2,
        visited@ =~= v0 + it.seq().take(it.index@ as int), it.index@ == it.seq().len() ==> visited@.skip(v0.len() as int) =~= it.seq(),
        queue@.len() == q0.len() - 1 + it.index@,
        forall|i: int| 0 <= i < q0.len() - 1 ==> #[trigger] queue@[i] == q0[i + 1],
        forall|i: int| 0 <= i < it.index@ ==> (#[trigger] queue@[q0.len() - 1 + i]).0 == *it.seq()[i] && queue@[q0.len() - 1 + i].1@ == q0[0].1@.push(*it.seq()[i]),
at return 0
    proof { lemma_found(g, occ1, occ2, v0, q0, done0, k); }
at loop 1 after
    proof {
        let fr = visited@.skip(v0.len() as int);
        assert forall|i: int| 0 <= i < fr.len() implies edge(g, cur, *#[trigger] fr[i]) && *fr[i] != occ2 && g.contains_key(*fr[i]) by { assert(edge(g, *fr[i], cur)); }
        assert(visited@ =~= v0 + fr);
        lemma_step(g, occ1, occ2, v0, q0, done0, k, fr, visited@, queue@);
        lemma_fewer(g, v0, fr);
    }
at loop 0 after
    proof { lemma_none(g, occ1, occ2, visited@, queue@, done, k); }
@*/
}
fn main() {}
}
