pub mod se {
#[allow(unused_imports)] use vstd::prelude::*;
#[allow(unused_imports)] use crate::vx::*;
#[allow(unused_imports)] use crate::th::*;
#[allow(unused_imports)] use crate::mt::*;
#[allow(unused_imports)] use crate::mm::*;
#[allow(unused_imports)] use crate::bl::*;
verus! {

// ================================================================== the search for an augmenting path

pub type MK = spec_fn(usize, usize) -> bool;

// ------------------------------------------------------------------ setting up

/// nothing but the first n matched pairs is marked
pub open spec fn pre_marks(s: Seq<(usize, usize)>, n: int, mk: MK) -> bool {
    forall|a: usize, b: usize| #[trigger] mk(a, b) ==> exists|i: int| 0 <= i < n && same(#[trigger] s[i], (a, b))
}
pub proof fn lemma_pre_none(s: Seq<(usize, usize)>, mk: MK)
    requires forall|a: usize, b: usize| !#[trigger] mk(a, b),
    ensures pre_marks(s, 0, mk),
{
}
pub proof fn lemma_roots_none(g: GV, m: PM, f: FV)
    requires f.wf(), f == (FV { nodes: Seq::empty(), par: Map::empty(), even: Map::empty() }),
    ensures roots(g, m, f, 0),
{
}
pub proof fn lemma_pre_fresh(s: Seq<(usize, usize)>, m: PM, n: int, mk: MK)
    requires pairs_of(s, m), 0 <= n < s.len(), pre_marks(s, n, mk),
    ensures !mk(s[n].0, s[n].1), !mk(s[n].1, s[n].0),
{
    let (a, b) = s[n];
    if mk(b, a) {
        let i = choose|i: int| 0 <= i < n && same(#[trigger] s[i], (b, a));
        assert(s[i].0 < s[i].1 && s[n].0 < s[n].1);
        assert(s[i] == s[n]);
    }
    if mk(a, b) {
        let i = choose|i: int| 0 <= i < n && same(#[trigger] s[i], (a, b));
        assert(s[i].0 < s[i].1 && s[n].0 < s[n].1);
        assert(s[i] == s[n]);
    }
}
pub proof fn lemma_pre_step(s: Seq<(usize, usize)>, n: int, mk: MK, mk2: MK)
    requires
        0 <= n < s.len(), pre_marks(s, n, mk),
        forall|a: usize, b: usize| #[trigger] mk2(a, b) ==> mk(a, b) || same((a, b), s[n]),
    ensures pre_marks(s, n + 1, mk2),
{
    assert forall|a: usize, b: usize| #[trigger] mk2(a, b) implies exists|i: int| 0 <= i < n + 1 && same(#[trigger] s[i], (a, b)) by {
        if mk(a, b) { let i = choose|i: int| 0 <= i < n && same(#[trigger] s[i], (a, b)); assert(same(s[i], (a, b))); }
        if same((a, b), s[n]) { assert(same(s[n], (a, b))); }
    }
}
/// the trees are single nodes: the exposed ones among the first n
pub open spec fn roots(g: GV, m: PM, f: FV, n: int) -> bool {
    &&& f.wf()
    &&& forall|u: usize| #[trigger] f.has(u) ==> f.par[u] is None && !m.contains_key(u)
    &&& forall|u: usize| #[trigger] f.has(u) <==> rooted(g, m, n, u)
}
pub open spec fn rooted(g: GV, m: PM, n: int, u: usize) -> bool { !m.contains_key(u) && exists|i: int| 0 <= i < n && #[trigger] g.nodes[i] == u }
pub proof fn lemma_roots_fresh(g: GV, m: PM, f: FV, n: int)
    requires g.wf(), roots(g, m, f, n), 0 <= n < g.nodes.len(),
    ensures !f.has(g.nodes[n]),
{
    let u = g.nodes[n];
    if f.has(u) {
        let i = choose|i: int| 0 <= i < n && #[trigger] g.nodes[i] == u;
        assert(i != n);
    }
}
pub proof fn lemma_roots_step(g: GV, m: PM, f: FV, n: int, f2: FV)
    requires
        g.wf(), roots(g, m, f, n), 0 <= n < g.nodes.len(), f2.wf(),
        f2 == if m.contains_key(g.nodes[n]) { f } else { f.with_root(g.nodes[n]) },
    ensures roots(g, m, f2, n + 1),
{
    let x = g.nodes[n];
    lemma_roots_fresh(g, m, f, n);
    assert forall|u: usize| #[trigger] f2.has(u) <==> rooted(g, m, n + 1, u) by {
        assert(f.has(u) <==> rooted(g, m, n, u));
        if rooted(g, m, n, u) { let i = choose|i: int| 0 <= i < n && #[trigger] g.nodes[i] == u; assert(rooted(g, m, n + 1, u)); }
        if rooted(g, m, n + 1, u) { let i = choose|i: int| 0 <= i < n + 1 && #[trigger] g.nodes[i] == u; if i < n { assert(rooted(g, m, n, u)); } }
        if u == x && !m.contains_key(x) { assert(g.nodes[n] == u); }
    }
    assert forall|u: usize| #[trigger] f2.has(u) implies f2.par[u] is None && !m.contains_key(u) by {
        if u != x { assert(f.has(u)); }
    }
}

// ------------------------------------------------------------------ the state of the search

pub open spec fn marks_in(m: PM, f: FV, mk: MK) -> bool {
    forall|a: usize, b: usize| #[trigger] mk(a, b) ==> mark_ok(m, f, a, b)
}
/// v w is marked besides what was, and at most w v with it
pub open spec fn marked(mk: MK, v: usize, w: usize, mk2: MK) -> bool {
    &&& mk2(v, w)
    &&& forall|a: usize, b: usize| #[trigger] mk(a, b) ==> mk2(a, b)
    &&& forall|a: usize, b: usize| #[trigger] mk2(a, b) ==> mk(a, b) || same((a, b), (v, w))
}
/// all of u's edges are marked
pub open spec fn spent(g: GV, mk: MK, u: usize) -> bool { forall|v: usize| #[trigger] g.adj(u, v) ==> mk(u, v) }
pub open spec fn search(g: GV, m: PM, f: FV, ns: Set<usize>, mk: MK) -> bool {
    &&& alt(g, m, f)
    &&& forall|u: usize| #[trigger] g.has(u) && !m.contains_key(u) ==> f.has(u)
    &&& marks_in(m, f, mk)
    &&& forall|u: usize| #[trigger] ns.contains(u) ==> f.is_even(u) && spent(g, mk, u)
}
pub proof fn lemma_search_start(g: GV, m: PM, f: FV, s: Seq<(usize, usize)>, ns: Set<usize>, mk: MK)
    requires
        g.wf(), is_matching(g, m), roots(g, m, f, g.nodes.len() as int), pairs_of(s, m), pre_marks(s, s.len() as int, mk),
        forall|u: usize| !#[trigger] ns.contains(u),
    ensures search(g, m, f, ns, mk),
{
    assert forall|u: usize| #[trigger] f.has(u) implies g.has(u) && f.par[u] is None && f.even[u] by {
        let i = choose|i: int| 0 <= i < g.nodes.len() && #[trigger] g.nodes[i] == u;
        assert(g.nodes.contains(u));
    }
    assert forall|u: usize| #[trigger] g.has(u) && !m.contains_key(u) implies f.has(u) by {
        assert(g.nodes.contains(u));
        let i = choose|i: int| 0 <= i < g.nodes.len() && g.nodes[i] == u;
        assert(rooted(g, m, g.nodes.len() as int, u));
    }
    assert forall|a: usize, b: usize| #[trigger] mk(a, b) implies mark_ok(m, f, a, b) by {
        let i = choose|i: int| 0 <= i < s.len() && same(#[trigger] s[i], (a, b));
        assert(m.contains_pair(s[i].0, s[i].1));
        assert(m.contains_key(s[i].0));
    }
}
pub proof fn lemma_search_alt(g: GV, m: PM, f: FV, ns: Set<usize>, mk: MK)
    requires search(g, m, f, ns, mk),
    ensures alt(g, m, f), f.wf(),
{
}
pub proof fn lemma_search_even(g: GV, m: PM, f: FV, ns: Set<usize>, mk: MK, v: usize)
    requires search(g, m, f, ns, mk), f.is_even(v),
    ensures f.has(v), g.has(v),
{
    assert(f.has(v));
}
pub proof fn lemma_spent(g: GV, mk: MK, v: usize)
    requires forall|w: usize| #[trigger] g.adj(v, w) ==> mk(v, w),
    ensures spent(g, mk, v),
{
}
/// an edge from the even node v to an odd node is marked
pub proof fn lemma_search_mark(g: GV, m: PM, f: FV, ns: Set<usize>, mk: MK, v: usize, w: usize, mk2: MK)
    requires
        search(g, m, f, ns, mk), f.is_even(v), f.is_odd(w),
        marked(mk, v, w, mk2),
    ensures search(g, m, f, ns, mk2),
{
    assert forall|a: usize, b: usize| #[trigger] mk2(a, b) implies mark_ok(m, f, a, b) by {
        if mk(a, b) { assert(mark_ok(m, f, a, b)); }
    }
    assert forall|u: usize| #[trigger] ns.contains(u) implies f.is_even(u) && spent(g, mk2, u) by {
        assert(spent(g, mk, u));
        assert forall|x: usize| #[trigger] g.adj(u, x) implies mk2(u, x) by { assert(mk(u, x)); }
    }
}
/// a node outside the forest is matched, and so is its mate
pub proof fn lemma_outside(g: GV, m: PM, f: FV, w: usize)
    requires
        g.wf(), is_matching(g, m), alt(g, m, f), g.has(w), !f.has(w),
        forall|u: usize| #[trigger] g.has(u) && !m.contains_key(u) ==> f.has(u),
    ensures m.contains_key(w), !f.has(m[w]), m[w] != w, g.has(m[w]), m.contains_key(m[w]), m[m[w]] == w,
{
    let x = m[w];
    assert(m.contains_key(w));
    assert(m.contains_key(x) && m[x] == w && x != w);
    assert(g.adj(w, x));
    assert(g.adj(x, w));
    if f.has(x) {
        if f.par[x] is Some && f.even[x] { assert(m.contains_pair(x, f.par[x]->0)); assert(f.has(f.par[x]->0)); }
    }
}
/// w and its mate join the tree of v
pub proof fn lemma_search_grow(g: GV, m: PM, f: FV, ns: Set<usize>, mk: MK, v: usize, w: usize)
    requires g.wf(), is_matching(g, m), search(g, m, f, ns, mk), f.is_even(v), g.adj(v, w), !f.has(w),
    ensures
        m.contains_key(w), !f.with_child(v, w).has(m[w]), f.with_child(v, w).has(w),
        search(g, m, f.with_child(v, w).with_child(w, m[w]), ns, mk),
        f.with_child(v, w).with_child(w, m[w]).is_odd(w),
        f.with_child(v, w).with_child(w, m[w]).is_even(v),
{
    assert(g.adj(w, v));
    assert(g.has(w));
    lemma_outside(g, m, f, w);
    let x = m[w];
    let f1 = f.with_child(v, w);
    let f2 = f1.with_child(w, x);
    lemma_with_child_wf(f, v, w);
    lemma_with_child_wf(f1, w, x);
    assert(f.has(v));
    assert(f2.even[w] == false && f2.even[x] == true);
    assert forall|u: usize| u != w && u != x implies (#[trigger] f2.has(u) <==> f.has(u)) && f2.par[u] == f.par[u] && f2.even[u] == f.even[u] by {}
    assert forall|u: usize| #[trigger] f2.has(u) implies g.has(u) by { if u != w && u != x { assert(f.has(u)); } }
    assert forall|u: usize| #[trigger] f2.has(u) && f2.par[u] is None implies !m.contains_key(u) by { if u != w && u != x { assert(f.has(u)); } }
    assert forall|u: usize| #[trigger] f2.has(u) && f2.par[u] is Some && f2.even[u] implies m.contains_pair(u, f2.par[u]->0) by {
        if u != w && u != x { assert(f.has(u)); }
    }
    assert forall|u: usize| #[trigger] f2.has(u) && !f2.even[u] implies g.adj(f2.par[u]->0, u) && m.contains_key(u) && f2.has(m[u]) && f2.par[m[u]] == Some(u) by {
        if u != w && u != x {
            assert(f.has(u));
            assert(f.has(m[u]));
            assert(m[u] != w && m[u] != x);
        }
    }
    assert(alt(g, m, f2));
    assert forall|a: usize, b: usize| #[trigger] mk(a, b) implies mark_ok(m, f2, a, b) by {
        assert(mark_ok(m, f, a, b));
        if f.is_even(a) && f.is_odd(b) { assert(f.has(a) && f.has(b)); assert(f2.is_even(a) && f2.is_odd(b)); }
        if f.is_odd(a) && f.is_even(b) { assert(f.has(a) && f.has(b)); assert(f2.is_odd(a) && f2.is_even(b)); }
    }
    assert forall|u: usize| #[trigger] g.has(u) && !m.contains_key(u) implies f2.has(u) by { assert(f.has(u)); }
    assert forall|u: usize| #[trigger] ns.contains(u) implies f2.is_even(u) && spent(g, mk, u) by { assert(f.is_even(u)); assert(f.has(u)); }
}
/// v's edges are all marked
pub proof fn lemma_search_spent(g: GV, m: PM, f: FV, ns: Set<usize>, mk: MK, v: usize, ns2: Set<usize>)
    requires search(g, m, f, ns, mk), f.is_even(v), spent(g, mk, v), ns2 == ns.insert(v),
    ensures search(g, m, f, ns2, mk),
{
}
/// marks and forest as they were, given another closure over the same marks
pub proof fn lemma_search_same(g: GV, m: PM, f: FV, ns: Set<usize>, mk: MK, mk2: MK)
    requires search(g, m, f, ns, mk), forall|a: usize, b: usize| #[trigger] mk2(a, b) == mk(a, b),
    ensures search(g, m, f, ns, mk2),
{
    assert forall|u: usize| #[trigger] ns.contains(u) implies f.is_even(u) && spent(g, mk2, u) by { assert(spent(g, mk, u)); }
}
/// nothing left to mark: no augmenting path
pub proof fn lemma_search_end(g: GV, m: PM, f: FV, ns: Set<usize>, mk: MK)
    requires
        g.wf(), is_matching(g, m), search(g, m, f, ns, mk),
        forall|u: usize| #[trigger] f.is_even(u) ==> ns.contains(u),
    ensures has_cert(g, m),
{
    assert forall|u: usize, v: usize| f.is_even(u) && #[trigger] g.adj(u, v) implies mark_ok(m, f, u, v) by {
        assert(ns.contains(u));
        assert(spent(g, mk, u));
        assert(mk(u, v));
    }
    lemma_final(g, m, f);
}
/// the parity of a chain tells the parity of its node
pub proof fn lemma_chain_parity(f: FV, w: usize)
    requires f.wf(), f.has(w),
    ensures f.chain(w).len() % 2 == 1 <==> f.even[w], f.chain(w).len() > 0, f.chain(w)[0] == w,
{
    hide(FV::chain);
    lemma_chain(f, w);
    let c = f.chain(w);
    let k = c.len() - 1;
    assert(chain_at(f, c, w, k));
    assert(c[k] == c.last());
    assert(f.has(c[k]));
}

// ------------------------------------------------------------------ measures

pub open spec fn fresh_nbrs(g: GV, mk: MK, v: usize) -> Set<usize> { g.nodes.to_set().filter(|w: usize| g.adj(v, w) && !mk(v, w)) }
pub open spec fn fresh_nodes(g: GV, ns: Set<usize>) -> Set<usize> { g.nodes.to_set().filter(|u: usize| !ns.contains(u)) }
pub proof fn lemma_smaller(a: Set<usize>, b: Set<usize>, x: usize)
    requires forall|u: usize| #[trigger] a.contains(u) ==> b.contains(u), b.contains(x), !a.contains(x),
    ensures a.len() < b.len(),
{
    let c = b.remove(x);
    assert(a.subset_of(c));
    vstd::set_lib::lemma_len_subset(a, c);
    assert(c.len() == b.len() - 1);
}
pub proof fn lemma_nbrs_less(g: GV, mk: MK, mk2: MK, v: usize, w: usize)
    requires g.wf(), g.adj(v, w), !mk(v, w), marked(mk, v, w, mk2),
    ensures fresh_nbrs(g, mk2, v).len() < fresh_nbrs(g, mk, v).len(),
{
    assert(g.adj(w, v));
    assert(g.has(w));
    assert(g.nodes.contains(w));
    assert(mk2(v, w));
    assert forall|u: usize| #[trigger] fresh_nbrs(g, mk2, v).contains(u) implies fresh_nbrs(g, mk, v).contains(u) by {
        assert(!mk2(v, u)); assert(mk(v, u) ==> mk2(v, u));
    }
    lemma_smaller(fresh_nbrs(g, mk2, v), fresh_nbrs(g, mk, v), w);
}
pub proof fn lemma_nodes_less(g: GV, ns: Set<usize>, v: usize)
    requires g.wf(), g.has(v), !ns.contains(v),
    ensures fresh_nodes(g, ns.insert(v)).len() < fresh_nodes(g, ns).len(),
{
    assert(g.nodes.contains(v));
    assert(!fresh_nodes(g, ns.insert(v)).contains(v));
    assert(fresh_nodes(g, ns).contains(v));
    lemma_smaller(fresh_nodes(g, ns.insert(v)), fresh_nodes(g, ns), v);
}
/// if the ids up to and including id are all nodes, id is less than their number
pub proof fn lemma_low_ids(g: GV, id: usize)
    requires g.wf(), g.has(id), forall|k: usize| k < id ==> #[trigger] g.has(k),
    ensures id < g.nodes.len(),
{
    let s = g.nodes.to_set();
    g.nodes.unique_seq_to_set();
    assert forall|k: usize| k <= id implies #[trigger] s.contains(k) by { assert(g.has(k)); assert(g.nodes.contains(k)); }
    lemma_low_set(s.remove(id), id as int);
}
proof fn lemma_low_set(s: Set<usize>, id: int)
    requires 0 <= id <= usize::MAX, forall|k: usize| k < id ==> #[trigger] s.contains(k),
    ensures id <= s.len(),
    decreases id,
{
    if id > 0 {
        let k = (id - 1) as usize;
        assert(s.contains(k));
        lemma_low_set(s.remove(k), id - 1);
    }
}

// ------------------------------------------------------------------ after the blossom is contracted

pub open spec fn con_ok(left: Seq<usize>, right: Seq<usize>, p: Seq<usize>, g: GV, m: PM, id: usize, h: GV, k: PM) -> bool {
    &&& exists|i: int, j: int| #[trigger] join_at(left, right, i, j) && p == flower(left, right, i, j)
    &&& contracted(p, g, id, h) && contracted_m(p, m, id, k)
}
pub proof fn lemma_blossom(left: Seq<usize>, right: Seq<usize>, p: Seq<usize>, g: GV, m: PM, id: usize)
    requires
        g.wf(), is_matching(g, m), flower_pre(left, right, g, m), !g.has(id),
        exists|i: int, j: int| #[trigger] join_at(left, right, i, j) && p == flower(left, right, i, j),
    ensures
        p.len() > 0, cycle(p, g), forall|x: usize| #[trigger] p.contains(x) ==> g.has(x),
        blossom_ok(p, g, m), cp_pre(m, p, id),
{
    let (i, j) = choose|i: int, j: int| #[trigger] join_at(left, right, i, j) && p == flower(left, right, i, j);
    lemma_flower(left, right, g, m, i, j);
    if m.contains_key(id) { assert(g.adj(id, m[id])); }
}
pub proof fn lemma_con(left: Seq<usize>, right: Seq<usize>, p: Seq<usize>, g: GV, m: PM, id: usize, h: GV, k: PM)
    requires g.wf(), is_matching(g, m), flower_pre(left, right, g, m), !g.has(id), con_ok(left, right, p, g, m, id, h, k),
    ensures
        is_matching(h, k), blossom_ok(p, g, m),
        forall|q: Seq<usize>| #[trigger] aug_ok(q, h, k) ==> lift_pre(q, p, g, id, h, m, k),
        has_cert(h, k) ==> has_cert(g, m),
{
    let (i, j) = choose|i: int, j: int| #[trigger] join_at(left, right, i, j) && p == flower(left, right, i, j);
    lemma_flower(left, right, g, m, i, j);
    lemma_contracted_matching(p, g, id, h, m, k);
    if has_cert(h, k) {
        lemma_flower_stem(left, right, g, m, i, j, id, h, k);
        let c = choose|c: Seq<usize>| #[trigger] alt_chain(c, h, k) && c[0] == id;
        lemma_cert_lift(p, g, id, h, m, k, c);
    }
}
/// what the search hands over when two even nodes meet
pub proof fn lemma_even_meet(g: GV, m: PM, f: FV, v: usize, w: usize)
    requires g.wf(), is_matching(g, m), alt(g, m, f), f.is_even(v), f.is_even(w), g.adj(v, w),
    ensures
        f.chain(v).len() > 0, f.chain(w).len() > 0,
        f.chain(v).last() == f.chain(w).last() ==> flower_pre(f.chain(v), f.chain(w), g, m),
        f.chain(v).last() != f.chain(w).last() ==> aug_ok(f.chain(v).reverse() + f.chain(w), g, m),
{
    hide(FV::chain);
    lemma_alt_chain(g, m, f, v);
    lemma_alt_chain(g, m, f, w);
    lemma_meet(f, v, w);
    if f.chain(v).last() != f.chain(w).last() { lemma_join(g, m, f.chain(v), f.chain(w)); }
}
pub proof fn lemma_aug_distinct(p: Seq<usize>, g: GV, m: PM)
    requires aug_ok(p, g, m),
    ensures steps_distinct(p), p.no_duplicates(), p.len() % 2 == 0,
{
}
/// why augmenting goes on only as long as nodes are exposed
pub proof fn lemma_room(g: GV, m: PM)
    requires g.wf(), is_matching(g, m),
    ensures m.dom().len() <= g.nodes.len(),
{
    lemma_exposed_count(g, m);
}

} // verus!
}
