pub mod bf {
#[allow(unused_imports)] use vstd::prelude::*;
#[allow(unused_imports)] use crate::vx::*;
#[allow(unused_imports)] use crate::th::*;
#[allow(unused_imports)] use crate::tr::*;
#[allow(unused_imports)] use crate::mt::lemma_index_push;
verus! {

// ================================================================== breadth first

/// (s, t) is the step a breadth-first traversal owes: from the earliest visited node with an unreported edge,
/// along the first such edge in its neighbor order
pub open spec fn bfs_owes(g: GV, tv: TV, s: usize, t: usize) -> bool {
    &&& open_edge(g, tv, s, t)
    &&& forall|u: usize, v: usize| #[trigger] open_edge(g, tv, u, v) ==> tv.idx(s) <= tv.idx(u)
    &&& forall|v: usize| #[trigger] open_edge(g, tv, s, v) ==> g.nbrs[s].index_of(t) <= g.nbrs[s].index_of(v)
}
pub open spec fn bfs_pending(g: GV, tv: TV, e: (usize, usize)) -> bool {
    open_edge(g, tv, e.0, e.1) && (tv.seen(e.1) ==> tv.idx(e.0) <= tv.idx(e.1))
}
/// e is reported later than f
pub open spec fn bfs_after(g: GV, ord: Seq<usize>, e: (usize, usize), f: (usize, usize)) -> bool {
    ord.index_of(f.0) < ord.index_of(e.0) || (e.0 == f.0 && g.nbrs[e.0].index_of(f.1) < g.nbrs[e.0].index_of(e.1))
}
pub open spec fn bfs_sorted(g: GV, ord: Seq<usize>, s: Seq<(usize, usize)>) -> bool {
    forall|i: int, j: int| 0 <= i < j < s.len() ==> bfs_after(g, ord, #[trigger] s[i], #[trigger] s[j])
}
pub open spec fn bfs_inv(g: GV, root: usize, tv: TV, nodes: Set<usize>, queue: Seq<(usize, usize)>) -> bool {
    &&& g.wf()
    &&& tv_ok(g, root, tv)
    &&& levels(g, tv)
    &&& forall|u: usize| #[trigger] nodes.contains(u) <==> tv.seen(u)
    &&& forall|e: (usize, usize)| #[trigger] queue.contains(e) <==> bfs_pending(g, tv, e)
    &&& bfs_sorted(g, tv.ord, queue)
}

// ------------------------------------------------------------------ distances

/// how many steps after the root node k was reached, along uncut steps
pub open spec fn depth(tv: TV, k: int) -> nat
    decreases k
{
    if 0 < k && 0 <= tv.par[k] < k { depth(tv, tv.par[k]) + 1 } else { 0 }
}
pub open spec fn par_first(g: GV, tv: TV, i: int, k: int) -> bool {
    g.adj(tv.ord[i], tv.ord[k]) ==> tv.par[k] <= i
}
pub open spec fn par_down(tv: TV, j: int, k: int) -> bool { tv.par[j] <= tv.par[k] }
/// nodes were reached from the earliest node next to them, in that order
pub open spec fn levels(g: GV, tv: TV) -> bool {
    &&& forall|i: int, k: int| 0 <= i < tv.ord.len() && 0 < k < tv.ord.len() ==> #[trigger] par_first(g, tv, i, k)
    &&& forall|j: int, k: int| 0 < j <= k < tv.ord.len() ==> #[trigger] par_down(tv, j, k)
    &&& forall|u: usize, v: usize, k: int| 0 < k < tv.ord.len() && #[trigger] open_edge(g, tv, u, v) ==> #[trigger] tv.par[k] <= tv.idx(u)
}
/// b is at distance n from a
pub open spec fn distance(g: GV, a: usize, b: usize, n: nat) -> bool {
    walk(g, a, b, n) && forall|k: nat| #[trigger] walk(g, a, b, k) ==> n <= k
}
/// nodes come in order of distance from the root and uncut steps lead along shortest paths
pub open spec fn shortest(g: GV, root: usize, tv: TV) -> bool {
    &&& forall|k: int| 0 <= k < tv.ord.len() ==> distance(g, root, #[trigger] tv.ord[k], depth(tv, k))
    &&& forall|i: int, j: int| 0 <= i <= j < tv.ord.len() ==> #[trigger] depth(tv, i) <= #[trigger] depth(tv, j)
}
proof fn lemma_depth_mono(g: GV, root: usize, tv: TV, i: int, j: int)
    requires tv_ok(g, root, tv), levels(g, tv), 0 <= i <= j < tv.ord.len(),
    ensures depth(tv, i) <= depth(tv, j),
    decreases j,
{
    if i > 0 {
        assert(par_down(tv, i, j));
        assert(node_at(g, root, tv, i) && node_at(g, root, tv, j));
        lemma_depth_mono(g, root, tv, tv.par[i], tv.par[j]);
    }
}
proof fn lemma_depth_walk(g: GV, root: usize, tv: TV, k: int)
    requires tv_ok(g, root, tv), 0 <= k < tv.ord.len(), g.has(root),
    ensures walk(g, root, tv.ord[k], depth(tv, k)),
    decreases k,
{
    if k > 0 {
        assert(node_at(g, root, tv, k));
        lemma_depth_walk(g, root, tv, tv.par[k]);
        assert(g.adj(tv.ord[tv.par[k]], tv.ord[k]));
    }
}
proof fn lemma_depth_least(g: GV, root: usize, tv: TV, u: usize, n: nat)
    requires g.wf(), tv_ok(g, root, tv), levels(g, tv), complete(g, root, tv), walk(g, root, u, n),
    ensures tv.seen(u), depth(tv, tv.idx(u)) <= n,
    decreases n,
{
    assert(reach(g, root, u));
    assert(tv.seen(u));
    lemma_seen(tv, u);
    let k = tv.idx(u);
    if n == 0 {
        lemma_idx(tv, 0);
    } else {
        let c = choose|c: usize| walk(g, root, c, (n - 1) as nat) && #[trigger] g.adj(c, u);
        lemma_depth_least(g, root, tv, c, (n - 1) as nat);
        lemma_seen(tv, c);
        let i = tv.idx(c);
        if k > 0 {
            assert(par_first(g, tv, i, k));
            assert(node_at(g, root, tv, k));
            lemma_depth_mono(g, root, tv, tv.par[k], i);
        }
    }
}
pub proof fn lemma_shortest(g: GV, root: usize, tv: TV)
    requires g.wf(), tv_ok(g, root, tv), levels(g, tv), complete(g, root, tv),
    ensures shortest(g, root, tv),
{
    assert(node_at(g, root, tv, 0));
    assert forall|k: int| 0 <= k < tv.ord.len() implies distance(g, root, #[trigger] tv.ord[k], depth(tv, k)) by {
        lemma_depth_walk(g, root, tv, k);
        lemma_idx(tv, k);
        assert forall|n: nat| #[trigger] walk(g, root, tv.ord[k], n) implies depth(tv, k) <= n by {
            lemma_depth_least(g, root, tv, tv.ord[k], n);
        }
    }
    assert forall|i: int, j: int| 0 <= i <= j < tv.ord.len() implies #[trigger] depth(tv, i) <= #[trigger] depth(tv, j) by {
        lemma_depth_mono(g, root, tv, i, j);
    }
}
pub proof fn lemma_levels_step(g: GV, root: usize, tv: TV, s: usize, t: usize)
    requires g.wf(), tv_ok(g, root, tv), levels(g, tv), bfs_owes(g, tv, s, t),
    ensures levels(g, tv.step(s, t)),
{
    let tw = tv.step(s, t);
    lemma_step_seen(tv, s, t);
    lemma_seen(tv, s);
    lemma_step_ok(g, root, tv, s, t);
    let n = tv.ord.len() as int;
    assert forall|i: int, k: int| 0 <= i < tw.ord.len() && 0 < k < tw.ord.len() implies #[trigger] par_first(g, tw, i, k) by {
        assert(node_at(g, root, tw, k));
        if i < n && k < n { assert(par_first(g, tv, i, k)); }
        else if i < n && g.adj(tw.ord[i], t) {
            lemma_idx(tv, i);
            let u = tv.ord[i];
            if tv.rep(u, t) { lemma_rep(g, root, tv, u, t); }
            assert(open_edge(g, tv, u, t));
        }
    }
    assert forall|j: int, k: int| 0 < j <= k < tw.ord.len() implies #[trigger] par_down(tw, j, k) by {
        if k < n { assert(par_down(tv, j, k)); }
        else if j < n { assert(tv.par[j] <= tv.idx(s)) by { assert(open_edge(g, tv, s, t)); } }
    }
    assert forall|u: usize, v: usize, k: int| 0 < k < tw.ord.len() && #[trigger] open_edge(g, tw, u, v) implies #[trigger] tw.par[k] <= tw.idx(u) by {
        if tv.seen(u) {
            assert(open_edge(g, tv, u, v));
            if k < n { assert(tv.par[k] <= tv.idx(u)); }
        } else {
            assert(u == t);
            assert(node_at(g, root, tw, k));
        }
    }
}

// ------------------------------------------------------------------ the queue

pub proof fn lemma_bfs_open_pending(g: GV, root: usize, tv: TV, u: usize, v: usize)
    requires g.wf(), tv_ok(g, root, tv), open_edge(g, tv, u, v),
    ensures bfs_pending(g, tv, (u, v)) || (bfs_pending(g, tv, (v, u)) && tv.idx(v) < tv.idx(u)),
{
    if !bfs_pending(g, tv, (u, v)) {
        assert(g.adj(v, u));
        assert(tv.rep(u, v) == tv.rep(v, u));
    }
}
pub proof fn lemma_bfs_top(g: GV, root: usize, tv: TV, nodes: Set<usize>, queue: Seq<(usize, usize)>)
    requires bfs_inv(g, root, tv, nodes, queue), queue.len() > 0,
    ensures bfs_owes(g, tv, queue.last().0, queue.last().1), bfs_pending(g, tv, queue.last()),
{
    let n = queue.len() - 1;
    let (s, t) = queue[n];
    assert(queue.contains(queue[n]));
    assert forall|u: usize, v: usize| #[trigger] open_edge(g, tv, u, v) implies tv.idx(s) <= tv.idx(u) by {
        lemma_bfs_open_pending(g, root, tv, u, v);
        let e = if bfs_pending(g, tv, (u, v)) { (u, v) } else { (v, u) };
        assert(queue.contains(e));
        let k = choose|k: int| 0 <= k < queue.len() && queue[k] == e;
        if k < n { assert(bfs_after(g, tv.ord, queue[k], queue[n])); }
    }
    assert forall|v: usize| #[trigger] open_edge(g, tv, s, v) implies g.nbrs[s].index_of(t) <= g.nbrs[s].index_of(v) by {
        lemma_bfs_open_pending(g, root, tv, s, v);
        if bfs_pending(g, tv, (v, s)) && tv.idx(v) < tv.idx(s) {
            assert(open_edge(g, tv, v, s));
        }
        let e = (s, v);
        assert(queue.contains(e));
        let k = choose|k: int| 0 <= k < queue.len() && queue[k] == e;
        if k < n { assert(bfs_after(g, tv.ord, queue[k], queue[n])); }
    }
}
pub proof fn lemma_bfs_none(g: GV, root: usize, tv: TV, nodes: Set<usize>, queue: Seq<(usize, usize)>)
    requires bfs_inv(g, root, tv, nodes, queue), queue.len() == 0,
    ensures complete(g, root, tv), shortest(g, root, tv),
{
    assert forall|u: usize, v: usize| !#[trigger] open_edge(g, tv, u, v) by {
        if open_edge(g, tv, u, v) {
            lemma_bfs_open_pending(g, root, tv, u, v);
            assert(queue.contains((u, v)) || queue.contains((v, u)));
        }
    }
    lemma_complete(g, root, tv);
    lemma_shortest(g, root, tv);
}
/// the front leads to a visited node: it is reported and nothing else changes
pub proof fn lemma_bfs_cut(g: GV, root: usize, tv: TV, nodes: Set<usize>, queue: Seq<(usize, usize)>)
    requires bfs_inv(g, root, tv, nodes, queue), queue.len() > 0, tv.seen(queue.last().1),
    ensures bfs_inv(g, root, tv.step(queue.last().0, queue.last().1), nodes, queue.drop_last()),
{
    let (s, t) = queue.last();
    let n = queue.len() - 1;
    lemma_bfs_top(g, root, tv, nodes, queue);
    lemma_step_ok(g, root, tv, s, t);
    lemma_step_seen(tv, s, t);
    lemma_levels_step(g, root, tv, s, t);
    let tw = tv.step(s, t);
    let rest = queue.drop_last();
    lemma_contains_drop_last(queue);
    assert forall|e: (usize, usize)| #[trigger] rest.contains(e) <==> bfs_pending(g, tw, e) by {
        assert(queue.contains(e) <==> bfs_pending(g, tv, e));
        assert(tw.rep(e.0, e.1) <==> tv.rep(e.0, e.1) || same((s, t), e));
        if rest.contains(e) {
            let k = choose|k: int| 0 <= k < rest.len() && rest[k] == e;
            assert(queue[k] == e);
            assert(bfs_after(g, tv.ord, queue[k], queue[n]));
        }
    }
}
/// the state while the neighbors of a newly visited node are queued: p of nb are done
pub open spec fn bfs_mid(g: GV, root: usize, tv: TV, nodes: Set<usize>, cur: Seq<(usize, usize)>, s: usize, t: usize, nb: Seq<usize>, p: int) -> bool {
    &&& g.wf()
    &&& tv_ok(g, root, tv)
    &&& levels(g, tv)
    &&& forall|u: usize| #[trigger] nodes.contains(u) <==> tv.seen(u)
    &&& bfs_owes(g, tv, s, t) && !tv.seen(t)
    &&& forall|e: (usize, usize)| #[trigger] cur.contains(e) <==> bfs_mid_has(g, tv, e, s, t, nb, p)
    &&& bfs_sorted(g, tv.ord.push(t), cur)
}
pub open spec fn bfs_mid_has(g: GV, tv: TV, e: (usize, usize), s: usize, t: usize, nb: Seq<usize>, p: int) -> bool {
    ||| bfs_pending(g, tv, e) && e != (s, t)
    ||| e.0 == t && e.1 != s && !tv.seen(e.1) && nb.subrange(0, p).contains(e.1)
}
pub proof fn lemma_bfs_mid_start(g: GV, root: usize, tv: TV, nodes: Set<usize>, queue: Seq<(usize, usize)>, nb: Seq<usize>)
    requires bfs_inv(g, root, tv, nodes, queue), queue.len() > 0, !tv.seen(queue.last().1),
    ensures bfs_mid(g, root, tv, nodes, queue.drop_last(), queue.last().0, queue.last().1, nb, 0), g.has(queue.last().1),
{
    let (s, t) = queue.last();
    let n = queue.len() - 1;
    lemma_bfs_top(g, root, tv, nodes, queue);
    lemma_step_ok(g, root, tv, s, t);
    let rest = queue.drop_last();
    lemma_contains_drop_last(queue);
    assert(nb.subrange(0, 0) =~= Seq::empty());
    assert forall|e: (usize, usize)| #[trigger] rest.contains(e) <==> bfs_mid_has(g, tv, e, s, t, nb, 0) by {
        assert(queue.contains(e) <==> bfs_pending(g, tv, e));
        if rest.contains(e) {
            let k = choose|k: int| 0 <= k < rest.len() && rest[k] == e;
            assert(queue[k] == e);
            assert(bfs_after(g, tv.ord, queue[k], queue[n]));
        }
    }
    lemma_index_push(tv.ord, t);
    assert forall|i: int, j: int| 0 <= i < j < rest.len() implies bfs_after(g, tv.ord.push(t), #[trigger] rest[i], #[trigger] rest[j]) by {
        assert(rest.contains(rest[i]) && rest.contains(rest[j]));
        assert(bfs_after(g, tv.ord, queue[i], queue[j]));
    }
}
proof fn lemma_contains_front<T>(s: Seq<T>, x: T)
    ensures forall|y: T| #[trigger] (seq![x] + s).contains(y) <==> s.contains(y) || y == x,
{
    lemma_contains_add(seq![x], s);
    assert forall|y: T| #[trigger] seq![x].contains(y) <==> y == x by { assert(seq![x][0] == x); }
}
proof fn lemma_nb_index(s: Seq<usize>, i: int)
    requires s.no_duplicates(), 0 <= i < s.len(),
    ensures s.index_of(s[i]) == i,
{ assert(s.contains(s[i])); }
/// one more neighbor: skipped or queued
pub proof fn lemma_bfs_mid_step(g: GV, root: usize, tv: TV, nodes: Set<usize>, cur: Seq<(usize, usize)>, next: Seq<(usize, usize)>, s: usize, t: usize, nb: Seq<usize>, p: int)
    requires
        bfs_mid(g, root, tv, nodes, cur, s, t, nb, p),
        0 <= p < nb.len(), g.has(t), nb == g.nbrs[t],
        nb[p] == s || nodes.contains(nb[p]) ==> next == cur,
        !(nb[p] == s || nodes.contains(nb[p])) ==> next == seq![(t, nb[p])] + cur,
    ensures bfs_mid(g, root, tv, nodes, next, s, t, nb, p + 1),
{
    let x = nb[p];
    lemma_subrange_push(nb, p);
    let ord = tv.ord.push(t);
    lemma_index_push(tv.ord, t);
    lemma_nb_index(nb, p);
    if x == s || nodes.contains(x) {
        assert forall|e: (usize, usize)| #[trigger] next.contains(e) <==> bfs_mid_has(g, tv, e, s, t, nb, p + 1) by {
            assert(cur.contains(e) <==> bfs_mid_has(g, tv, e, s, t, nb, p));
        }
    } else {
        lemma_contains_front(cur, (t, x));
        assert forall|e: (usize, usize)| #[trigger] next.contains(e) <==> bfs_mid_has(g, tv, e, s, t, nb, p + 1) by {
            assert(cur.contains(e) <==> bfs_mid_has(g, tv, e, s, t, nb, p));
        }
        assert forall|i: int, j: int| 0 <= i < j < next.len() implies bfs_after(g, ord, #[trigger] next[i], #[trigger] next[j]) by {
            if i > 0 {
                assert(bfs_after(g, ord, cur[i - 1], cur[j - 1]));
            } else {
                let e = cur[j - 1];
                assert(cur.contains(e));
                assert(bfs_mid_has(g, tv, e, s, t, nb, p));
                if e.0 == t {
                    assert(!tv.seen(t));
                    let k = choose|k: int| 0 <= k < p && nb.subrange(0, p)[k] == e.1;
                    assert(nb[k] == e.1);
                    lemma_nb_index(nb, k);
                } else {
                    lemma_seen(tv, e.0);
                    assert(ord.index_of(e.0) == tv.idx(e.0));
                }
            }
        }
    }
}
pub proof fn lemma_bfs_mid_end(g: GV, root: usize, tv: TV, nodes: Set<usize>, cur: Seq<(usize, usize)>, s: usize, t: usize, nb: Seq<usize>)
    requires bfs_mid(g, root, tv, nodes, cur, s, t, nb, nb.len() as int), g.has(t), nb == g.nbrs[t],
    ensures bfs_inv(g, root, tv.step(s, t), nodes.insert(t), cur),
{
    let tw = tv.step(s, t);
    lemma_step_ok(g, root, tv, s, t);
    lemma_step_seen(tv, s, t);
    lemma_levels_step(g, root, tv, s, t);
    assert(nb.subrange(0, nb.len() as int) =~= nb);
    assert(tw.ord == tv.ord.push(t));
    assert forall|e: (usize, usize)| #[trigger] cur.contains(e) <==> bfs_pending(g, tw, e) by {
        assert(cur.contains(e) <==> bfs_mid_has(g, tv, e, s, t, nb, nb.len() as int));
        assert(tw.rep(e.0, e.1) <==> tv.rep(e.0, e.1) || same((s, t), e));
        if tv.rep(e.0, e.1) { lemma_rep(g, root, tv, e.0, e.1); }
        if tv.seen(e.0) { lemma_seen(tv, e.0); }
        if tv.seen(e.1) { lemma_seen(tv, e.1); }
        assert(g.adj(e.0, e.1) ==> g.adj(e.1, e.0));
    }
}
pub proof fn lemma_bfs_new(g: GV, root: usize, nodes: Set<usize>, queue: Seq<(usize, usize)>)
    requires
        g.wf(), g.has(root), nodes =~= Set::<usize>::empty().insert(root),
        queue =~= Seq::new(g.nbrs[root].len(), |i: int| (root, g.nbrs[root][g.nbrs[root].len() - 1 - i])),
    ensures bfs_inv(g, root, TV::start(root), nodes, queue),
{
    let tv = TV::start(root);
    lemma_start(g, root);
    let nb = g.nbrs[root];
    let n = nb.len() as int;
    assert forall|e: (usize, usize)| #[trigger] queue.contains(e) <==> bfs_pending(g, tv, e) by {
        if queue.contains(e) {
            let k = choose|k: int| 0 <= k < queue.len() && queue[k] == e;
            assert(nb[n - 1 - k] == e.1);
        }
        if bfs_pending(g, tv, e) {
            assert(tv.seen(e.0));
            let k = choose|k: int| 0 <= k < nb.len() && nb[k] == e.1;
            assert(queue[n - 1 - k] == e);
        }
    }
    assert forall|i: int, j: int| 0 <= i < j < queue.len() implies bfs_after(g, tv.ord, #[trigger] queue[i], #[trigger] queue[j]) by {
        lemma_nb_index(nb, n - 1 - i);
        lemma_nb_index(nb, n - 1 - j);
    }
}

} // verus!
}
