pub mod tr {
#[allow(unused_imports)] use vstd::prelude::*;
#[allow(unused_imports)] use crate::vx::*;
#[allow(unused_imports)] use crate::th::*;
#[allow(unused_imports)] use crate::mt::lemma_index_push;
verus! {

// ================================================================== walks

/// a walk of n edges leads from a to b
pub open spec fn walk(g: GV, a: usize, b: usize, n: nat) -> bool
    decreases n
{
    if n == 0 { a == b && g.has(a) } else { exists|c: usize| walk(g, a, c, (n - 1) as nat) && #[trigger] g.adj(c, b) }
}
pub open spec fn reach(g: GV, a: usize, b: usize) -> bool { exists|n: nat| #[trigger] walk(g, a, b, n) }

pub proof fn lemma_adj_has(g: GV, u: usize, v: usize)
    requires g.wf(), g.adj(u, v),
    ensures g.has(u), g.has(v), g.adj(v, u),
{}
pub proof fn lemma_walk_has(g: GV, a: usize, b: usize, n: nat)
    requires g.wf(), walk(g, a, b, n),
    ensures g.has(a), g.has(b),
    decreases n,
{
    if n > 0 {
        let c = choose|c: usize| walk(g, a, c, (n - 1) as nat) && #[trigger] g.adj(c, b);
        lemma_walk_has(g, a, c, (n - 1) as nat);
        lemma_adj_has(g, c, b);
    }
}
pub proof fn lemma_reach_step(g: GV, a: usize, b: usize, c: usize)
    requires reach(g, a, b), g.adj(b, c),
    ensures reach(g, a, c),
{
    let n = choose|n: nat| #[trigger] walk(g, a, b, n);
    assert(walk(g, a, c, n + 1));
}
pub proof fn lemma_reach_self(g: GV, a: usize)
    requires g.has(a),
    ensures reach(g, a, a),
{ assert(walk(g, a, a, 0)); }
pub proof fn lemma_reach_trans_n(g: GV, a: usize, b: usize, c: usize, n: nat)
    requires reach(g, a, b), walk(g, b, c, n),
    ensures reach(g, a, c),
    decreases n,
{
    if n > 0 {
        let d = choose|d: usize| walk(g, b, d, (n - 1) as nat) && #[trigger] g.adj(d, c);
        lemma_reach_trans_n(g, a, b, d, (n - 1) as nat);
        lemma_reach_step(g, a, d, c);
    }
}
pub proof fn lemma_reach_trans(g: GV, a: usize, b: usize, c: usize)
    requires reach(g, a, b), reach(g, b, c),
    ensures reach(g, a, c),
{
    let n = choose|n: nat| #[trigger] walk(g, b, c, n);
    lemma_reach_trans_n(g, a, b, c, n);
}
pub proof fn lemma_reach_sym_n(g: GV, a: usize, b: usize, n: nat)
    requires g.wf(), walk(g, a, b, n),
    ensures reach(g, b, a),
    decreases n,
{
    lemma_walk_has(g, a, b, n);
    lemma_reach_self(g, b);
    if n > 0 {
        let c = choose|c: usize| walk(g, a, c, (n - 1) as nat) && #[trigger] g.adj(c, b);
        lemma_reach_sym_n(g, a, c, (n - 1) as nat);
        assert(g.adj(b, c));
        lemma_reach_step(g, b, b, c);
        lemma_reach_trans(g, b, c, a);
    }
}
pub proof fn lemma_reach_sym(g: GV, a: usize, b: usize)
    requires g.wf(), reach(g, a, b),
    ensures reach(g, b, a),
{
    let n = choose|n: nat| #[trigger] walk(g, a, b, n);
    lemma_reach_sym_n(g, a, b, n);
}
/// a set of nodes no edge leaves holds whatever its members reach
pub proof fn lemma_closed_n(g: GV, s: Seq<usize>, a: usize, b: usize, n: nat)
    requires s.contains(a), walk(g, a, b, n), forall|u: usize, v: usize| s.contains(u) && #[trigger] g.adj(u, v) ==> s.contains(v),
    ensures s.contains(b),
    decreases n,
{
    if n > 0 {
        let c = choose|c: usize| walk(g, a, c, (n - 1) as nat) && #[trigger] g.adj(c, b);
        lemma_closed_n(g, s, a, c, (n - 1) as nat);
    }
}

// ================================================================== traversal histories

/// what a traversal has done: nodes in order of first visit, the index each was visited from, edges in the order reported
pub struct TV { pub ord: Seq<usize>, pub par: Seq<int>, pub hist: Seq<(usize, usize)> }

impl TV {
    pub open spec fn start(root: usize) -> TV { TV { ord: seq![root], par: seq![-1int], hist: Seq::empty() } }
    pub open spec fn idx(self, u: usize) -> int { self.ord.index_of(u) }
    pub open spec fn seen(self, u: usize) -> bool { self.ord.contains(u) }
    pub open spec fn rep(self, u: usize, v: usize) -> bool { listed(self.hist, u, v) }
    pub open spec fn step(self, s: usize, t: usize) -> TV {
        if self.seen(t) { TV { ord: self.ord, par: self.par, hist: self.hist.push((s, t)) } }
        else { TV { ord: self.ord.push(t), par: self.par.push(self.idx(s)), hist: self.hist.push((s, t)) } }
    }
}

pub open spec fn node_at(g: GV, root: usize, tv: TV, k: int) -> bool {
    g.has(tv.ord[k]) && reach(g, root, tv.ord[k])
        && (k > 0 ==> 0 <= tv.par[k] < k && g.adj(tv.ord[tv.par[k]], tv.ord[k]) && tv.rep(tv.ord[tv.par[k]], tv.ord[k]))
}
/// nodes are visited once, each from an earlier one; edges of visited nodes are reported, each at most once
pub open spec fn tv_ok(g: GV, root: usize, tv: TV) -> bool {
    &&& tv.ord.len() >= 1 && tv.ord[0] == root
    &&& tv.par.len() == tv.ord.len()
    &&& tv.ord.no_duplicates()
    &&& forall|k: int| 0 <= k < tv.ord.len() ==> #[trigger] node_at(g, root, tv, k)
    &&& pairs_distinct(tv.hist)
    &&& forall|i: int| 0 <= i < tv.hist.len() ==> g.adj((#[trigger] tv.hist[i]).0, tv.hist[i].1) && tv.seen(tv.hist[i].0) && tv.seen(tv.hist[i].1)
}
/// the whole component of the root is visited and all its edges, and no others, are reported
pub open spec fn complete(g: GV, root: usize, tv: TV) -> bool {
    &&& forall|x: usize| #[trigger] tv.seen(x) <==> reach(g, root, x)
    &&& forall|u: usize, v: usize| #[trigger] tv.rep(u, v) <==> g.adj(u, v) && reach(g, root, u)
}
/// an edge of a visited node that is still to be reported
pub open spec fn open_edge(g: GV, tv: TV, u: usize, v: usize) -> bool { tv.seen(u) && g.adj(u, v) && !tv.rep(u, v) }

pub proof fn lemma_seen(tv: TV, u: usize)
    requires tv.seen(u),
    ensures 0 <= tv.idx(u) < tv.ord.len(), tv.ord[tv.idx(u)] == u,
{}
pub proof fn lemma_idx(tv: TV, k: int)
    requires tv.ord.no_duplicates(), 0 <= k < tv.ord.len(),
    ensures tv.seen(tv.ord[k]), tv.idx(tv.ord[k]) == k,
{
    assert(tv.ord.contains(tv.ord[k]));
}
pub proof fn lemma_rep(g: GV, root: usize, tv: TV, u: usize, v: usize)
    requires g.wf(), tv_ok(g, root, tv), tv.rep(u, v),
    ensures g.adj(u, v), g.adj(v, u), tv.seen(u), tv.seen(v), tv.rep(v, u),
{
    if tv.hist.contains((u, v)) {
        let i = choose|i: int| 0 <= i < tv.hist.len() && tv.hist[i] == (u, v);
        assert(g.adj(tv.hist[i].0, tv.hist[i].1));
    } else {
        let i = choose|i: int| 0 <= i < tv.hist.len() && tv.hist[i] == (v, u);
        assert(g.adj(tv.hist[i].0, tv.hist[i].1));
    }
}
pub proof fn lemma_start(g: GV, root: usize)
    requires g.wf(), g.has(root),
    ensures tv_ok(g, root, TV::start(root)), forall|u: usize| #[trigger] TV::start(root).seen(u) <==> u == root, TV::start(root).idx(root) == 0,
{
    let tv = TV::start(root);
    lemma_reach_self(g, root);
    assert(tv.ord[0] == root);
    assert(node_at(g, root, tv, 0));
    assert forall|u: usize| #[trigger] tv.seen(u) <==> u == root by { assert(tv.ord.contains(tv.ord[0])); }
    lemma_idx(tv, 0);
}
pub proof fn lemma_step_seen(tv: TV, s: usize, t: usize)
    requires tv.ord.no_duplicates(),
    ensures
        forall|u: usize| #[trigger] tv.step(s, t).seen(u) <==> tv.seen(u) || u == t,
        forall|u: usize| tv.seen(u) ==> #[trigger] tv.step(s, t).idx(u) == tv.idx(u),
        !tv.seen(t) ==> tv.step(s, t).idx(t) == tv.ord.len(),
        forall|u: usize, v: usize| #[trigger] tv.step(s, t).rep(u, v) <==> tv.rep(u, v) || same((s, t), (u, v)),
{
    if !tv.seen(t) {
        lemma_contains_push(tv.ord, t);
        lemma_index_push(tv.ord, t);
    }
    assert forall|u: usize, v: usize| #[trigger] tv.step(s, t).rep(u, v) <==> tv.rep(u, v) || same((s, t), (u, v)) by {
        lemma_listed_push(tv.hist, (s, t), u, v);
    }
}
pub proof fn lemma_step_ok(g: GV, root: usize, tv: TV, s: usize, t: usize)
    requires g.wf(), tv_ok(g, root, tv), tv.seen(s), g.adj(s, t), !tv.rep(s, t),
    ensures tv_ok(g, root, tv.step(s, t)), g.has(t),
{
    let n = tv.step(s, t);
    lemma_step_seen(tv, s, t);
    lemma_seen(tv, s);
    assert(g.adj(t, s));
    assert forall|k: int| 0 <= k < n.ord.len() implies #[trigger] node_at(g, root, n, k) by {
        if k < tv.ord.len() {
            assert(node_at(g, root, tv, k));
            if k > 0 { assert(node_at(g, root, tv, tv.par[k])); assert(n.rep(n.ord[n.par[k]], n.ord[k])); }
        } else {
            assert(node_at(g, root, tv, tv.idx(s)));
            lemma_reach_step(g, root, s, t);
            assert(n.rep(s, t));
        }
    }
    if !tv.seen(t) { lemma_no_dup_push(tv.ord, t); }
    assert forall|i: int, j: int| 0 <= i < j < n.hist.len() implies !same(#[trigger] n.hist[i], #[trigger] n.hist[j]) by {
        if j == tv.hist.len() && same(n.hist[i], n.hist[j]) {
            assert(tv.hist.contains(tv.hist[i]));
            assert(tv.rep(s, t));
        }
    }
    assert forall|i: int| 0 <= i < n.hist.len() implies g.adj((#[trigger] n.hist[i]).0, n.hist[i].1) && n.seen(n.hist[i].0) && n.seen(n.hist[i].1) by {
        if i < tv.hist.len() { assert(tv.hist[i] == n.hist[i]); }
    }
}
/// no edge left to report: the component is covered
pub proof fn lemma_complete(g: GV, root: usize, tv: TV)
    requires g.wf(), tv_ok(g, root, tv), forall|u: usize, v: usize| !#[trigger] open_edge(g, tv, u, v),
    ensures complete(g, root, tv),
{
    assert forall|u: usize, v: usize| tv.ord.contains(u) && #[trigger] g.adj(u, v) implies tv.ord.contains(v) by {
        assert(!open_edge(g, tv, u, v));
        assert(tv.seen(u));
        lemma_rep(g, root, tv, u, v);
    }
    assert forall|x: usize| #[trigger] tv.seen(x) <==> reach(g, root, x) by {
        if tv.seen(x) { lemma_seen(tv, x); assert(node_at(g, root, tv, tv.idx(x))); }
        if reach(g, root, x) {
            let n = choose|n: nat| #[trigger] walk(g, root, x, n);
            assert(tv.ord.contains(tv.ord[0]));
            lemma_closed_n(g, tv.ord, root, x, n);
        }
    }
    assert forall|u: usize, v: usize| #[trigger] tv.rep(u, v) <==> g.adj(u, v) && reach(g, root, u) by {
        if tv.rep(u, v) { lemma_rep(g, root, tv, u, v); assert(tv.seen(u)); }
        if g.adj(u, v) && reach(g, root, u) { assert(tv.seen(u)); assert(!open_edge(g, tv, u, v)); }
    }
}
/// a traversal cannot report more edges than there are
pub proof fn lemma_hist_len(g: GV, root: usize, tv: TV)
    requires g.wf(), tv_ok(g, root, tv),
    ensures tv.hist.len() <= g.edges.len(),
{
    lemma_norms(tv.hist);
    lemma_norms(g.edges);
    let (a, b) = (norms(tv.hist), norms(g.edges));
    assert forall|x: (usize, usize)| a.contains(x) implies b.contains(x) by {
        let i = choose|i: int| 0 <= i < a.len() && a[i] == x;
        assert(g.adj(tv.hist[i].0, tv.hist[i].1));
        assert(listed(g.edges, tv.hist[i].0, tv.hist[i].1));
    }
    lemma_seq_subset(a, b);
}

// ================================================================== depth first

/// (s, t) is the step a depth-first traversal owes: from the most recently visited node with an unreported edge,
/// along the first such edge in its neighbor order
pub open spec fn dfs_owes(g: GV, tv: TV, s: usize, t: usize) -> bool {
    &&& open_edge(g, tv, s, t)
    &&& forall|u: usize, v: usize| #[trigger] open_edge(g, tv, u, v) ==> tv.idx(u) <= tv.idx(s)
    &&& forall|v: usize| #[trigger] open_edge(g, tv, s, v) ==> g.nbrs[s].index_of(t) <= g.nbrs[s].index_of(v)
}
pub open spec fn dfs_pending(g: GV, tv: TV, e: (usize, usize)) -> bool {
    open_edge(g, tv, e.0, e.1) && (tv.seen(e.1) ==> tv.idx(e.1) <= tv.idx(e.0))
}
/// e is left for later than f
pub open spec fn dfs_after(g: GV, ord: Seq<usize>, e: (usize, usize), f: (usize, usize)) -> bool {
    ord.index_of(e.0) < ord.index_of(f.0) || (e.0 == f.0 && g.nbrs[e.0].index_of(f.1) < g.nbrs[e.0].index_of(e.1))
}
pub open spec fn dfs_sorted(g: GV, ord: Seq<usize>, s: Seq<(usize, usize)>) -> bool {
    forall|i: int, j: int| 0 <= i < j < s.len() ==> dfs_after(g, ord, #[trigger] s[i], #[trigger] s[j])
}
pub open spec fn dfs_inv(g: GV, root: usize, tv: TV, nodes: Set<usize>, stack: Seq<(usize, usize)>) -> bool {
    &&& g.wf()
    &&& tv_ok(g, root, tv)
    &&& forall|u: usize| #[trigger] nodes.contains(u) <==> tv.seen(u)
    &&& forall|e: (usize, usize)| #[trigger] stack.contains(e) <==> dfs_pending(g, tv, e)
    &&& dfs_sorted(g, tv.ord, stack)
}
pub proof fn lemma_dfs_open_pending(g: GV, root: usize, tv: TV, u: usize, v: usize)
    requires g.wf(), tv_ok(g, root, tv), open_edge(g, tv, u, v),
    ensures dfs_pending(g, tv, (u, v)) || (dfs_pending(g, tv, (v, u)) && tv.idx(u) < tv.idx(v)),
{
    if !dfs_pending(g, tv, (u, v)) {
        assert(g.adj(v, u));
        assert(tv.rep(u, v) == tv.rep(v, u));
    }
}
pub proof fn lemma_dfs_top(g: GV, root: usize, tv: TV, nodes: Set<usize>, stack: Seq<(usize, usize)>)
    requires dfs_inv(g, root, tv, nodes, stack), stack.len() > 0,
    ensures dfs_owes(g, tv, stack.last().0, stack.last().1), dfs_pending(g, tv, stack.last()),
{
    let n = stack.len() - 1;
    let (s, t) = stack[n];
    assert(stack.contains(stack[n]));
    assert forall|u: usize, v: usize| #[trigger] open_edge(g, tv, u, v) implies tv.idx(u) <= tv.idx(s) by {
        lemma_dfs_open_pending(g, root, tv, u, v);
        let e = if dfs_pending(g, tv, (u, v)) { (u, v) } else { (v, u) };
        assert(stack.contains(e));
        let k = choose|k: int| 0 <= k < stack.len() && stack[k] == e;
        if k < n { assert(dfs_after(g, tv.ord, stack[k], stack[n])); }
    }
    assert forall|v: usize| #[trigger] open_edge(g, tv, s, v) implies g.nbrs[s].index_of(t) <= g.nbrs[s].index_of(v) by {
        lemma_dfs_open_pending(g, root, tv, s, v);
        if dfs_pending(g, tv, (v, s)) && tv.idx(s) < tv.idx(v) {
            assert(open_edge(g, tv, v, s));
        }
        let e = (s, v);
        assert(stack.contains(e));
        let k = choose|k: int| 0 <= k < stack.len() && stack[k] == e;
        if k < n { assert(dfs_after(g, tv.ord, stack[k], stack[n])); }
    }
}
pub proof fn lemma_dfs_none(g: GV, root: usize, tv: TV, nodes: Set<usize>, stack: Seq<(usize, usize)>)
    requires dfs_inv(g, root, tv, nodes, stack), stack.len() == 0,
    ensures complete(g, root, tv),
{
    assert forall|u: usize, v: usize| !#[trigger] open_edge(g, tv, u, v) by {
        if open_edge(g, tv, u, v) {
            lemma_dfs_open_pending(g, root, tv, u, v);
            assert(stack.contains((u, v)) || stack.contains((v, u)));
        }
    }
    lemma_complete(g, root, tv);
}
pub proof fn lemma_contains_drop_last<T>(s: Seq<T>)
    requires s.len() > 0,
    ensures
        forall|x: T| #[trigger] s.contains(x) <==> s.drop_last().contains(x) || x == s.last(),
{
    assert(s =~= s.drop_last().push(s.last()));
    lemma_contains_push(s.drop_last(), s.last());
}
/// the top leads to a visited node: it is reported and nothing else changes
pub proof fn lemma_dfs_cut(g: GV, root: usize, tv: TV, nodes: Set<usize>, stack: Seq<(usize, usize)>)
    requires dfs_inv(g, root, tv, nodes, stack), stack.len() > 0, tv.seen(stack.last().1),
    ensures dfs_inv(g, root, tv.step(stack.last().0, stack.last().1), nodes, stack.drop_last()),
{
    let (s, t) = stack.last();
    let n = stack.len() - 1;
    lemma_dfs_top(g, root, tv, nodes, stack);
    lemma_step_ok(g, root, tv, s, t);
    lemma_step_seen(tv, s, t);
    let tw = tv.step(s, t);
    let rest = stack.drop_last();
    lemma_contains_drop_last(stack);
    assert forall|e: (usize, usize)| #[trigger] rest.contains(e) <==> dfs_pending(g, tw, e) by {
        assert(stack.contains(e) <==> dfs_pending(g, tv, e));
        assert(tw.rep(e.0, e.1) <==> tv.rep(e.0, e.1) || same((s, t), e));
        if rest.contains(e) {
            let k = choose|k: int| 0 <= k < rest.len() && rest[k] == e;
            assert(stack[k] == e);
            assert(dfs_after(g, tv.ord, stack[k], stack[n]));
        }
    }
}
/// the state while the neighbors of a newly visited node are stacked: rn lists them last first, p are done
pub open spec fn dfs_mid(g: GV, root: usize, tv: TV, nodes: Set<usize>, cur: Seq<(usize, usize)>, s: usize, t: usize, rn: Seq<usize>, p: int) -> bool {
    &&& g.wf()
    &&& tv_ok(g, root, tv)
    &&& forall|u: usize| #[trigger] nodes.contains(u) <==> tv.seen(u)
    &&& open_edge(g, tv, s, t) && !tv.seen(t)
    &&& forall|e: (usize, usize)| #[trigger] cur.contains(e) <==> dfs_mid_has(g, tv, e, s, t, rn, p)
    &&& dfs_sorted(g, tv.ord.push(t), cur)
}
pub open spec fn dfs_mid_has(g: GV, tv: TV, e: (usize, usize), s: usize, t: usize, rn: Seq<usize>, p: int) -> bool {
    ||| dfs_pending(g, tv, e) && e != (s, t) && !(e.1 == t && rn.subrange(0, p).contains(e.0))
    ||| e.0 == t && e.1 != s && rn.subrange(0, p).contains(e.1)
}
pub proof fn lemma_dfs_mid_start(g: GV, root: usize, tv: TV, nodes: Set<usize>, stack: Seq<(usize, usize)>, rn: Seq<usize>)
    requires dfs_inv(g, root, tv, nodes, stack), stack.len() > 0, !tv.seen(stack.last().1),
    ensures dfs_mid(g, root, tv, nodes, stack.drop_last(), stack.last().0, stack.last().1, rn, 0), g.has(stack.last().1),
{
    let (s, t) = stack.last();
    let n = stack.len() - 1;
    lemma_dfs_top(g, root, tv, nodes, stack);
    lemma_step_ok(g, root, tv, s, t);
    let rest = stack.drop_last();
    lemma_contains_drop_last(stack);
    assert(rn.subrange(0, 0) =~= Seq::empty());
    assert forall|e: (usize, usize)| #[trigger] rest.contains(e) <==> dfs_mid_has(g, tv, e, s, t, rn, 0) by {
        assert(stack.contains(e) <==> dfs_pending(g, tv, e));
        if rest.contains(e) {
            let k = choose|k: int| 0 <= k < rest.len() && rest[k] == e;
            assert(stack[k] == e);
            assert(dfs_after(g, tv.ord, stack[k], stack[n]));
        }
    }
    lemma_index_push(tv.ord, t);
    assert forall|i: int, j: int| 0 <= i < j < rest.len() implies dfs_after(g, tv.ord.push(t), #[trigger] rest[i], #[trigger] rest[j]) by {
        assert(rest.contains(rest[i]) && rest.contains(rest[j]));
        assert(dfs_after(g, tv.ord, stack[i], stack[j]));
    }
}
pub proof fn lemma_subrange_push<T>(s: Seq<T>, p: int)
    requires 0 <= p < s.len(),
    ensures forall|x: T| #[trigger] s.subrange(0, p + 1).contains(x) <==> s.subrange(0, p).contains(x) || x == s[p],
{
    assert(s.subrange(0, p + 1) =~= s.subrange(0, p).push(s[p]));
    lemma_contains_push(s.subrange(0, p), s[p]);
}
pub proof fn lemma_reverse_index(s: Seq<usize>, i: int, j: int)
    requires s.no_duplicates(), 0 <= i < j < s.len(),
    ensures s.index_of(s.reverse()[j]) < s.index_of(s.reverse()[i]),
{
    let r = s.reverse();
    let n = s.len() as int;
    assert(r[i] == s[n - 1 - i] && r[j] == s[n - 1 - j]);
    assert(s.contains(s[n - 1 - i]) && s.contains(s[n - 1 - j]));
}
pub open spec fn drops(cur: Seq<(usize, usize)>, keep: Seq<bool>, x: usize, t: usize) -> bool {
    keep.len() == cur.len() && forall|i: int| 0 <= i < cur.len() ==> keep[i] == (#[trigger] cur[i] != (x, t))
}
proof fn lemma_kept_by<T>(s: Seq<T>, keep: Seq<bool>, q: spec_fn(T) -> bool)
    requires keep.len() == s.len(), forall|i: int| 0 <= i < s.len() ==> keep[i] == q(#[trigger] s[i]),
    ensures kept_by(s, keep) == s.filter(q),
    decreases s.len(),
{
    reveal(Seq::filter);
    if s.len() > 0 {
        assert forall|i: int| 0 <= i < s.len() - 1 implies keep.drop_last()[i] == q(#[trigger] s.drop_last()[i]) by { assert(s[i] == s.drop_last()[i]); }
        lemma_kept_by(s.drop_last(), keep.drop_last(), q);
        assert(keep.last() == q(s[s.len() - 1]));
    }
}
/// one more neighbor: skipped, or stacked after dropping its edge to t
pub proof fn lemma_dfs_mid_step(g: GV, root: usize, tv: TV, nodes: Set<usize>, cur: Seq<(usize, usize)>, next: Seq<(usize, usize)>, kept: Seq<(usize, usize)>, s: usize, t: usize, rn: Seq<usize>, p: int)
    requires
        dfs_mid(g, root, tv, nodes, cur, s, t, rn, p),
        0 <= p < rn.len(), g.has(t), rn == g.nbrs[t].reverse(),
        rn[p] == s ==> next == cur,
        rn[p] != s ==> next == kept.push((t, rn[p])),
        rn[p] != s && !nodes.contains(rn[p]) ==> kept == cur,
        rn[p] != s && nodes.contains(rn[p]) ==> exists|keep: Seq<bool>| drops(cur, keep, rn[p], t) && kept == #[trigger] kept_by(cur, keep),
    ensures dfs_mid(g, root, tv, nodes, next, s, t, rn, p + 1),
{
    let x = rn[p];
    let q = |e: (usize, usize)| e != (x, t);
    if x != s && nodes.contains(x) {
        let keep = choose|keep: Seq<bool>| drops(cur, keep, x, t) && kept == #[trigger] kept_by(cur, keep);
        lemma_kept_by(cur, keep, q);
    }
    lemma_subrange_push(rn, p);
    lemma_seen(tv, s);
    assert(rn[p] == g.nbrs[t][g.nbrs[t].len() - 1 - p]);
    assert(g.adj(t, x));
    assert(g.adj(x, t));
    let ord = tv.ord.push(t);
    lemma_index_push(tv.ord, t);
    assert(!rn.subrange(0, p).contains(x)) by {
        if rn.subrange(0, p).contains(x) {
            let k = choose|k: int| 0 <= k < p && rn.subrange(0, p)[k] == x;
            assert(rn[k] == rn[p]);
            lemma_reverse_index(g.nbrs[t], k, p);
        }
    }
    if x == s {
        assert forall|e: (usize, usize)| #[trigger] next.contains(e) <==> dfs_mid_has(g, tv, e, s, t, rn, p + 1) by {
            assert(cur.contains(e) <==> dfs_mid_has(g, tv, e, s, t, rn, p));
        }
    } else {
        lemma_filter(cur, q);
        assert forall|e: (usize, usize)| #[trigger] kept.contains(e) <==> cur.contains(e) && e != (x, t) by {
            if cur.contains(e) && nodes.contains(x) {
                let k = choose|k: int| 0 <= k < cur.len() && cur[k] == e;
                assert(q(cur[k]) == (cur[k] != (x, t)));
            }
            if !nodes.contains(x) && cur.contains(e) && e == (x, t) {
                assert(dfs_mid_has(g, tv, e, s, t, rn, p));
                assert(e == (x, t));
                assert(!tv.seen(x));
            }
        }
        lemma_contains_push(kept, (t, x));
        assert forall|e: (usize, usize)| #[trigger] next.contains(e) <==> dfs_mid_has(g, tv, e, s, t, rn, p + 1) by {
            assert(cur.contains(e) <==> dfs_mid_has(g, tv, e, s, t, rn, p));
            assert(kept.contains(e) <==> cur.contains(e) && e != (x, t));
            if e == (x, t) && x == t {
                assert(next.contains(e));
            }
        }
        assert forall|i: int, j: int| 0 <= i < j < next.len() implies dfs_after(g, ord, #[trigger] next[i], #[trigger] next[j]) by {
            if j < kept.len() {
                if nodes.contains(x) {
                    lemma_filter_order(cur, q, i, j);
                    let (a, b) = choose|a: int, b: int| 0 <= a < b < cur.len() && #[trigger] cur[a] == kept[i] && #[trigger] cur[b] == kept[j];
                    assert(dfs_after(g, ord, cur[a], cur[b]));
                } else {
                    assert(dfs_after(g, ord, cur[i], cur[j]));
                }
            } else {
                let e = kept[i];
                assert(kept.contains(e));
                assert(cur.contains(e));
                assert(dfs_mid_has(g, tv, e, s, t, rn, p));
                if e.0 == t {
                    assert(!tv.seen(t));
                    let k = choose|k: int| 0 <= k < p && rn.subrange(0, p)[k] == e.1;
                    assert(rn[k] == e.1);
                    lemma_reverse_index(g.nbrs[t], k, p);
                } else {
                    lemma_seen(tv, e.0);
                    assert(ord.index_of(e.0) == tv.idx(e.0));
                }
            }
        }
    }
}
pub proof fn lemma_dfs_mid_end(g: GV, root: usize, tv: TV, nodes: Set<usize>, cur: Seq<(usize, usize)>, s: usize, t: usize, rn: Seq<usize>)
    requires dfs_mid(g, root, tv, nodes, cur, s, t, rn, rn.len() as int), g.has(t), rn == g.nbrs[t].reverse(),
    ensures dfs_inv(g, root, tv.step(s, t), nodes.insert(t), cur),
{
    let tw = tv.step(s, t);
    lemma_step_ok(g, root, tv, s, t);
    lemma_step_seen(tv, s, t);
    assert(rn.subrange(0, rn.len() as int) =~= rn);
    assert forall|x: usize| #[trigger] rn.contains(x) <==> g.adj(t, x) by { crate::mm::lemma_contains_reverse(g.nbrs[t]); }
    assert(tw.ord == tv.ord.push(t));
    assert forall|e: (usize, usize)| #[trigger] cur.contains(e) <==> dfs_pending(g, tw, e) by {
        assert(cur.contains(e) <==> dfs_mid_has(g, tv, e, s, t, rn, rn.len() as int));
        assert(tw.rep(e.0, e.1) <==> tv.rep(e.0, e.1) || same((s, t), e));
        if tv.rep(e.0, e.1) { lemma_rep(g, root, tv, e.0, e.1); }
        if tv.seen(e.0) { lemma_seen(tv, e.0); }
        if tv.seen(e.1) { lemma_seen(tv, e.1); }
        assert(g.adj(e.0, e.1) ==> g.adj(e.1, e.0));
    }
}
pub proof fn lemma_dfs_new(g: GV, root: usize, nodes: Set<usize>, stack: Seq<(usize, usize)>)
    requires
        g.wf(), g.has(root), nodes =~= Set::<usize>::empty().insert(root),
        stack =~= Seq::new(g.nbrs[root].len(), |i: int| (root, g.nbrs[root][i])).reverse(),
    ensures dfs_inv(g, root, TV::start(root), nodes, stack),
{
    let tv = TV::start(root);
    lemma_start(g, root);
    let nb = g.nbrs[root];
    let n = nb.len() as int;
    assert forall|e: (usize, usize)| #[trigger] stack.contains(e) <==> dfs_pending(g, tv, e) by {
        if stack.contains(e) {
            let k = choose|k: int| 0 <= k < stack.len() && stack[k] == e;
            assert(nb[n - 1 - k] == e.1);
        }
        if dfs_pending(g, tv, e) {
            assert(tv.seen(e.0));
            let k = choose|k: int| 0 <= k < nb.len() && nb[k] == e.1;
            assert(stack[n - 1 - k] == e);
        }
    }
    assert forall|i: int, j: int| 0 <= i < j < stack.len() implies dfs_after(g, tv.ord, #[trigger] stack[i], #[trigger] stack[j]) by {
        lemma_reverse_index(nb, i, j);
    }
}
pub proof fn lemma_filter<T>(s: Seq<T>, q: spec_fn(T) -> bool)
    ensures forall|x: T| #[trigger] s.filter(q).contains(x) <==> s.contains(x) && q(x),
{
    s.filter_lemma(q);
    let f = s.filter(q);
    assert forall|x: T| #[trigger] f.contains(x) <==> s.contains(x) && q(x) by {
        if f.contains(x) {
            let i = choose|i: int| 0 <= i < f.len() && f[i] == x;
            lemma_filter_from(s, q, i);
        }
        if s.contains(x) && q(x) {
            let i = choose|i: int| 0 <= i < s.len() && s[i] == x;
            assert(f.contains(s[i]));
        }
    }
}
pub proof fn lemma_filter_from<T>(s: Seq<T>, q: spec_fn(T) -> bool, i: int)
    requires 0 <= i < s.filter(q).len(),
    ensures q(s.filter(q)[i]), s.contains(s.filter(q)[i]),
    decreases s.len(),
{
    reveal(Seq::filter);
    if s.len() > 0 {
        lemma_contains_drop_last(s);
        let d = s.drop_last().filter(q);
        if i < d.len() { lemma_filter_from(s.drop_last(), q, i); assert(s.filter(q)[i] == d[i]); }
    }
}
pub proof fn lemma_filter_order<T>(s: Seq<T>, q: spec_fn(T) -> bool, i: int, j: int)
    requires 0 <= i < j < s.filter(q).len(),
    ensures exists|a: int, b: int| 0 <= a < b < s.len() && #[trigger] s[a] == s.filter(q)[i] && #[trigger] s[b] == s.filter(q)[j],
    decreases s.len(),
{
    reveal(Seq::filter);
    if s.len() > 0 {
        let l = s.drop_last();
        let d = l.filter(q);
        if j < d.len() {
            lemma_filter_order(l, q, i, j);
            let (a, b) = choose|a: int, b: int| 0 <= a < b < l.len() && #[trigger] l[a] == d[i] && #[trigger] l[b] == d[j];
            assert(s[a] == s.filter(q)[i] && s[b] == s.filter(q)[j]);
        } else {
            lemma_filter_from(l, q, i);
            let a = choose|a: int| 0 <= a < l.len() && l[a] == d[i];
            let b = s.len() - 1;
            assert(s[a] == s.filter(q)[i] && s[b] == s.filter(q)[j]);
        }
    }
}

// ================================================================== runs

pub open spec fn tv_of(root: usize, h: Seq<(usize, usize)>) -> TV
    decreases h.len()
{
    if h.len() == 0 { TV::start(root) } else { tv_of(root, h.drop_last()).step(h.last().0, h.last().1) }
}
/// h is the sequence of steps, from the start, that a depth-first traversal owes
pub open spec fn dfs_run(g: GV, root: usize, h: Seq<(usize, usize)>) -> bool
    decreases h.len()
{
    h.len() > 0 ==> dfs_run(g, root, h.drop_last()) && dfs_owes(g, tv_of(root, h.drop_last()), h.last().0, h.last().1)
}
pub proof fn lemma_run_push(g: GV, root: usize, h: Seq<(usize, usize)>, s: usize, t: usize)
    ensures
        tv_of(root, h.push((s, t))) == tv_of(root, h).step(s, t),
        dfs_run(g, root, h) && dfs_owes(g, tv_of(root, h), s, t) ==> dfs_run(g, root, h.push((s, t))),
{
    assert(h.push((s, t)).drop_last() =~= h);
}
pub proof fn lemma_tv_hist(root: usize, h: Seq<(usize, usize)>)
    ensures tv_of(root, h).hist == h,
    decreases h.len(),
{
    if h.len() > 0 {
        lemma_tv_hist(root, h.drop_last());
        assert(h =~= h.drop_last().push(h.last()));
    } else {
        assert(h =~= Seq::empty());
    }
}

/// the nodes a table lists after the steps h: none before the first step
pub open spec fn listed_nodes(root: usize, h: Seq<(usize, usize)>) -> Seq<usize> {
    if h.len() == 0 { Seq::empty() } else { tv_of(root, h).ord }
}
/// what collecting a depth-first traversal from its start yields
pub open spec fn dfs_table(g: GV, root: usize, nodes: Seq<usize>, edges: Seq<(usize, usize)>) -> bool {
    dfs_run(g, root, edges) && complete(g, root, tv_of(root, edges)) && nodes == listed_nodes(root, edges)
}
pub proof fn lemma_listed_nodes(g: GV, root: usize, h: Seq<(usize, usize)>, s: usize, t: usize)
    requires g.wf(), tv_ok(g, root, tv_of(root, h)), dfs_owes(g, tv_of(root, h), s, t),
    ensures
        listed_nodes(root, h.push((s, t))) == {
            let a = if h.len() == 0 { seq![s] } else { listed_nodes(root, h) };
            if tv_of(root, h).seen(t) { a } else { a.push(t) }
        },
        h.len() == 0 ==> s == root,
{
    lemma_run_push(g, root, h, s, t);
    if h.len() == 0 {
        let tv = tv_of(root, h);
        assert(tv.seen(s));
        lemma_seen(tv, s);
        assert(tv.ord =~= seq![s]);
    }
}

/// the next step fits the graph c built from the steps so far
pub open spec fn table_next(root: usize, c: GV, s: usize, t: usize, cut: bool) -> bool {
    let a = if c.edges.len() == 0 { seq![s] } else { c.nodes };
    &&& listed_nodes(root, c.edges.push((s, t))) == (if cut { a } else { a.push(t) })
    &&& a.contains(s)
    &&& cut == a.contains(t)
    &&& (c.edges.len() > 0) == (c.nodes.len() > 0)
    &&& !listed(c.edges, s, t)
}
pub proof fn lemma_table_next(g: GV, root: usize, c: GV, s: usize, t: usize)
    requires
        g.wf(), tv_ok(g, root, tv_of(root, c.edges)), dfs_owes(g, tv_of(root, c.edges), s, t), c.nodes == listed_nodes(root, c.edges),
    ensures table_next(root, c, s, t, tv_of(root, c.edges).seen(t)),
{
    let tv = tv_of(root, c.edges);
    lemma_listed_nodes(g, root, c.edges, s, t);
    lemma_tv_hist(root, c.edges);
    assert(tv.seen(s));
    let a = if c.edges.len() == 0 { seq![s] } else { c.nodes };
    if c.edges.len() == 0 { assert(tv.ord =~= seq![s]); }
    assert(a == tv.ord);
}

} // verus!
}
