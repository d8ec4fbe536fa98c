pub mod sl {
#[allow(unused_imports)] use vstd::prelude::*;
#[allow(unused_imports)] use crate::vx::*;
#[allow(unused_imports)] use crate::th::*;
#[allow(unused_imports)] use crate::tr::*;
verus! {

// ================================================================== connected components

/// c is one connected component of g, with all its edges
pub open spec fn comp_of(g: GV, c: GV) -> bool {
    &&& c.wf() && c.nodes.len() > 0
    &&& forall|x: usize| #[trigger] c.has(x) ==> g.has(x)
    &&& forall|u: usize, v: usize| #[trigger] c.adj(u, v) <==> g.adj(u, v) && c.has(u)
    // cut off from the rest, and in one piece
    &&& forall|x: usize, y: usize| c.has(x) ==> (#[trigger] reach(g, x, y) <==> c.has(y))
    &&& forall|x: usize, y: usize| c.has(x) && c.has(y) ==> #[trigger] reach(c, x, y)
}
pub open spec fn covered(done: Seq<GV>, x: usize) -> bool { exists|i: int| 0 <= i < done.len() && (#[trigger] done[i]).has(x) }
pub open spec fn apart(a: GV, b: GV) -> bool { forall|x: usize| a.has(x) ==> !#[trigger] b.has(x) }
/// the components reported so far: each whole, no two with a common node
pub open spec fn partial(g: GV, done: Seq<GV>) -> bool {
    &&& forall|i: int| 0 <= i < done.len() ==> comp_of(g, #[trigger] done[i])
    &&& forall|i: int, j: int| 0 <= i < j < done.len() ==> apart(#[trigger] done[i], #[trigger] done[j])
}
/// the components partition the graph: nodes and edges
pub open spec fn partition(g: GV, done: Seq<GV>) -> bool {
    &&& partial(g, done)
    &&& forall|x: usize| #[trigger] g.has(x) ==> covered(done, x)
    &&& forall|u: usize, v: usize| #[trigger] g.adj(u, v) ==> exists|i: int| 0 <= i < done.len() && (#[trigger] done[i]).adj(u, v)
}
pub open spec fn comps_inv(g: GV, done: Seq<GV>, visited: Set<usize>, all: Seq<usize>, pos: int) -> bool {
    &&& g.wf() && all == g.nodes && 0 <= pos <= all.len()
    &&& partial(g, done)
    &&& forall|x: usize| #[trigger] visited.contains(x) <==> covered(done, x)
    &&& forall|k: int| 0 <= k < pos ==> covered(done, #[trigger] all[k])
}
pub proof fn lemma_partition(g: GV, done: Seq<GV>, visited: Set<usize>, all: Seq<usize>, pos: int)
    requires comps_inv(g, done, visited, all, pos), pos == all.len(),
    ensures partition(g, done),
{
    assert forall|x: usize| #[trigger] g.has(x) implies covered(done, x) by {
        assert(g.nodes.contains(x));
        let k = choose|k: int| 0 <= k < g.nodes.len() && g.nodes[k] == x;
        assert(covered(done, all[k]));
    }
    assert forall|u: usize, v: usize| #[trigger] g.adj(u, v) implies exists|i: int| 0 <= i < done.len() && (#[trigger] done[i]).adj(u, v) by {
        assert(g.has(u));
        assert(covered(done, u));
        let i = choose|i: int| 0 <= i < done.len() && (#[trigger] done[i]).has(u);
        assert(comp_of(g, done[i]));
        assert(done[i].adj(u, v));
    }
}
proof fn lemma_walk_inside(g: GV, c: GV, x: usize, y: usize, n: nat)
    requires
        c.has(x), walk(g, x, y, n),
        forall|u: usize, v: usize| #[trigger] c.adj(u, v) <==> g.adj(u, v) && c.has(u),
        c.wf(),
    ensures reach(c, x, y), c.has(y),
    decreases n,
{
    if n == 0 { lemma_reach_self(c, x); } else {
        let d = choose|d: usize| walk(g, x, d, (n - 1) as nat) && #[trigger] g.adj(d, y);
        lemma_walk_inside(g, c, x, d, (n - 1) as nat);
        assert(c.adj(d, y));
        lemma_reach_step(c, x, d, y);
    }
}
/// what the traversal from root collects is the component of root
pub proof fn lemma_component(g: GV, root: usize, t: GV, c: GV)
    requires
        g.wf(), g.has(root), dfs_table(g, root, t.nodes, t.edges), c.wf(),
        t.nodes.len() == 0 ==> c == GV::empty().with_node(root),
        t.nodes.len() > 0 ==> c.nodes == t.nodes && c.edges == t.edges,
    ensures comp_of(g, c), forall|x: usize| #[trigger] c.has(x) <==> reach(g, root, x), c.has(root),
{
    let tv = tv_of(root, t.edges);
    lemma_tv_hist(root, t.edges);
    if t.edges.len() > 0 && t.nodes.len() == 0 {
        // visited nodes include the root
        lemma_reach_self(g, root);
        assert(tv.seen(root));
        assert(t.nodes == tv.ord);
    }
    if t.nodes.len() == 0 {
        assert(t.edges.len() == 0);
        assert(t.edges =~= Seq::empty());
        assert(tv == TV::start(root));
        assert(c.nodes =~= seq![root]);
        assert(c.edges.len() == 0);
    } else {
        assert(t.edges.len() > 0);
        assert(c.nodes == tv.ord);
    }
    assert forall|x: usize| #[trigger] c.has(x) <==> reach(g, root, x) by {
        assert(c.nodes.contains(x) <==> c.has(x));
        assert(tv.seen(x) <==> reach(g, root, x));
        assert(tv.ord.contains(x) <==> c.nodes.contains(x)) by {
            if t.nodes.len() == 0 { assert(tv.ord =~= seq![root]); }
        }
    }
    assert forall|u: usize, v: usize| #[trigger] c.adj(u, v) <==> g.adj(u, v) && c.has(u) by {
        assert(tv.rep(u, v) <==> g.adj(u, v) && reach(g, root, u));
        lemma_listed_adj(c, u, v);
        if t.nodes.len() == 0 { assert(!listed(c.edges, u, v)); assert(!listed(tv.hist, u, v)); }
    }
    assert forall|x: usize| #[trigger] c.has(x) implies g.has(x) by {
        let n = choose|n: nat| #[trigger] walk(g, root, x, n);
        lemma_walk_has(g, root, x, n);
    }
    assert forall|x: usize, y: usize| c.has(x) implies (#[trigger] reach(g, x, y) <==> c.has(y)) by {
        if reach(g, x, y) { lemma_reach_trans(g, root, x, y); }
        if c.has(y) { lemma_reach_sym(g, root, x); lemma_reach_trans(g, x, root, y); }
    }
    assert forall|x: usize, y: usize| c.has(x) && c.has(y) implies #[trigger] reach(c, x, y) by {
        assert(reach(g, x, y));
        let n = choose|n: nat| #[trigger] walk(g, x, y, n);
        lemma_walk_inside(g, c, x, y, n);
    }
    lemma_reach_self(g, root);
}
pub proof fn lemma_covered_push(done: Seq<GV>, c: GV, x: usize)
    ensures covered(done.push(c), x) <==> covered(done, x) || c.has(x),
{
    let d = done.push(c);
    if covered(done, x) {
        let i = choose|i: int| 0 <= i < done.len() && (#[trigger] done[i]).has(x);
        assert(d[i].has(x));
    }
    if c.has(x) { assert(d[done.len() as int].has(x)); }
    if covered(d, x) {
        let i = choose|i: int| 0 <= i < d.len() && (#[trigger] d[i]).has(x);
        if i < done.len() { assert(done[i].has(x)); }
    }
}
pub proof fn lemma_comps_push(g: GV, done: Seq<GV>, v0: Set<usize>, v1: Set<usize>, all: Seq<usize>, p0: int, p1: int, c: GV, root: usize)
    requires
        comps_inv(g, done, v0, all, p0),
        p0 < p1 <= all.len(), all[p1 - 1] == root, !v0.contains(root),
        forall|k: int| p0 <= k < p1 - 1 ==> v0.contains(#[trigger] all[k]),
        comp_of(g, c), c.has(root),
        forall|x: usize| #[trigger] v1.contains(x) <==> v0.contains(x) || c.has(x),
    ensures comps_inv(g, done.push(c), v1, all, p1),
{
    let d = done.push(c);
    assert forall|x: usize| #[trigger] v1.contains(x) <==> covered(d, x) by { lemma_covered_push(done, c, x); assert(v0.contains(x) <==> covered(done, x)); }
    assert forall|k: int| 0 <= k < p1 implies covered(d, #[trigger] all[k]) by {
        lemma_covered_push(done, c, all[k]);
        if k >= p0 && k < p1 - 1 { assert(v0.contains(all[k])); }
    }
    assert forall|i: int| 0 <= i < d.len() implies comp_of(g, #[trigger] d[i]) by {
        if i < done.len() { assert(comp_of(g, done[i])); }
    }
    assert forall|i: int, j: int| 0 <= i < j < d.len() implies apart(#[trigger] d[i], #[trigger] d[j]) by {
        if j < done.len() { assert(apart(done[i], done[j])); }
        else {
            assert(comp_of(g, done[i]));
            assert forall|x: usize| done[i].has(x) implies !#[trigger] c.has(x) by {
                if c.has(x) {
                    assert(reach(g, root, x));
                    lemma_reach_sym(g, root, x);
                    assert(done[i].has(root));
                    assert(covered(done, root));
                }
            }
        }
    }
}

} // verus!
}
