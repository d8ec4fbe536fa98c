// The properties, once more, as postconditions of clients that use the crate through its contracts only:
// each states a property over what calls return, without reference to how the crate works.
pub mod cl {
#[allow(unused_imports)] use vstd::prelude::*;
#[allow(unused_imports)] use crate::vx::*;
#[allow(unused_imports)] use crate::th::*;
#[allow(unused_imports)] use crate::tr::*;
#[allow(unused_imports)] use crate::bf::*;
#[allow(unused_imports)] use crate::sl::*;
#[allow(unused_imports)] use crate::mt::*;
#[allow(unused_imports)] use crate::mm::*;
#[allow(unused_imports)] use crate::graph::{Graph, DefaultGraph, Error};
#[allow(unused_imports)] use crate::traversal::{DepthFirst, BreadthFirst, Step};
#[allow(unused_imports)] use crate::selection::components;
#[allow(unused_imports)] use crate::matching::{greedy, maximum_matching, Pairing};
verus! {

// ================================================================== graphs

pub struct GraphAnswers {
    pub nodes: Vec<usize>, pub edges: Vec<(usize, usize)>, pub order: usize, pub size: usize, pub empty: bool,
    pub has_u: bool, pub has_v: bool, pub nbrs_u: Result<Vec<usize>, Error>, pub nbrs_v: Result<Vec<usize>, Error>,
    pub degree_u: Result<usize, Error>, pub joined_uv: Result<bool, Error>, pub joined_vu: Result<bool, Error>,
}
/// the answers about u and v fit one simple undirected graph
pub open spec fn agree(a: GraphAnswers, u: usize, v: usize) -> bool {
    &&& a.nodes@.no_duplicates() && a.order == a.nodes@.len() && a.empty == (a.order == 0)
    &&& pairs_distinct(a.edges@) && a.size == a.edges@.len()
    &&& a.has_u == a.nodes@.contains(u) && a.has_v == a.nodes@.contains(v)
    &&& match a.nbrs_u {
        Ok(n) => a.has_u && n@.no_duplicates() && a.degree_u == Ok::<usize, Error>(n@.len() as usize) && n@.len() <= usize::MAX
            && (forall|x: usize| #[trigger] n@.contains(x) <==> listed(a.edges@, u, x))
            && (forall|x: usize| #[trigger] n@.contains(x) ==> a.nodes@.contains(x)),
        Err(e) => !a.has_u && e == Error::MissingNode(u) && a.degree_u == Err::<usize, Error>(Error::MissingNode(u)),
    }
    &&& match a.joined_uv {
        Ok(b) => a.has_u && a.has_v && (b <==> a.nbrs_u->Ok_0@.contains(v)) && (b <==> a.nbrs_v->Ok_0@.contains(u)) && (b <==> listed(a.edges@, u, v)),
        Err(e) => e == if !a.has_u { Error::MissingNode(u) } else { Error::MissingNode(v) },
    }
    &&& a.has_u && a.has_v <==> a.joined_uv is Ok
    &&& a.joined_uv is Ok ==> a.joined_vu == a.joined_uv
}
/// all queries of a graph describe one simple undirected graph; queries about absent nodes fail cleanly
pub fn p_g01_g06(g: &DefaultGraph, u: usize, v: usize) -> (a: GraphAnswers)
    requires g.inv()
    ensures
        agree(a, u, v),
        a.nodes@ == g.gv().nodes, a.edges@ == g.gv().edges, a.nbrs_u is Ok ==> a.nbrs_u->Ok_0@ == g.gv().nbrs[u],
{
    let it = g.nodes();
    assert(it.rest() =~= it.all());
    let nodes: Vec<usize> = it.collect();
    let it = g.edges();
    assert(it.rest() =~= it.all());
    let edges: Vec<(usize, usize)> = it.collect();
    let nbrs_u: Result<Vec<usize>, Error> = match g.neighbors(u) { Ok(it) => { assert(it.rest() =~= it.all()); Ok(it.collect()) } Err(e) => Err(e) };
    let nbrs_v: Result<Vec<usize>, Error> = match g.neighbors(v) { Ok(it) => { assert(it.rest() =~= it.all()); Ok(it.collect()) } Err(e) => Err(e) };
    let a = GraphAnswers {
        nodes, edges, order: g.order(), size: g.size(), empty: g.is_empty(), has_u: g.has_node(u), has_v: g.has_node(v), nbrs_u, nbrs_v,
        degree_u: g.degree(u), joined_uv: g.has_edge(u, v), joined_vu: g.has_edge(v, u),
    };
    proof {
        let h = g.gv();
        assert(h.nodes.contains(u) <==> h.has(u));
        assert(h.nodes.contains(v) <==> h.has(v));
        assert forall|s: usize, t: usize| #[trigger] listed(h.edges, s, t) implies h.adj(s, t) && h.adj(t, s) by {
            let e = if h.edges.contains((s, t)) { (s, t) } else { (t, s) };
            let i = choose|i: int| 0 <= i < h.edges.len() && h.edges[i] == e;
            assert(h.adj(h.edges[i].0, h.edges[i].1));
        }
        assert(h.adj(u, v) <==> h.adj(v, u)) by { if h.adj(u, v) {} if h.adj(v, u) {} }
        assert forall|s: usize, t: usize| #[trigger] h.adj(s, t) implies listed(h.edges, s, t) && h.nodes.contains(t) by { assert(h.adj(t, s)); }
        if a.nbrs_u is Ok {
            let n = a.nbrs_u->Ok_0@;
            assert forall|x: usize| #[trigger] n.contains(x) <==> listed(a.edges@, u, x) by { assert(n.contains(x) <==> h.adj(u, x)); }
            assert forall|x: usize| #[trigger] n.contains(x) implies a.nodes@.contains(x) by { assert(h.adj(u, x)); }
        }
    }
    a
}
pub enum Change { Node(usize), Edge(usize, usize) }
/// the graph after a change, successful or rejected
pub open spec fn changed(g: GV, c: Change) -> GV {
    match c {
        Change::Node(u) => if g.has(u) { g } else { g.with_node(u) },
        Change::Edge(u, v) => if g.has(u) && g.has(v) && !g.adj(u, v) { g.with_edge(u, v) } else { g },
    }
}
pub open spec fn changed_by(g: GV, cs: Seq<Change>, n: int) -> GV
    decreases n
{
    if n <= 0 { g } else { changed(changed_by(g, cs, n - 1), cs[n - 1]) }
}
pub enum Origin { Nothing, Rows(Vec<Vec<usize>>), Pairs(Vec<(usize, usize)>) }
/// what a graph is when it has just been made
pub open spec fn made(o: Origin, g: GV) -> bool {
    match o {
        Origin::Nothing => g == GV::empty(),
        Origin::Rows(rows) => of_rows(rows_of(rows@), g),
        Origin::Pairs(pairs) => g == from_pairs(pairs@, pairs@.len() as int),
    }
}
/// however a graph came about and whatever was added to it, its invariant holds and it is the graph those steps describe
pub fn p_g01_g02_history(o: Origin, cs: &Vec<Change>) -> (r: Result<DefaultGraph, Error>)
    ensures match r {
        Ok(g) => g.inv() && exists|g0: GV| #[trigger] made(o, g0) && g0.wf() && g.gv() == changed_by(g0, cs@, cs@.len() as int),
        Err(e) => !(o is Nothing),
    }
{
    let ghost o0 = o;
    let mut g = match o {
        Origin::Nothing => DefaultGraph::new(),
        Origin::Rows(rows) => match VxTryFrom::vx_try_from(rows) { Ok(g) => g, Err(e) => { return Err(e); } },
        Origin::Pairs(pairs) => match VxTryFrom::vx_try_from(pairs) { Ok(g) => g, Err(e) => { return Err(e); } },
    };
    let ghost g0 = g.gv();
    assert(made(o0, g0));
    let mut i = 0;
    while i < cs.len()
        invariant made(o0, g0), g0.wf(), 0 <= i <= cs@.len(), g.inv(), g.gv() == changed_by(g0, cs@, i as int),
        decreases cs@.len() - i
    {
        match &cs[i] {
            Change::Node(u) => { let _ = g.add_node(*u); }
            Change::Edge(u, v) => { let _ = g.add_edge(*u, *v); }
        }
        i = i + 1;
    }
    Ok(g)
}

/// an entry of an adjacency list that is at fault, with the error that says so
pub open spec fn at_fault(rows: Seq<Seq<usize>>, u: int, j: int, e: Error) -> bool {
    let x = rows[u][j];
    &&& 0 <= u < rows.len() && 0 <= j < rows[u].len()
    &&& match e {
        Error::MissingNode(v) => v == x && x >= rows.len(),
        Error::DuplicateEdge(a, v) => a == u && v == x && exists|k: int| 0 <= k < rows[u].len() && k != j && rows[u][k] == x,
        Error::MissingEdge(v, a) => a == u && v == x && x < rows.len() && !rows[x as int].contains(u as usize),
        Error::DuplicateNode(v) => false,
    }
}
pub open spec fn valid_rows(rows: Seq<Seq<usize>>) -> bool {
    &&& forall|u: int, j: int| 0 <= u < rows.len() && 0 <= j < rows[u].len() ==> (#[trigger] rows[u][j]) < rows.len()
    &&& forall|u: int| 0 <= u < rows.len() ==> (#[trigger] rows[u]).no_duplicates()
    &&& forall|u: usize, v: usize| u < rows.len() && v < rows.len() && (#[trigger] joins(rows, u, v)) ==> joins(rows, v, u)
}
pub open spec fn joins(rows: Seq<Seq<usize>>, u: usize, v: usize) -> bool { rows[u as int].contains(v) }
/// an adjacency list is accepted exactly when it is valid, and then read as it stands; otherwise the error names a fault
pub fn p_g03(rows: Vec<Vec<usize>>, u: usize) -> (r: Result<GraphAnswers, Error>)
    ensures
        r is Ok <==> valid_rows(rows_of(rows@)),
        match r {
            Ok(a) => {
                &&& a.nodes@ == Seq::new(rows@.len(), |i: int| i as usize)
                &&& u < rows@.len() ==> a.nbrs_u is Ok && a.nbrs_u->Ok_0@ == rows@[u as int]@
                &&& pairs_distinct(a.edges@)
                &&& forall|i: int| 0 <= i < a.edges@.len() ==> (#[trigger] a.edges@[i]).0 <= a.edges@[i].1
                &&& forall|s: usize, t: usize| #[trigger] listed(a.edges@, s, t) <==> s < rows@.len() && joins(rows_of(rows@), s, t)
            }
            Err(e) => exists|i: int, j: int| #[trigger] at_fault(rows_of(rows@), i, j, e),
        }
{
    let ghost rs = rows_of(rows@);
    proof { assert(rows.len() == rows@.len()); }
    match <DefaultGraph as VxTryFrom<Vec<Vec<usize>>>>::vx_try_from(rows) {
        Ok(g) => {
            proof {
                let h = g.gv();
                assert forall|i: int, j: int| 0 <= i < rs.len() && 0 <= j < rs[i].len() implies (#[trigger] rs[i][j]) < rs.len() by { assert(entry_ok(rs, i, j)); }
                assert forall|i: int| 0 <= i < rs.len() implies (#[trigger] rs[i]).no_duplicates() by { assert(h.nbrs.contains_key(i as usize)); }
                assert forall|s: usize, t: usize| s < rs.len() && t < rs.len() && (#[trigger] joins(rs, s, t)) implies joins(rs, t, s) by {
                    assert(h.nbrs.contains_key(s) && h.nbrs.contains_key(t));
                    assert(h.adj(s, t)); assert(h.adj(t, s));
                }
                assert forall|s: usize, t: usize| #[trigger] listed(h.edges, s, t) <==> s < rs.len() && joins(rs, s, t) by {
                    if listed(h.edges, s, t) {
                        let e = if h.edges.contains((s, t)) { (s, t) } else { (t, s) };
                        let i = choose|i: int| 0 <= i < h.edges.len() && h.edges[i] == e;
                        assert(h.adj(h.edges[i].0, h.edges[i].1));
                        assert(h.adj(e.1, e.0));
                        assert(h.nodes.contains(s));
                        let k = choose|k: int| 0 <= k < h.nodes.len() && h.nodes[k] == s;
                        assert(h.nbrs.contains_key(s));
                    }
                    if s < rs.len() && joins(rs, s, t) { assert(h.nbrs.contains_key(s)); assert(h.adj(s, t)); }
                }
                if u < rs.len() { assert(h.nbrs.contains_key(u)); assert(h.nbrs[u] == rs[u as int]); }
            }
            Ok(p_g01_g06(&g, u, u))
        }
        Err(e) => {
            proof {
                let (i, j) = choose|i: int, j: int| 0 <= i < rs.len() && 0 <= j < rs[i].len() && !#[trigger] entry_ok(rs, i, j) && blames(rs, i, j, e);
                assert(at_fault(rs, i, j, e));
                if valid_rows(rs) {
                    let x = rs[i][j];
                    assert(x < rs.len());
                    assert(rs[i].no_duplicates());
                    assert(joins(rs, i as usize, x));
                    assert(joins(rs, x, i as usize));
                }
            }
            Err(e)
        }
    }
}
/// the ends of the pairs, pair by pair, each where it first appears
pub open spec fn ends(s: Seq<(usize, usize)>, n: int) -> Seq<usize>
    decreases n
{
    if n <= 0 { Seq::empty() } else { with_new(with_new(ends(s, n - 1), s[n - 1].0), s[n - 1].1) }
}
pub open spec fn with_new(s: Seq<usize>, x: usize) -> Seq<usize> { if s.contains(x) { s } else { s.push(x) } }
/// the other ends of the pairs that u is an end of, in their order
pub open spec fn mates_of(s: Seq<(usize, usize)>, u: usize, n: int) -> Seq<usize>
    decreases n
{
    if n <= 0 { Seq::empty() }
    else if s[n - 1].0 == u { mates_of(s, u, n - 1).push(s[n - 1].1) }
    else if s[n - 1].1 == u { mates_of(s, u, n - 1).push(s[n - 1].0) }
    else { mates_of(s, u, n - 1) }
}
pub proof fn lemma_ends(s: Seq<(usize, usize)>, n: int)
    requires 0 <= n <= s.len(),
    ensures
        from_pairs(s, n).nodes == ends(s, n),
        forall|u: usize| #[trigger] from_pairs(s, n).has(u) <==> ends(s, n).contains(u),
        forall|u: usize| #[trigger] from_pairs(s, n).has(u) ==> from_pairs(s, n).nbrs[u] == mates_of(s, u, n),
        forall|u: usize| !#[trigger] from_pairs(s, n).has(u) ==> mates_of(s, u, n).len() == 0,
    decreases n,
{
    if n > 0 {
        lemma_ends(s, n - 1);
        let (a, b) = s[n - 1];
        let p = from_pairs(s, n - 1);
        let q = ensure_node(p, a);
        let e = ends(s, n - 1);
        lemma_contains_push(e, a);
        lemma_contains_push(with_new(e, a), b);
        assert(q.nodes == with_new(e, a));
        assert forall|u: usize| #[trigger] q.has(u) <==> with_new(e, a).contains(u) by { assert(p.has(u) <==> e.contains(u)); }
        let w = ensure_node(q, b);
        assert forall|u: usize| #[trigger] w.has(u) <==> ends(s, n).contains(u) by { assert(q.has(u) <==> with_new(e, a).contains(u)); }
        assert forall|u: usize| #[trigger] from_pairs(s, n).has(u) <==> ends(s, n).contains(u) by { assert(w.has(u) <==> ends(s, n).contains(u)); assert(w.has(a) && w.has(b)); }
        assert forall|u: usize| #[trigger] from_pairs(s, n).has(u) implies from_pairs(s, n).nbrs[u] == mates_of(s, u, n) by {
            assert(p.has(u) || u == a || u == b);
            if !p.has(u) { assert(mates_of(s, u, n - 1) =~= Seq::empty()); }
            assert(w.nbrs[u] == mates_of(s, u, n - 1));
        }
        assert forall|u: usize| !#[trigger] from_pairs(s, n).has(u) implies mates_of(s, u, n).len() == 0 by { assert(!p.has(u)); }
    }
}
/// an edge list is accepted exactly when no pair repeats an earlier one; the graph has the ends in order of first appearance and
/// everything else in the order of the pairs
pub fn p_g04(pairs: Vec<(usize, usize)>, u: usize) -> (r: Result<GraphAnswers, Error>)
    ensures
        r is Ok <==> pairs_distinct(pairs@),
        match r {
            Ok(a) => {
                &&& a.nodes@ == ends(pairs@, pairs@.len() as int)
                &&& a.edges@ == pairs@
                &&& a.has_u ==> a.nbrs_u is Ok && a.nbrs_u->Ok_0@ == mates_of(pairs@, u, pairs@.len() as int)
            }
            Err(e) => exists|n: int| #[trigger] repeats(pairs@, n) && e == Error::DuplicateEdge(pairs@[n].0, pairs@[n].1)
                && pairs_distinct(pairs@.subrange(0, n)),
        }
{
    let ghost ps = pairs@;
    match <DefaultGraph as VxTryFrom<Vec<(usize, usize)>>>::vx_try_from(pairs) {
        Ok(g) => {
            proof {
                let n = ps.len() as int;
                assert forall|i: int, j: int| 0 <= i < j < n implies !same(#[trigger] ps[i], #[trigger] ps[j]) by { assert(!repeats(ps, j)); }
                lemma_from_pairs(ps, n);
                assert(ps.subrange(0, n) =~= ps);
                lemma_ends(ps, n);
            }
            let a = p_g01_g06(&g, u, u);
            proof {
                assert(a.edges@ == ps);
                assert(a.nodes@ == ends(ps, ps.len() as int));
                if a.has_u { assert(g.gv().has(u)); }
                assert(pairs_distinct(ps));
            }
            Ok(a)
        }
        Err(e) => {
            proof {
                let n = choose|n: int| #[trigger] repeats(ps, n) && e == Error::DuplicateEdge(ps[n].0, ps[n].1)
                    && forall|m: int| 0 <= m < n ==> !#[trigger] repeats(ps, m);
                let q = ps.subrange(0, n);
                assert forall|i: int, j: int| 0 <= i < j < q.len() implies !same(#[trigger] q[i], #[trigger] q[j]) by { assert(!repeats(ps, j)); assert(q[i] == ps[i] && q[j] == ps[j]); }
                let i = choose|i: int| 0 <= i < n && same(#[trigger] ps[i], ps[n]);
                assert(same(ps[i], ps[n]));
            }
            Err(e)
        }
    }
}
/// graphs compare equal exactly when they answer alike which nodes there are and which of them are joined
pub fn p_g05(g: &DefaultGraph, h: &DefaultGraph) -> (r: (bool, GraphAnswers, GraphAnswers))
    requires g.inv(), h.inv()
    ensures
        r.0 <==> {
            &&& forall|u: usize| r.1.nodes@.contains(u) <==> r.2.nodes@.contains(u)
            &&& forall|u: usize, v: usize| #[trigger] listed(r.1.edges@, u, v) <==> listed(r.2.edges@, u, v)
        }
{
    let (a, b) = (p_g01_g06(g, 0, 0), p_g01_g06(h, 0, 0));
    proof { lemma_lists_are_graph(g.gv()); lemma_lists_are_graph(h.gv()); 
        let (x, y) = (g.gv(), h.gv());
        if x.same_graph(y) {
            assert forall|u: usize, v: usize| #[trigger] listed(x.edges, u, v) <==> listed(y.edges, u, v) by { assert(x.adj(u, v) <==> y.adj(u, v)); }
            assert forall|u: usize| x.nodes.contains(u) <==> y.nodes.contains(u) by { assert(x.has(u) <==> y.has(u)); }
        }
        if (forall|u: usize| x.nodes.contains(u) <==> y.nodes.contains(u)) && (forall|u: usize, v: usize| #[trigger] listed(x.edges, u, v) <==> listed(y.edges, u, v)) {
            assert forall|u: usize, v: usize| x.adj(u, v) <==> y.adj(u, v) by { assert(listed(x.edges, u, v) <==> listed(y.edges, u, v)); }
            assert forall|u: usize| x.has(u) <==> y.has(u) by { assert(x.nodes.contains(u) <==> y.nodes.contains(u)); }
        }
    }
    (g.eq(h), a, b)
}
pub proof fn lemma_lists_are_graph(g: GV)
    requires g.wf(),
    ensures forall|u: usize, v: usize| #[trigger] listed(g.edges, u, v) <==> g.adj(u, v),
{
    assert forall|u: usize, v: usize| #[trigger] listed(g.edges, u, v) <==> g.adj(u, v) by {
        if listed(g.edges, u, v) {
            let e = if g.edges.contains((u, v)) { (u, v) } else { (v, u) };
            let i = choose|i: int| 0 <= i < g.edges.len() && g.edges[i] == e;
            assert(g.adj(g.edges[i].0, g.edges[i].1));
            assert(g.adj(e.1, e.0));
        }
    }
}

// ================================================================== traversals

pub open spec fn edges_of(v: Seq<Step>) -> Seq<(usize, usize)> { v.map_values(|s: Step| (s.sid, s.tid)) }
/// x is the root or the target of one of the first n steps
pub open spec fn visited(root: usize, v: Seq<Step>, n: int, x: usize) -> bool {
    x == root || exists|j: int| 0 <= j < n && (#[trigger] v[j]).tid == x
}
/// step i leaves from a visited node, and is cut exactly if its target was visited
pub open spec fn step_fine(root: usize, v: Seq<Step>, i: int) -> bool {
    visited(root, v, i, v[i].sid) && (v[i].cut <==> visited(root, v, i, v[i].tid))
}
pub open spec fn reached_at(v: Seq<Step>, x: usize, i: int) -> bool { 0 <= i < v.len() && v[i].tid == x && !v[i].cut }
pub open spec fn reached_once(v: Seq<Step>, x: usize) -> bool {
    exists|i: int| #[trigger] reached_at(v, x, i) && forall|j: int| #[trigger] reached_at(v, x, j) ==> j == i
}
/// the steps so far are fine
pub open spec fn steps_fine(root: usize, v: Seq<Step>) -> bool {
    &&& pairs_distinct(edges_of(v))
    &&& forall|i: int| 0 <= i < v.len() ==> #[trigger] step_fine(root, v, i)
    &&& forall|x: usize| x != root && visited(root, v, v.len() as int, x) ==> #[trigger] reached_once(v, x)
    &&& forall|i: int| 0 <= i < v.len() && (#[trigger] v[i]).tid == root ==> v[i].cut
}
/// every edge of the root's component once and no other; every node but the root reached by exactly one uncut step
pub open spec fn covers(g: GV, root: usize, v: Seq<Step>) -> bool {
    &&& steps_fine(root, v)
    &&& forall|u: usize, w: usize| #[trigger] listed(edges_of(v), u, w) <==> g.adj(u, w) && reach(g, root, u)
    &&& forall|x: usize| x != root ==> (reach(g, root, x) <==> #[trigger] reached_once(v, x))
}
/// every step is the one owed: from the most recently visited node with an unreported edge, along the first such edge
pub open spec fn depth_first(g: GV, root: usize, v: Seq<Step>) -> bool {
    forall|i: int| 0 <= i < v.len() ==> #[trigger] dfs_owes_at(g, root, edges_of(v), i)
}
pub open spec fn dfs_owes_at(g: GV, root: usize, h: Seq<(usize, usize)>, i: int) -> bool {
    dfs_owes(g, tv_of(root, h.subrange(0, i)), h[i].0, h[i].1)
}
pub open spec fn breadth_first(g: GV, root: usize, v: Seq<Step>) -> bool {
    forall|i: int| 0 <= i < v.len() ==> #[trigger] bfs_owes_at(g, root, edges_of(v), i)
}
pub open spec fn bfs_owes_at(g: GV, root: usize, h: Seq<(usize, usize)>, i: int) -> bool {
    bfs_owes(g, tv_of(root, h.subrange(0, i)), h[i].0, h[i].1)
}
/// tv is where the steps v lead
pub open spec fn trace(root: usize, v: Seq<Step>, tv: TV) -> bool {
    &&& tv == tv_of(root, edges_of(v))
    &&& tv.hist == edges_of(v)
    &&& forall|x: usize| #[trigger] tv.seen(x) <==> visited(root, v, v.len() as int, x)
    &&& steps_fine(root, v)
}
pub proof fn lemma_edges_push(v: Seq<Step>, st: Step)
    ensures edges_of(v.push(st)) == edges_of(v).push((st.sid, st.tid)),
{
    assert(edges_of(v.push(st)) =~= edges_of(v).push((st.sid, st.tid)));
}
pub proof fn lemma_visited_push(root: usize, v: Seq<Step>, st: Step)
    ensures
        forall|n: int, x: usize| 0 <= n <= v.len() ==> (#[trigger] visited(root, v.push(st), n, x) <==> visited(root, v, n, x)),
        forall|x: usize| #[trigger] visited(root, v.push(st), v.push(st).len() as int, x) <==> visited(root, v, v.len() as int, x) || x == st.tid,
{
    let w = v.push(st);
    assert forall|n: int, x: usize| 0 <= n <= v.len() implies (#[trigger] visited(root, w, n, x) <==> visited(root, v, n, x)) by {
        if visited(root, w, n, x) && x != root { let j = choose|j: int| 0 <= j < n && (#[trigger] w[j]).tid == x; assert(v[j].tid == x); }
        if visited(root, v, n, x) && x != root { let j = choose|j: int| 0 <= j < n && (#[trigger] v[j]).tid == x; assert(w[j].tid == x); }
    }
    assert forall|x: usize| #[trigger] visited(root, w, w.len() as int, x) <==> visited(root, v, v.len() as int, x) || x == st.tid by {
        if visited(root, w, w.len() as int, x) && x != root {
            let j = choose|j: int| 0 <= j < v.len() + 1 && (#[trigger] w[j]).tid == x;
            if j < v.len() { assert(v[j].tid == x); }
        }
        if visited(root, v, v.len() as int, x) && x != root { let j = choose|j: int| 0 <= j < v.len() && (#[trigger] v[j]).tid == x; assert(w[j].tid == x); }
        if x == st.tid { assert(w[v.len() as int].tid == x); }
    }
}
pub proof fn lemma_reached_push(root: usize, v: Seq<Step>, st: Step)
    requires steps_fine(root, v), st.cut <==> visited(root, v, v.len() as int, st.tid),
    ensures forall|x: usize| x != root && (visited(root, v, v.len() as int, x) || x == st.tid) ==> #[trigger] reached_once(v.push(st), x),
{
    let w = v.push(st);
    assert forall|x: usize| x != root && (visited(root, v, v.len() as int, x) || x == st.tid) implies #[trigger] reached_once(w, x) by {
        if visited(root, v, v.len() as int, x) {
            assert(reached_once(v, x));
            let i = choose|i: int| #[trigger] reached_at(v, x, i) && forall|j: int| #[trigger] reached_at(v, x, j) ==> j == i;
            assert(reached_at(w, x, i));
            assert forall|j: int| #[trigger] reached_at(w, x, j) implies j == i by { if j < v.len() { assert(reached_at(v, x, j)); } }
        } else {
            let i = v.len() as int;
            assert(reached_at(w, x, i));
            assert forall|j: int| #[trigger] reached_at(w, x, j) implies j == i by {
                if j < v.len() { assert(v[j].tid == x); assert(visited(root, v, v.len() as int, x)); }
            }
        }
    }
}
pub proof fn lemma_trace_start(g: GV, root: usize)
    requires g.wf(), g.has(root),
    ensures trace(root, Seq::empty(), TV::start(root)),
{
    lemma_start(g, root);
    assert(edges_of(Seq::<Step>::empty()) =~= Seq::empty());
}
pub proof fn lemma_trace_step(g: GV, root: usize, v: Seq<Step>, tv: TV, st: Step)
    requires g.wf(), tv_ok(g, root, tv), trace(root, v, tv), open_edge(g, tv, st.sid, st.tid), st.cut == tv.seen(st.tid),
    ensures trace(root, v.push(st), tv.step(st.sid, st.tid)),
{
    let w = v.push(st);
    let n = v.len() as int;
    lemma_edges_push(v, st);
    lemma_visited_push(root, v, st);
    lemma_reached_push(root, v, st);
    lemma_step_ok(g, root, tv, st.sid, st.tid);
    lemma_step_seen(tv, st.sid, st.tid);
    lemma_run_push(g, root, edges_of(v), st.sid, st.tid);
    assert forall|i: int| 0 <= i < w.len() implies #[trigger] step_fine(root, w, i) by {
        if i < n { assert(step_fine(root, v, i)); assert(w[i] == v[i]); }
    }
    assert forall|i: int| 0 <= i < w.len() && (#[trigger] w[i]).tid == root implies w[i].cut by {
        if i < n { assert(w[i] == v[i]); } else { assert(visited(root, v, n, root)); }
    }
}
pub proof fn lemma_trace_end(g: GV, root: usize, v: Seq<Step>, tv: TV)
    requires g.wf(), tv_ok(g, root, tv), trace(root, v, tv), complete(g, root, tv),
    ensures covers(g, root, v),
{
    assert forall|u: usize, w: usize| #[trigger] listed(edges_of(v), u, w) <==> g.adj(u, w) && reach(g, root, u) by {
        assert(tv.rep(u, w) <==> g.adj(u, w) && reach(g, root, u));
    }
    assert forall|x: usize| x != root implies (reach(g, root, x) <==> #[trigger] reached_once(v, x)) by {
        assert(tv.seen(x) <==> reach(g, root, x));
        if reached_once(v, x) {
            let i = choose|i: int| #[trigger] reached_at(v, x, i);
            assert(v[i].tid == x);
            assert(visited(root, v, v.len() as int, x));
        }
    }
}

/// how the uncut steps stand in the visit order
pub open spec fn reached_from(v: Seq<Step>, tv: TV, i: int) -> bool {
    !v[i].cut ==> tv.seen(v[i].sid) && tv.seen(v[i].tid) && tv.idx(v[i].tid) > 0 && tv.par[tv.idx(v[i].tid)] == tv.idx(v[i].sid)
}
pub open spec fn reached_before(v: Seq<Step>, tv: TV, i: int, j: int) -> bool {
    !v[i].cut && !v[j].cut ==> tv.idx(v[i].tid) < tv.idx(v[j].tid)
}
pub open spec fn in_order(v: Seq<Step>, tv: TV) -> bool {
    &&& forall|i: int| 0 <= i < v.len() ==> #[trigger] reached_from(v, tv, i)
    &&& forall|i: int, j: int| 0 <= i < j < v.len() ==> #[trigger] reached_before(v, tv, i, j)
}
pub proof fn lemma_in_order(g: GV, root: usize, v: Seq<Step>, tv: TV, st: Step)
    requires g.wf(), tv_ok(g, root, tv), in_order(v, tv), trace(root, v, tv), open_edge(g, tv, st.sid, st.tid), st.cut == tv.seen(st.tid),
    ensures in_order(v.push(st), tv.step(st.sid, st.tid)),
{
    let w = v.push(st);
    let tw = tv.step(st.sid, st.tid);
    lemma_step_ok(g, root, tv, st.sid, st.tid);
    lemma_step_seen(tv, st.sid, st.tid);
    assert(tv.seen(st.sid));
    lemma_seen(tv, st.sid);
    assert forall|i: int| 0 <= i < w.len() implies #[trigger] reached_from(w, tw, i) by {
        if i < v.len() {
            assert(reached_from(v, tv, i)); assert(w[i] == v[i]);
            if !v[i].cut { lemma_seen(tv, v[i].tid); assert(tw.seen(v[i].tid) && tw.seen(v[i].sid)); }
        } else { assert(tw.seen(st.tid)); }
    }
    assert forall|i: int, j: int| 0 <= i < j < w.len() implies #[trigger] reached_before(w, tw, i, j) by {
        assert(w[i] == v[i]);
        assert(reached_from(v, tv, i));
        if !v[i].cut { lemma_seen(tv, v[i].tid); }
        if j < v.len() {
            assert(w[j] == v[j]);
            assert(reached_before(v, tv, i, j)); assert(reached_from(v, tv, j));
        }
    }
}
/// uncut steps lead one step further from the root, and reach nodes in order of distance
pub open spec fn step_nearest(g: GV, root: usize, v: Seq<Step>, i: int) -> bool {
    !v[i].cut ==> exists|n: nat| #[trigger] distance(g, root, v[i].sid, n) && distance(g, root, v[i].tid, n + 1)
}
pub open spec fn steps_nearest(g: GV, root: usize, v: Seq<Step>, i: int, j: int) -> bool {
    !v[i].cut && !v[j].cut ==> forall|m: nat, n: nat| #[trigger] distance(g, root, v[i].tid, m) && #[trigger] distance(g, root, v[j].tid, n) ==> m <= n
}
pub open spec fn by_distance(g: GV, root: usize, v: Seq<Step>) -> bool {
    &&& forall|i: int| 0 <= i < v.len() ==> #[trigger] step_nearest(g, root, v, i)
    &&& forall|i: int, j: int| 0 <= i < j < v.len() ==> #[trigger] steps_nearest(g, root, v, i, j)
}
pub proof fn lemma_by_distance(g: GV, root: usize, v: Seq<Step>, tv: TV)
    requires tv_ok(g, root, tv), in_order(v, tv), shortest(g, root, tv),
    ensures by_distance(g, root, v),
{
    assert forall|i: int| 0 <= i < v.len() implies #[trigger] step_nearest(g, root, v, i) by {
        assert(reached_from(v, tv, i));
        if !v[i].cut {
            let (a, b) = (tv.idx(v[i].sid), tv.idx(v[i].tid));
            lemma_seen(tv, v[i].sid); lemma_seen(tv, v[i].tid);
            assert(node_at(g, root, tv, b));
            assert(distance(g, root, tv.ord[a], depth(tv, a)));
            assert(distance(g, root, tv.ord[b], depth(tv, b)));
            assert(depth(tv, b) == depth(tv, a) + 1);
        }
    }
    assert forall|i: int, j: int| 0 <= i < j < v.len() implies #[trigger] steps_nearest(g, root, v, i, j) by {
        assert(reached_from(v, tv, i) && reached_from(v, tv, j) && reached_before(v, tv, i, j));
        if !v[i].cut && !v[j].cut {
            let (a, b) = (tv.idx(v[i].tid), tv.idx(v[j].tid));
            lemma_seen(tv, v[i].tid); lemma_seen(tv, v[j].tid);
            assert(depth(tv, a) <= depth(tv, b));
            assert(distance(g, root, tv.ord[a], depth(tv, a)));
            assert(distance(g, root, tv.ord[b], depth(tv, b)));
            assert forall|m: nat, n: nat| #[trigger] distance(g, root, v[i].tid, m) && #[trigger] distance(g, root, v[j].tid, n) implies m <= n by {
                assert(walk(g, root, tv.ord[a], m)); assert(walk(g, root, tv.ord[b], n));
                assert(m <= depth(tv, a)); assert(depth(tv, b) <= n);
            }
        }
    }
}

pub fn p_t01_t02<G: Graph>(graph: &G, root: usize) -> (r: Result<Vec<Step>, Error>)
    requires graph.lawful()
    ensures match r {
        Ok(v) => graph.gv().has(root) && covers(graph.gv(), root, v@) && depth_first(graph.gv(), root, v@),
        Err(e) => !graph.gv().has(root) && e == Error::MissingNode(root),
    }
{
    let ghost g = graph.gv();
    let mut t = match DepthFirst::new(graph, root) { Ok(t) => t, Err(e) => { return Err(e); } };
    let mut v: Vec<Step> = Vec::new();
    let ghost mut tv = TV::start(root);
    proof { graph.lemma_lawful(); lemma_trace_start(g, root); assert(v@ =~= Seq::empty()); }
    loop
        invariant_except_break
            t.inv(root, tv),
        invariant
            g.wf(), g == graph.gv(), t.graph == graph, g.has(root),
            tv_ok(g, root, tv), trace(root, v@, tv), depth_first(g, root, v@),
        ensures complete(g, root, tv),
        decreases g.edges.len() - tv.hist.len()
    {
        match t.next() {
            None => { break; }
            Some(st) => {
                let ghost v0 = v@;
                proof {
                    lemma_trace_step(g, root, v@, tv, st);
                    lemma_edges_push(v@, st);
                    tv = tv.step(st.sid, st.tid);
                    lemma_hist_len(g, root, tv);
                }
                v.push(st);
                proof {
                    assert forall|i: int| 0 <= i < v@.len() implies #[trigger] dfs_owes_at(g, root, edges_of(v@), i) by {
                        let h = edges_of(v0);
                        if i < v0.len() {
                            assert(dfs_owes_at(g, root, h, i));
                            assert(edges_of(v@).subrange(0, i) =~= h.subrange(0, i));
                        } else { assert(edges_of(v@).subrange(0, i) =~= h); }
                    }
                }
            }
        }
    }
    proof { lemma_trace_end(g, root, v@, tv); }
    Ok(v)
}

pub fn p_t03_t04<G: Graph>(graph: &G, root: usize) -> (r: Result<Vec<Step>, Error>)
    requires graph.lawful()
    ensures match r {
        Ok(v) => graph.gv().has(root) && covers(graph.gv(), root, v@) && breadth_first(graph.gv(), root, v@)
            && by_distance(graph.gv(), root, v@),
        Err(e) => !graph.gv().has(root) && e == Error::MissingNode(root),
    }
{
    let ghost g = graph.gv();
    let mut t = match BreadthFirst::new(graph, root) { Ok(t) => t, Err(e) => { return Err(e); } };
    let mut v: Vec<Step> = Vec::new();
    let ghost mut tv = TV::start(root);
    proof { graph.lemma_lawful(); lemma_trace_start(g, root); assert(v@ =~= Seq::empty()); }
    loop
        invariant_except_break
            t.inv(root, tv),
        invariant
            g.wf(), g == graph.gv(), t.graph == graph, g.has(root),
            tv_ok(g, root, tv), trace(root, v@, tv), in_order(v@, tv), breadth_first(g, root, v@),
        ensures complete(g, root, tv), shortest(g, root, tv),
        decreases g.edges.len() - tv.hist.len()
    {
        match t.next() {
            None => { break; }
            Some(st) => {
                let ghost v0 = v@;
                proof {
                    lemma_in_order(g, root, v@, tv, st);
                    lemma_trace_step(g, root, v@, tv, st);
                    lemma_edges_push(v@, st);
                    tv = tv.step(st.sid, st.tid);
                    lemma_hist_len(g, root, tv);
                }
                v.push(st);
                proof {
                    assert forall|i: int| 0 <= i < v@.len() implies #[trigger] bfs_owes_at(g, root, edges_of(v@), i) by {
                        let h = edges_of(v0);
                        if i < v0.len() {
                            assert(bfs_owes_at(g, root, h, i));
                            assert(edges_of(v@).subrange(0, i) =~= h.subrange(0, i));
                        } else { assert(edges_of(v@).subrange(0, i) =~= h); }
                    }
                }
            }
        }
    }
    proof { lemma_trace_end(g, root, v@, tv); lemma_by_distance(g, root, v@, tv); }
    Ok(v)
}

// ================================================================== collecting

pub proof fn lemma_owes_unique(g: GV, tv: TV, s: usize, t: usize, x: usize, y: usize)
    requires dfs_owes(g, tv, s, t), dfs_owes(g, tv, x, y),
    ensures s == x, t == y,
{
    assert(tv.idx(s) == tv.idx(x));
    lemma_seen(tv, s); lemma_seen(tv, x);
    assert(g.nbrs[s].index_of(t) == g.nbrs[s].index_of(y));
    assert(g.nbrs[s].contains(t) && g.nbrs[s].contains(y));
}
pub proof fn lemma_run_prefix(g: GV, root: usize, h: Seq<(usize, usize)>, n: int)
    requires dfs_run(g, root, h), 0 <= n <= h.len(),
    ensures
        dfs_run(g, root, h.subrange(0, n)),
        n < h.len() ==> dfs_owes(g, tv_of(root, h.subrange(0, n)), h[n].0, h[n].1),
    decreases h.len() - n,
{
    if n == h.len() { assert(h.subrange(0, n) =~= h); }
    else {
        lemma_run_prefix(g, root, h, n + 1);
        let q = h.subrange(0, n + 1);
        assert(q.drop_last() =~= h.subrange(0, n));
        assert(q.last() == h[n]);
    }
}
pub proof fn lemma_runs_agree(g: GV, root: usize, a: Seq<(usize, usize)>, b: Seq<(usize, usize)>, n: int)
    requires dfs_run(g, root, a), dfs_run(g, root, b), 0 <= n <= a.len(), n <= b.len(),
    ensures a.subrange(0, n) == b.subrange(0, n),
    decreases n,
{
    if n > 0 {
        lemma_runs_agree(g, root, a, b, n - 1);
        lemma_run_prefix(g, root, a, n - 1);
        lemma_run_prefix(g, root, b, n - 1);
        lemma_owes_unique(g, tv_of(root, a.subrange(0, n - 1)), a[n - 1].0, a[n - 1].1, b[n - 1].0, b[n - 1].1);
        assert(a.subrange(0, n) =~= a.subrange(0, n - 1).push(a[n - 1]));
        assert(b.subrange(0, n) =~= b.subrange(0, n - 1).push(b[n - 1]));
    } else { assert(a.subrange(0, n) =~= b.subrange(0, n)); }
}
/// a whole traversal is not a proper beginning of another
pub proof fn lemma_runs_end(g: GV, root: usize, a: Seq<(usize, usize)>, b: Seq<(usize, usize)>)
    requires dfs_run(g, root, a), dfs_run(g, root, b), complete(g, root, tv_of(root, a)),
    ensures b.len() <= a.len(),
{
    if b.len() > a.len() {
        let n = a.len() as int;
        lemma_runs_agree(g, root, a, b, n);
        assert(a.subrange(0, n) =~= a);
        lemma_run_prefix(g, root, b, n);
        let tv = tv_of(root, a);
        let (s, t) = b[n];
        assert(open_edge(g, tv, s, t));
        assert(tv.seen(s) <==> reach(g, root, s));
        assert(tv.rep(s, t));
    }
}
pub proof fn lemma_tables_equal(g: GV, root: usize, n: Seq<usize>, a: Seq<(usize, usize)>, k: Seq<usize>, b: Seq<(usize, usize)>)
    requires dfs_table(g, root, n, a), dfs_table(g, root, k, b),
    ensures n == k, a == b,
{
    lemma_runs_end(g, root, a, b);
    lemma_runs_end(g, root, b, a);
    lemma_runs_agree(g, root, a, b, a.len() as int);
    assert(a.subrange(0, a.len() as int) =~= a);
    assert(b.subrange(0, b.len() as int) =~= b);
}
pub proof fn lemma_run_ok(g: GV, root: usize, h: Seq<(usize, usize)>)
    requires g.wf(), g.has(root), dfs_run(g, root, h),
    ensures tv_ok(g, root, tv_of(root, h)),
    decreases h.len(),
{
    lemma_start(g, root);
    if h.len() > 0 {
        lemma_run_ok(g, root, h.drop_last());
        lemma_step_ok(g, root, tv_of(root, h.drop_last()), h.last().0, h.last().1);
    }
}
/// the root's component: nodes in order of first visit, edges in the order reported; nothing if the root has no edge
pub open spec fn collected(g: GV, root: usize, nodes: Seq<usize>, edges: Seq<(usize, usize)>) -> bool {
    &&& forall|i: int| 0 <= i < edges.len() ==> #[trigger] dfs_owes_at(g, root, edges, i)
    &&& pairs_distinct(edges)
    &&& forall|u: usize, w: usize| #[trigger] listed(edges, u, w) <==> g.adj(u, w) && reach(g, root, u)
    &&& nodes.no_duplicates()
    &&& if g.nbrs[root].len() == 0 { nodes.len() == 0 && edges.len() == 0 } else {
        &&& forall|x: usize| #[trigger] nodes.contains(x) <==> reach(g, root, x)
        &&& nodes[0] == root
        &&& nodes == tv_of(root, edges).ord
    }
}
pub proof fn lemma_collected(g: GV, root: usize, nodes: Seq<usize>, edges: Seq<(usize, usize)>)
    requires g.wf(), g.has(root), dfs_table(g, root, nodes, edges),
    ensures collected(g, root, nodes, edges),
{
    let tv = tv_of(root, edges);
    lemma_run_ok(g, root, edges);
    lemma_tv_hist(root, edges);
    assert forall|i: int| 0 <= i < edges.len() implies #[trigger] dfs_owes_at(g, root, edges, i) by { lemma_run_prefix(g, root, edges, i); }
    assert forall|u: usize, w: usize| #[trigger] listed(edges, u, w) <==> g.adj(u, w) && reach(g, root, u) by {
        assert(tv.rep(u, w) <==> g.adj(u, w) && reach(g, root, u));
    }
    lemma_reach_self(g, root);
    if g.nbrs[root].len() == 0 {
        if edges.len() > 0 {
            lemma_run_prefix(g, root, edges, 0);
            assert(edges.subrange(0, 0) =~= Seq::empty());
            lemma_start(g, root);
            assert(TV::start(root).seen(edges[0].0));
            assert(g.adj(root, edges[0].1));
        }
    } else {
        assert(g.adj(root, g.nbrs[root][0]));
        assert(listed(edges, root, g.nbrs[root][0]));
        assert(edges.len() > 0);
        assert forall|x: usize| #[trigger] nodes.contains(x) <==> reach(g, root, x) by { assert(tv.seen(x) <==> reach(g, root, x)); }
    }
}
pub fn p_t05<G: Graph>(graph: &G, root: usize) -> (r: Result<(DefaultGraph, Vec<usize>, Vec<(usize, usize)>), Error>)
    requires graph.lawful()
    ensures match r {
        Ok(x) => {
            &&& graph.gv().has(root) && x.0.inv()
            &&& collected(graph.gv(), root, x.0.gv().nodes, x.0.gv().edges)
            &&& forall|u: usize, w: usize| #[trigger] x.0.gv().adj(u, w) <==> graph.gv().adj(u, w) && reach(graph.gv(), root, u)
            &&& x.1@ == x.0.gv().nodes && x.2@ == x.0.gv().edges
        },
        Err(e) => !graph.gv().has(root) && e == Error::MissingNode(root),
    }
{
    let ghost g = graph.gv();
    proof { graph.lemma_lawful(); }
    let t = match DepthFirst::new(graph, root) { Ok(t) => t, Err(e) => { return Err(e); } };
    let c: DefaultGraph = match VxTryFrom::vx_try_from(t) { Ok(c) => c, Err(e) => { assert(t.inv(root, TV::start(root))); return Err(e); } };
    let t2 = match DepthFirst::new(graph, root) { Ok(t) => t, Err(e) => { return Err(e); } };
    let (ns, es) = t2.into_table();
    proof {
        assert(t.inv(root, TV::start(root)) && t2.inv(root, TV::start(root)));
        let h = c.gv();
        lemma_tables_equal(g, root, h.nodes, h.edges, ns@, es@);
        lemma_collected(g, root, h.nodes, h.edges);
        assert forall|u: usize, w: usize| #[trigger] h.adj(u, w) <==> g.adj(u, w) && reach(g, root, u) by {
            assert(listed(h.edges, u, w) <==> g.adj(u, w) && reach(g, root, u));
            if listed(h.edges, u, w) {
                let e = if h.edges.contains((u, w)) { (u, w) } else { (w, u) };
                let i = choose|i: int| 0 <= i < h.edges.len() && h.edges[i] == e;
                assert(h.adj(h.edges[i].0, h.edges[i].1));
            }
        }
    }
    Ok((c, ns, es))
}

// ================================================================== components

pub open spec fn views(v: Seq<DefaultGraph>) -> Seq<GV> { v.map_values(|c: DefaultGraph| c.gv()) }

pub fn p_s01_s02<G: Graph>(graph: &G) -> (r: Vec<DefaultGraph>)
    requires graph.lawful()
    ensures
        forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).inv(),
        partition(graph.gv(), views(r@)),
{
    let ghost g = graph.gv();
    let mut c = components(graph);
    let mut v: Vec<DefaultGraph> = Vec::new();
    proof { assert(views(v@) =~= Seq::empty()); }
    loop
        invariant_except_break
            c.inv(views(v@)),
        invariant
            c.graph == graph, g == graph.gv(),
            forall|i: int| 0 <= i < v@.len() ==> (#[trigger] v@[i]).inv(),
        ensures partition(g, views(v@)),
        decreases c.iter.all().len() - c.iter.pos()
    {
        match c.next() {
            None => { break; }
            Some(x) => {
                let ghost v0 = v@;
                proof { assert(c.inv(views(v0).push(x.gv()))); }
                v.push(x);
                proof { assert(views(v@) =~= views(v0).push(x.gv())); }
            }
        }
    }
    v
}

// ================================================================== matchings, as lists of pairs

pub open spec fn is_end(q: Seq<(usize, usize)>, u: usize) -> bool {
    exists|i: int| 0 <= i < q.len() && (#[trigger] q[i]).0 == u || 0 <= i < q.len() && (#[trigger] q[i]).1 == u
}
pub open spec fn share_end(e: (usize, usize), f: (usize, usize)) -> bool { e.0 == f.0 || e.0 == f.1 || e.1 == f.0 || e.1 == f.1 }
/// pairs of two different nodes, no two with a common node
pub open spec fn disjoint_pairs(q: Seq<(usize, usize)>) -> bool {
    &&& forall|i: int| 0 <= i < q.len() ==> (#[trigger] q[i]).0 != q[i].1
    &&& forall|i: int, j: int| 0 <= i < j < q.len() ==> !share_end(#[trigger] q[i], #[trigger] q[j])
}
/// a matching of g: disjoint edges
pub open spec fn matching_of(g: GV, q: Seq<(usize, usize)>) -> bool {
    disjoint_pairs(q) && forall|i: int| 0 <= i < q.len() ==> g.adj((#[trigger] q[i]).0, q[i].1)
}
pub open spec fn unite(q: Seq<(usize, usize)>) -> PM
    decreases q.len()
{
    if q.len() == 0 { Map::empty() } else { unite(q.drop_last()).insert(q.last().0, q.last().1).insert(q.last().1, q.last().0) }
}
pub proof fn lemma_end_push(q: Seq<(usize, usize)>, u: usize)
    requires q.len() > 0,
    ensures is_end(q, u) <==> is_end(q.drop_last(), u) || u == q.last().0 || u == q.last().1,
{
    let d = q.drop_last();
    let n = d.len() as int;
    if is_end(q, u) {
        let i = choose|i: int| 0 <= i < q.len() && (#[trigger] q[i]).0 == u || 0 <= i < q.len() && (#[trigger] q[i]).1 == u;
        if i < n { assert(d[i] == q[i]); }
    }
    if is_end(d, u) {
        let i = choose|i: int| 0 <= i < d.len() && (#[trigger] d[i]).0 == u || 0 <= i < d.len() && (#[trigger] d[i]).1 == u;
        assert(q[i] == d[i]);
    }
    assert(q[n] == q.last());
}
pub proof fn lemma_disjoint_last(q: Seq<(usize, usize)>)
    requires disjoint_pairs(q), q.len() > 0,
    ensures disjoint_pairs(q.drop_last()), !is_end(q.drop_last(), q.last().0), !is_end(q.drop_last(), q.last().1), q.last().0 != q.last().1,
{
    let d = q.drop_last();
    let n = d.len() as int;
    assert(q[n] == q.last());
    assert forall|i: int| 0 <= i < d.len() implies (#[trigger] d[i]).0 != d[i].1 by { assert(d[i] == q[i]); }
    assert forall|i: int, j: int| 0 <= i < j < d.len() implies !share_end(#[trigger] d[i], #[trigger] d[j]) by { assert(d[i] == q[i] && d[j] == q[j]); }
    assert forall|i: int| 0 <= i < d.len() implies !share_end(#[trigger] d[i], q.last()) by { assert(d[i] == q[i]); assert(!share_end(q[i], q[n])); }
}
/// a list of disjoint pairs is a pairing with twice as many nodes
pub proof fn lemma_unite(q: Seq<(usize, usize)>)
    requires disjoint_pairs(q),
    ensures
        mwf(unite(q)), unite(q).dom().len() == 2 * q.len(),
        forall|u: usize| #[trigger] unite(q).contains_key(u) <==> is_end(q, u),
        forall|u: usize| #[trigger] unite(q).contains_key(u) ==> listed(q, u, unite(q)[u]),
        forall|i: int| 0 <= i < q.len() ==> unite(q).contains_pair((#[trigger] q[i]).0, q[i].1),
    decreases q.len(),
{
    if q.len() == 0 {
        assert forall|u: usize| !is_end(q, u) by {}
    } else {
        let d = q.drop_last();
        let (s, t) = q.last();
        let (m, r) = (unite(d), unite(q));
        lemma_disjoint_last(q);
        lemma_unite(d);
        assert(!m.contains_key(s) && !m.contains_key(t));
        assert(q =~= d.push((s, t)));
        assert forall|u: usize| #[trigger] r.contains_key(u) <==> is_end(q, u) by { lemma_end_push(q, u); assert(m.contains_key(u) <==> is_end(d, u)); }
        assert forall|u: usize| #[trigger] r.contains_key(u) implies listed(q, u, r[u]) by {
            lemma_listed_push(d, (s, t), u, r[u]);
            if u != s && u != t { assert(m.contains_key(u)); assert(listed(d, u, m[u])); }
        }
        assert forall|u: usize| #[trigger] r.contains_key(u) implies r.contains_key(r[u]) && r[r[u]] == u && r[u] != u by {
            if u != s && u != t { assert(m.contains_key(u)); assert(m.contains_key(m[u]) && m[m[u]] == u); }
        }
        assert(r.dom() =~= m.dom().insert(s).insert(t));
        assert forall|i: int| 0 <= i < q.len() implies r.contains_pair((#[trigger] q[i]).0, q[i].1) by {
            if i < d.len() { assert(d[i] == q[i]); assert(m.contains_pair(d[i].0, d[i].1)); assert(m.contains_pair(d[i].1, d[i].0)); }
        }
    }
}
pub proof fn lemma_unite_matching(g: GV, q: Seq<(usize, usize)>)
    requires g.wf(), matching_of(g, q),
    ensures is_matching(g, unite(q)),
{
    lemma_unite(q);
    let m = unite(q);
    assert forall|u: usize| #[trigger] m.contains_key(u) implies g.adj(u, m[u]) by {
        assert(listed(q, u, m[u]));
        let e = if q.contains((u, m[u])) { (u, m[u]) } else { (m[u], u) };
        let i = choose|i: int| 0 <= i < q.len() && q[i] == e;
        assert(g.adj(q[i].0, q[i].1));
    }
}
/// what `edges` reports of a pairing is that pairing
pub proof fn lemma_reported(s: Seq<(usize, usize)>, m: PM)
    requires mwf(m), pairs_of(s, m),
    ensures
        disjoint_pairs(s), m.dom().len() == 2 * s.len(),
        forall|u: usize| #[trigger] m.contains_key(u) <==> is_end(s, u),
        forall|u: usize, v: usize| #[trigger] listed(s, u, v) <==> m.contains_pair(u, v),
{
    assert forall|i: int, j: int| 0 <= i < j < s.len() implies !share_end(#[trigger] s[i], #[trigger] s[j]) by {
        let (a, b) = (s[i], s[j]);
        assert(m.contains_pair(a.0, a.1) && m.contains_pair(b.0, b.1));
        assert(m[m[a.0]] == a.0 && m[m[b.0]] == b.0);
        if share_end(a, b) { assert(a == b); }
    }
    lemma_unite(s);
    let r = unite(s);
    assert forall|u: usize| #[trigger] m.contains_key(u) <==> r.contains_key(u) by {
        if m.contains_key(u) {
            let v = m[u];
            assert(m.contains_key(v) && m[v] == u && u != v);
            let e = if u < v { (u, v) } else { (v, u) };
            assert(s.contains(e));
            let i = choose|i: int| 0 <= i < s.len() && s[i] == e;
            assert(s[i].0 == u || s[i].1 == u);
            assert(is_end(s, u));
        }
        if r.contains_key(u) {
            assert(is_end(s, u));
            let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == u || 0 <= i < s.len() && (#[trigger] s[i]).1 == u;
            assert(m.contains_pair(s[i].0, s[i].1));
        }
    }
    assert(m.dom() =~= r.dom());
    assert forall|u: usize, v: usize| #[trigger] listed(s, u, v) <==> m.contains_pair(u, v) by {
        if m.contains_pair(u, v) {
            assert(m.contains_key(v) && m[v] == u && u != v);
            if u < v { assert(s.contains((u, v))); } else { assert(m.contains_key(v) && v < m[v]); assert(s.contains((v, u))); }
        }
        if listed(s, u, v) {
            let e = if s.contains((u, v)) { (u, v) } else { (v, u) };
            let i = choose|i: int| 0 <= i < s.len() && s[i] == e;
            assert(m.contains_pair(s[i].0, s[i].1));
        }
    }
}

pub struct PairingAnswers { pub order: usize, pub edges: Vec<(usize, usize)>, pub has_u: bool, pub mate_u: Option<usize> }

/// all queries of a pairing describe one set of disjoint pairs
pub fn p_m01(p: &Pairing, u: usize) -> (r: PairingAnswers)
    requires p.inv()
    ensures
        disjoint_pairs(r.edges@),
        forall|i: int| 0 <= i < r.edges@.len() ==> (#[trigger] r.edges@[i]).0 < r.edges@[i].1,
        r.order == 2 * r.edges@.len(),
        r.has_u <==> is_end(r.edges@, u),
        r.mate_u is Some <==> r.has_u,
        forall|v: usize| #[trigger] listed(r.edges@, u, v) <==> r.mate_u == Some(v),
{
    let it = p.edges();
    assert(it.rest() =~= it.all());
    let edges: Vec<(usize, usize)> = it.collect();
    let has_u = p.has_node(u);
    let mate_u = if has_u { Some(p.mate(u)) } else { None };
    proof { lemma_reported(edges@, p.map()); }
    PairingAnswers { order: p.order(), edges, has_u, mate_u }
}

pub open spec fn paired_up(ops: Seq<(usize, usize)>, n: int) -> PM
    decreases n
{
    if n <= 0 { Map::empty() } else { pair_map(paired_up(ops, n - 1), ops[n - 1].0, ops[n - 1].1) }
}
/// whatever is paired in whatever order
pub fn p_m01_history(ops: &Vec<(usize, usize)>) -> (p: Pairing)
    requires forall|i: int| 0 <= i < ops@.len() ==> (#[trigger] ops@[i]).0 != ops@[i].1
    ensures
        p.inv(), p.map() == paired_up(ops@, ops@.len() as int),
        forall|n: int| 0 <= n < ops@.len() ==> paired(#[trigger] paired_up(ops@, n), ops@[n].0, ops@[n].1, paired_up(ops@, n + 1)),
{
    let mut p = Pairing::new();
    let mut i = 0;
    while i < ops.len()
        invariant
            0 <= i <= ops@.len(),
            forall|i: int| 0 <= i < ops@.len() ==> (#[trigger] ops@[i]).0 != ops@[i].1,
            p.inv(), p.map() == paired_up(ops@, i as int),
            forall|n: int| 0 <= n < i ==> paired(#[trigger] paired_up(ops@, n), ops@[n].0, ops@[n].1, paired_up(ops@, n + 1)),
        decreases ops@.len() - i
    {
        p.pair(ops[i].0, ops[i].1);
        i = i + 1;
    }
    p
}

/// who u is mated with
pub fn mate_of(p: &Pairing, u: usize) -> (r: Option<usize>)
    requires p.inv()
    ensures r is Some <==> p.map().contains_key(u), r is Some ==> r->Some_0 == p.map()[u]
{
    if p.has_node(u) { Some(p.mate(u)) } else { None }
}
/// after augmenting along a path without repeated nodes: the 1st and 2nd, 3rd and 4th, ... nodes are mates; a node off the path
/// keeps its mate, unless the mate is on the path, and then is free
pub fn p_m02(p: Pairing, path: Vec<usize>, u: usize) -> (r: (Option<usize>, Option<usize>, Pairing))
    requires p.inv(), path@.len() % 2 == 0, path@.no_duplicates()
    ensures
        r.2.inv(),
        forall|i: int| 0 <= i < path@.len() && #[trigger] path@[i] == u ==> r.1 == Some(path@[if i % 2 == 0 { i + 1 } else { i - 1 }]),
        !path@.contains(u) ==> r.1 == match r.0 {
            Some(v) => if path@.contains(v) { None } else { Some(v) },
            None => None,
        },
{
    let mut p = p;
    let before = mate_of(&p, u);
    let ghost q = path@;
    proof { assert forall|i: int| 0 <= i < q.len() - 1 && i % 2 == 0 implies #[trigger] q[i] != q[i + 1] by {} }
    let ghost m = p.map();
    p.augment(path);
    let after = mate_of(&p, u);
    proof {
        assert(aug_result(m, q, p.map()));
        assert forall|i: int| 0 <= i < q.len() && #[trigger] q[i] == u implies after == Some(q[if i % 2 == 0 { i + 1 } else { i - 1 }]) by {
            if i % 2 == 0 { assert(p.map().contains_pair(q[i], q[i + 1])); } else { assert((i - 1) % 2 == 0); assert(p.map().contains_pair(q[i - 1 + 1], q[i - 1])); }
        }
    }
    (before, after, p)
}
/// augmenting is pairing the 1st and 2nd, 3rd and 4th, ... nodes one after another, also if nodes repeat
pub fn p_m02_pairwise(p: Pairing, q: Pairing, path: Vec<usize>) -> (r: (Pairing, Pairing))
    requires
        p.inv(), q.inv(), p.map() == q.map(), path@.len() % 2 == 0,
        forall|i: int| 0 <= i < path@.len() - 1 && i % 2 == 0 ==> #[trigger] path@[i] != path@[i + 1],
    ensures r.0.inv(), r.1.inv(), r.0.map() == r.1.map()
{
    let (mut p, mut q) = (p, q);
    let ghost (m, s) = (p.map(), path@);
    let mut i = 0;
    while i < path.len()
        invariant
            0 <= i <= path@.len(), i % 2 == 0, path@.len() % 2 == 0, path@ == s, steps_distinct(s),
            q.inv(), q.map() == augmented(m, s, i as int),
        decreases path@.len() - i
    {
        proof { assert(s[i as int] != s[i + 1]); }
        q.pair(path[i], path[i + 1]);
        proof { assert(augmented(m, s, i + 1) == pair_map(augmented(m, s, i as int), s[i as int], s[i + 1])); assert(augmented(m, s, i + 2) == augmented(m, s, i + 1)); }
        i = i + 2;
    }
    p.augment(path);
    (p, q)
}

/// a matching, given as a list, as a pairing
pub fn p_m05_start(g: Ghost<GV>, q: &Vec<(usize, usize)>) -> (p: Pairing)
    requires g@.wf(), matching_of(g@, q@)
    ensures p.inv(), is_matching(g@, p.map()), forall|u: usize| #[trigger] p.map().contains_key(u) <==> is_end(q@, u)
{
    let mut p = Pairing::new();
    let mut i = 0;
    proof {
        assert(q@.subrange(0, 0) =~= Seq::empty());
        assert(unite(q@.subrange(0, 0)) =~= Map::empty());
    }
    while i < q.len()
        invariant
            0 <= i <= q@.len(), g@.wf(), matching_of(g@, q@),
            p.inv(), p.map() == unite(q@.subrange(0, i as int)),
        decreases q@.len() - i
    {
        let ghost m = p.map();
        let ghost a = q@.subrange(0, i as int);
        let ghost b = q@.subrange(0, i + 1);
        p.pair(q[i].0, q[i].1);
        proof {
            assert(b.drop_last() =~= a);
            assert(b.last() == q@[i as int]);
            assert forall|k: int| 0 <= k < b.len() implies (#[trigger] b[k]).0 != b[k].1 by { assert(b[k] == q@[k]); }
            assert forall|k: int, l: int| 0 <= k < l < b.len() implies !share_end(#[trigger] b[k], #[trigger] b[l]) by { assert(b[k] == q@[k] && b[l] == q@[l]); }
            lemma_disjoint_last(b);
            lemma_unite(a);
            assert(!m.contains_key(b.last().0) && !m.contains_key(b.last().1));
            assert(p.map() =~= unite(b));
        }
        i = i + 1;
    }
    proof {
        assert(q@.subrange(0, q@.len() as int) =~= q@);
        lemma_unite(q@);
        lemma_unite_matching(g@, q@);
    }
    p
}

/// a matching that leaves no edge between two unmatched nodes
pub fn p_m03_m04<G: Graph>(graph: &G) -> (r: Vec<(usize, usize)>)
    requires graph.lawful()
    ensures
        matching_of(graph.gv(), r@),
        forall|u: usize, v: usize| #[trigger] graph.gv().adj(u, v) && u != v ==> is_end(r@, u) || is_end(r@, v),
{
    let p = greedy(graph);
    let it = p.edges();
    assert(it.rest() =~= it.all());
    let r: Vec<(usize, usize)> = it.collect();
    proof {
        let g = graph.gv();
        lemma_reported(r@, p.map());
        assert forall|i: int| 0 <= i < r@.len() implies g.adj((#[trigger] r@[i]).0, r@[i].1) by { assert(p.map().contains_pair(r@[i].0, r@[i].1)); }
        assert forall|u: usize, v: usize| #[trigger] g.adj(u, v) && u != v implies is_end(r@, u) || is_end(r@, v) by {
            assert(p.map().contains_key(u) || p.map().contains_key(v));
        }
    }
    r
}

/// from any matching: a matching, with every node matched before, that no other exceeds
pub fn p_m05_m06<G: Graph>(graph: &G, start: &Vec<(usize, usize)>) -> (r: Vec<(usize, usize)>)
    requires graph.lawful(), matching_of(graph.gv(), start@)
    ensures
        matching_of(graph.gv(), r@),
        forall|u: usize| #[trigger] is_end(start@, u) ==> is_end(r@, u),
        forall|q: Seq<(usize, usize)>| #[trigger] matching_of(graph.gv(), q) ==> q.len() <= r@.len(),
{
    let ghost g = graph.gv();
    proof { graph.lemma_lawful(); }
    let mut p = p_m05_start(Ghost(g), start);
    let ghost m0 = p.map();
    maximum_matching(graph, &mut p);
    let it = p.edges();
    assert(it.rest() =~= it.all());
    let r: Vec<(usize, usize)> = it.collect();
    proof {
        lemma_reported(r@, p.map());
        assert forall|i: int| 0 <= i < r@.len() implies g.adj((#[trigger] r@[i]).0, r@[i].1) by { assert(p.map().contains_pair(r@[i].0, r@[i].1)); }
        assert forall|u: usize| #[trigger] is_end(start@, u) implies is_end(r@, u) by { assert(m0.contains_key(u)); assert(p.map().contains_key(u)); }
        assert forall|q: Seq<(usize, usize)>| #[trigger] matching_of(g, q) implies q.len() <= r@.len() by {
            lemma_unite(q);
            lemma_unite_matching(g, q);
            assert(unite(q).dom().len() <= p.map().dom().len());
        }
    }
    r
}

} // verus!
}
