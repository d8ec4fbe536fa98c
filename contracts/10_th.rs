pub mod th {
#[allow(unused_imports)] use vstd::prelude::*;
#[allow(unused_imports)] use crate::vx::*;
verus! {

// ================================================================== graphs

/// What a graph answers: its nodes, each node's neighbors and its edges, in the order reported.
pub struct GV {
    pub nodes: Seq<usize>,
    pub nbrs: Map<usize, Seq<usize>>,
    pub edges: Seq<(usize, usize)>,
}

pub open spec fn swap(e: (usize, usize)) -> (usize, usize) { (e.1, e.0) }
pub open spec fn same(e: (usize, usize), f: (usize, usize)) -> bool { e == f || e == swap(f) }
/// the unordered pair {u, v} is listed in s
pub open spec fn listed(s: Seq<(usize, usize)>, u: usize, v: usize) -> bool { s.contains((u, v)) || s.contains((v, u)) }
/// no unordered pair is listed twice
pub open spec fn pairs_distinct(s: Seq<(usize, usize)>) -> bool {
    forall|i: int, j: int| 0 <= i < j < s.len() ==> !same(#[trigger] s[i], #[trigger] s[j])
}

impl GV {
    pub open spec fn has(self, u: usize) -> bool { self.nbrs.contains_key(u) }
    pub open spec fn adj(self, u: usize, v: usize) -> bool { self.nbrs.contains_key(u) && self.nbrs[u].contains(v) }
    /// the representation is consistent: a simple undirected graph (loops allowed), described the same way by every query
    pub open spec fn wf(self) -> bool {
        &&& self.nodes.no_duplicates()
        &&& self.nodes.len() <= usize::MAX
        &&& forall|u: usize| #[trigger] self.nodes.contains(u) <==> self.nbrs.contains_key(u)
        &&& forall|u: usize| #[trigger] self.nbrs.contains_key(u) ==> self.nbrs[u].no_duplicates()
        &&& forall|u: usize, v: usize| #[trigger] self.adj(u, v) ==> self.adj(v, u)
        &&& forall|i: int| 0 <= i < self.edges.len() ==> self.adj((#[trigger] self.edges[i]).0, self.edges[i].1)
        &&& pairs_distinct(self.edges)
        &&& forall|u: usize, v: usize| #[trigger] self.adj(u, v) ==> listed(self.edges, u, v)
    }
    pub open spec fn with_node(self, id: usize) -> GV {
        GV { nodes: self.nodes.push(id), nbrs: self.nbrs.insert(id, Seq::empty()), edges: self.edges }
    }
    pub open spec fn with_edge(self, s: usize, t: usize) -> GV {
        GV {
            nodes: self.nodes,
            nbrs: if s == t {
                self.nbrs.insert(s, self.nbrs[s].push(t))
            } else {
                self.nbrs.insert(s, self.nbrs[s].push(t)).insert(t, self.nbrs[t].push(s))
            },
            edges: self.edges.push((s, t)),
        }
    }
    pub open spec fn empty() -> GV { GV { nodes: Seq::empty(), nbrs: Map::empty(), edges: Seq::empty() } }
    pub open spec fn same_graph(self, o: GV) -> bool {
        &&& forall|u: usize| self.has(u) <==> o.has(u)
        &&& forall|u: usize, v: usize| self.adj(u, v) <==> o.adj(u, v)
    }
}

pub proof fn lemma_listed_push(s: Seq<(usize, usize)>, e: (usize, usize), u: usize, v: usize)
    ensures listed(s.push(e), u, v) <==> listed(s, u, v) || same(e, (u, v)),
{
    let p = s.push(e);
    assert(forall|x: (usize, usize)| s.contains(x) ==> p.contains(x)) by {
        assert forall|x: (usize, usize)| s.contains(x) implies p.contains(x) by {
            let i = choose|i: int| 0 <= i < s.len() && s[i] == x;
            assert(p[i] == x);
        }
    }
    assert(p[s.len() as int] == e);
    assert forall|x: (usize, usize)| p.contains(x) implies s.contains(x) || x == e by {
        let i = choose|i: int| 0 <= i < p.len() && p[i] == x;
        if i < s.len() { assert(s[i] == x); }
    }
}

pub proof fn lemma_contains_push<T>(s: Seq<T>, x: T)
    ensures
        forall|y: T| #[trigger] s.push(x).contains(y) <==> s.contains(y) || y == x,
{
    let p = s.push(x);
    assert(p[s.len() as int] == x);
    assert forall|y: T| #[trigger] p.contains(y) implies s.contains(y) || y == x by {
        let i = choose|i: int| 0 <= i < p.len() && p[i] == y;
        if i < s.len() { assert(s[i] == y); }
    }
    assert forall|y: T| s.contains(y) implies #[trigger] p.contains(y) by {
        let i = choose|i: int| 0 <= i < s.len() && s[i] == y;
        assert(p[i] == y);
    }
}

pub proof fn lemma_no_dup_push<T>(s: Seq<T>, x: T)
    requires s.no_duplicates(), !s.contains(x),
    ensures s.push(x).no_duplicates(),
{
    let p = s.push(x);
    assert forall|i: int, j: int| 0 <= i < p.len() && 0 <= j < p.len() && i != j implies p[i] != p[j] by {
        if i < s.len() { assert(s.contains(s[i])); }
        if j < s.len() { assert(s.contains(s[j])); }
    }
}

pub proof fn lemma_with_node_wf(g: GV, id: usize)
    requires g.wf(), !g.has(id), g.nodes.len() < usize::MAX,
    ensures g.with_node(id).wf(),
{
    let h = g.with_node(id);
    lemma_contains_push(g.nodes, id);
    lemma_no_dup_push(g.nodes, id);
    assert forall|u: usize, v: usize| #[trigger] h.adj(u, v) <==> g.adj(u, v) by {
        if u == id { assert(h.nbrs[u] =~= Seq::<usize>::empty()); assert(!h.nbrs[u].contains(v)); }
    }
    assert forall|i: int| 0 <= i < h.edges.len() implies h.adj((#[trigger] h.edges[i]).0, h.edges[i].1) by {
        assert(g.adj(g.edges[i].0, g.edges[i].1));
    }
}

pub proof fn lemma_with_edge_adj(g: GV, s: usize, t: usize)
    requires g.has(s), g.has(t),
    ensures forall|u: usize, v: usize| #[trigger] g.with_edge(s, t).adj(u, v) <==> g.adj(u, v) || same((u, v), (s, t)),
{
    let h = g.with_edge(s, t);
    lemma_contains_push(g.nbrs[s], t);
    lemma_contains_push(g.nbrs[t], s);
}

pub proof fn lemma_with_edge_wf(g: GV, s: usize, t: usize)
    requires g.wf(), g.has(s), g.has(t), !g.adj(s, t),
    ensures g.with_edge(s, t).wf(),
{
    let h = g.with_edge(s, t);
    lemma_with_edge_adj(g, s, t);
    assert(!g.adj(t, s));
    lemma_no_dup_push(g.nbrs[s], t);
    lemma_no_dup_push(g.nbrs[t], s);
    assert forall|u: usize, v: usize| #[trigger] h.adj(u, v) implies listed(h.edges, u, v) by {
        lemma_listed_push(g.edges, (s, t), u, v);
        if g.adj(u, v) { assert(listed(g.edges, u, v)); }
    }
    assert forall|i: int| 0 <= i < h.edges.len() implies h.adj((#[trigger] h.edges[i]).0, h.edges[i].1) by {
        if i < g.edges.len() { assert(g.adj(g.edges[i].0, g.edges[i].1)); }
    }
    assert forall|i: int, j: int| 0 <= i < j < h.edges.len() implies !same(#[trigger] h.edges[i], #[trigger] h.edges[j]) by {
        if j == g.edges.len() { assert(g.adj(g.edges[i].0, g.edges[i].1)); assert(g.adj(g.edges[i].1, g.edges[i].0)); }
    }
}


/// duplicate-free sequences compare by size like the sets they list
pub proof fn lemma_seq_subset<T>(a: Seq<T>, b: Seq<T>)
    requires a.no_duplicates(), b.no_duplicates(), forall|x: T| a.contains(x) ==> b.contains(x),
    ensures a.len() <= b.len(), a.len() == b.len() ==> forall|x: T| b.contains(x) ==> a.contains(x),
{
    a.unique_seq_to_set();
    b.unique_seq_to_set();
    let (sa, sb) = (a.to_set(), b.to_set());
    assert forall|x: T| sa.contains(x) implies sb.contains(x) by { assert(a.contains(x)); }
    assert(sa.subset_of(sb));
    vstd::set_lib::lemma_len_subset(sa, sb);
    if a.len() == b.len() {
        vstd::set_lib::lemma_subset_equality(sa, sb);
        assert forall|x: T| b.contains(x) implies a.contains(x) by { assert(sb.contains(x)); }
    }
}

pub open spec fn norm(e: (usize, usize)) -> (usize, usize) { if e.0 <= e.1 { e } else { swap(e) } }
pub open spec fn norms(s: Seq<(usize, usize)>) -> Seq<(usize, usize)> { Seq::new(s.len(), |i: int| norm(s[i])) }

pub proof fn lemma_norms(s: Seq<(usize, usize)>)
    ensures
        pairs_distinct(s) ==> norms(s).no_duplicates(),
        forall|u: usize, v: usize| #[trigger] listed(s, u, v) <==> norms(s).contains(norm((u, v))),
{
    let n = norms(s);
    if pairs_distinct(s) {
        assert forall|i: int, j: int| 0 <= i < n.len() && 0 <= j < n.len() && i != j implies n[i] != n[j] by {
            if i < j { assert(!same(s[i], s[j])); } else { assert(!same(s[j], s[i])); }
        }
    }
    assert forall|u: usize, v: usize| #[trigger] listed(s, u, v) <==> n.contains(norm((u, v))) by {
        if s.contains((u, v)) {
            let i = choose|i: int| 0 <= i < s.len() && s[i] == (u, v);
            assert(n[i] == norm((u, v)));
        }
        if s.contains((v, u)) {
            let i = choose|i: int| 0 <= i < s.len() && s[i] == (v, u);
            assert(n[i] == norm((u, v)));
        }
        if n.contains(norm((u, v))) {
            let i = choose|i: int| 0 <= i < n.len() && n[i] == norm((u, v));
            assert(s[i] == (u, v) || s[i] == (v, u));
            assert(s.contains(s[i]));
        }
    }
}

pub proof fn lemma_same_graph_counts(g: GV, h: GV)
    requires g.wf(), h.wf(), g.same_graph(h),
    ensures g.nodes.len() == h.nodes.len(), g.edges.len() == h.edges.len(),
{
    assert forall|u: usize| g.nodes.contains(u) <==> h.nodes.contains(u) by { assert(g.has(u) <==> h.has(u)); }
    lemma_seq_subset(g.nodes, h.nodes);
    lemma_seq_subset(h.nodes, g.nodes);
    lemma_norms(g.edges);
    lemma_norms(h.edges);
    let (a, b) = (norms(g.edges), norms(h.edges));
    assert forall|x: (usize, usize)| a.contains(x) implies b.contains(x) by {
        let i = choose|i: int| 0 <= i < a.len() && a[i] == x;
        assert(g.adj(g.edges[i].0, g.edges[i].1));
        assert(h.adj(g.edges[i].0, g.edges[i].1));
        assert(listed(h.edges, g.edges[i].0, g.edges[i].1));
    }
    assert forall|x: (usize, usize)| b.contains(x) implies a.contains(x) by {
        let i = choose|i: int| 0 <= i < b.len() && b[i] == x;
        assert(h.adj(h.edges[i].0, h.edges[i].1));
        assert(g.adj(h.edges[i].0, h.edges[i].1));
        assert(listed(g.edges, h.edges[i].0, h.edges[i].1));
    }
    lemma_seq_subset(a, b);
    lemma_seq_subset(b, a);
}

pub proof fn lemma_counts_same_graph(g: GV, h: GV)
    requires
        g.wf(), h.wf(),
        g.nodes.len() == h.nodes.len(),
        g.edges.len() == h.edges.len(),
        forall|i: int| 0 <= i < g.nodes.len() ==> h.has(#[trigger] g.nodes[i]),
        forall|i: int| 0 <= i < g.edges.len() ==> h.adj((#[trigger] g.edges[i]).0, g.edges[i].1),
    ensures g.same_graph(h),
{
    assert forall|u: usize| g.nodes.contains(u) implies h.nodes.contains(u) by {
        let i = choose|i: int| 0 <= i < g.nodes.len() && g.nodes[i] == u;
        assert(h.has(g.nodes[i]));
    }
    lemma_seq_subset(g.nodes, h.nodes);
    assert forall|u: usize| g.has(u) <==> h.has(u) by { assert(g.nodes.contains(u) <==> h.nodes.contains(u)); }
    lemma_norms(g.edges);
    lemma_norms(h.edges);
    let (a, b) = (norms(g.edges), norms(h.edges));
    assert forall|x: (usize, usize)| a.contains(x) implies b.contains(x) by {
        let i = choose|i: int| 0 <= i < a.len() && a[i] == x;
        assert(h.adj(g.edges[i].0, g.edges[i].1));
        assert(listed(h.edges, g.edges[i].0, g.edges[i].1));
    }
    lemma_seq_subset(a, b);
    assert forall|u: usize, v: usize| g.adj(u, v) <==> h.adj(u, v) by {
        if g.adj(u, v) {
            assert(listed(g.edges, u, v));
            assert(b.contains(norm((u, v))));
            assert(listed(h.edges, u, v));
            lemma_listed_adj(h, u, v);
        }
        if h.adj(u, v) {
            assert(listed(h.edges, u, v));
            assert(a.contains(norm((u, v))));
            assert(listed(g.edges, u, v));
            lemma_listed_adj(g, u, v);
        }
    }
}

pub proof fn lemma_listed_adj(g: GV, u: usize, v: usize)
    requires g.wf(),
    ensures listed(g.edges, u, v) <==> g.adj(u, v),
{
    if g.edges.contains((u, v)) {
        let i = choose|i: int| 0 <= i < g.edges.len() && g.edges[i] == (u, v);
        assert(g.adj(g.edges[i].0, g.edges[i].1));
    }
    if g.edges.contains((v, u)) {
        let i = choose|i: int| 0 <= i < g.edges.len() && g.edges[i] == (v, u);
        assert(g.adj(g.edges[i].0, g.edges[i].1));
        assert(g.adj(v, u));
    }
}

// ------------------------------------------------------------------ edge lists

/// the graph an edge list describes, entry by entry
pub open spec fn ensure_node(g: GV, u: usize) -> GV { if g.has(u) { g } else { g.with_node(u) } }
pub open spec fn add_pair(g: GV, e: (usize, usize)) -> GV { ensure_node(ensure_node(g, e.0), e.1).with_edge(e.0, e.1) }
pub open spec fn from_pairs(s: Seq<(usize, usize)>, n: int) -> GV
    decreases n
{
    if n <= 0 { GV::empty() } else { add_pair(from_pairs(s, n - 1), s[n - 1]) }
}
pub proof fn lemma_from_pairs(s: Seq<(usize, usize)>, n: int)
    requires 0 <= n <= s.len(),
    ensures
        from_pairs(s, n).edges == s.subrange(0, n),
        forall|u: usize, v: usize| #[trigger] from_pairs(s, n).adj(u, v) <==> listed(s.subrange(0, n), u, v),
    decreases n,
{
    let g = from_pairs(s, n);
    if n > 0 {
        let p = from_pairs(s, n - 1);
        lemma_from_pairs(s, n - 1);
        let e = s[n - 1];
        assert(s.subrange(0, n) =~= s.subrange(0, n - 1).push(e));
        let q = ensure_node(ensure_node(p, e.0), e.1);
        assert forall|u: usize, v: usize| #[trigger] q.adj(u, v) <==> p.adj(u, v) by {
            lemma_ensure_node_adj(p, e.0);
            lemma_ensure_node_adj(ensure_node(p, e.0), e.1);
        }
        lemma_with_edge_adj(q, e.0, e.1);
        assert forall|u: usize, v: usize| #[trigger] g.adj(u, v) <==> listed(s.subrange(0, n), u, v) by {
            lemma_listed_push(s.subrange(0, n - 1), e, u, v);
            assert(q.adj(u, v) <==> p.adj(u, v));
        }
    } else {
        assert(s.subrange(0, 0) =~= Seq::empty());
    }
}
pub proof fn lemma_ensure_node_adj(g: GV, w: usize)
    ensures forall|u: usize, v: usize| #[trigger] ensure_node(g, w).adj(u, v) <==> g.adj(u, v),
{
    let h = ensure_node(g, w);
    assert forall|u: usize, v: usize| #[trigger] h.adj(u, v) <==> g.adj(u, v) by {
        if !g.has(w) && u == w { assert(!h.nbrs[u].contains(v)); }
    }
}
/// entry n of s repeats an earlier unordered pair
pub open spec fn repeats(s: Seq<(usize, usize)>, n: int) -> bool {
    0 <= n < s.len() && exists|i: int| 0 <= i < n && same(#[trigger] s[i], s[n])
}
pub proof fn lemma_repeats_listed(s: Seq<(usize, usize)>, n: int)
    requires 0 <= n < s.len(),
    ensures repeats(s, n) <==> listed(s.subrange(0, n), s[n].0, s[n].1),
{
    let p = s.subrange(0, n);
    if repeats(s, n) {
        let i = choose|i: int| 0 <= i < n && same(#[trigger] s[i], s[n]);
        assert(p[i] == s[i]);
    }
    if listed(p, s[n].0, s[n].1) {
        let x = if p.contains((s[n].0, s[n].1)) { (s[n].0, s[n].1) } else { (s[n].1, s[n].0) };
        let i = choose|i: int| 0 <= i < p.len() && p[i] == x;
        assert(same(s[i], s[n]));
    }
}

// ------------------------------------------------------------------ adjacency lists

pub open spec fn rows_of(v: Seq<Vec<usize>>) -> Seq<Seq<usize>> { Seq::new(v.len(), |i: int| v[i]@) }
/// entry j of row i is acceptable
pub open spec fn entry_missing_node(r: Seq<Seq<usize>>, i: int, j: int) -> bool { r[i][j] >= r.len() }
pub open spec fn entry_repeated(r: Seq<Seq<usize>>, i: int, j: int) -> bool { exists|k: int| 0 <= k < r[i].len() && k != j && r[i][k] == r[i][j] }
pub open spec fn entry_one_way(r: Seq<Seq<usize>>, i: int, j: int) -> bool { !r[r[i][j] as int].contains(i as usize) }
pub open spec fn entry_ok(r: Seq<Seq<usize>>, i: int, j: int) -> bool {
    !entry_missing_node(r, i, j) && !entry_repeated(r, i, j) && !entry_one_way(r, i, j)
}
/// e blames entry j of row i, and the entry really has the fault
pub open spec fn blames(r: Seq<Seq<usize>>, i: int, j: int, e: crate::graph::Error) -> bool {
    ||| e == crate::graph::Error::MissingNode(r[i][j]) && entry_missing_node(r, i, j)
    ||| e == crate::graph::Error::DuplicateEdge(i as usize, r[i][j]) && entry_repeated(r, i, j)
    ||| e == crate::graph::Error::MissingEdge(r[i][j], i as usize) && !entry_missing_node(r, i, j) && entry_one_way(r, i, j)
}
/// what a graph made from rows is: nodes 0 to n-1 in order, each with its row, every edge from its smaller end
pub open spec fn of_rows(r: Seq<Seq<usize>>, g: GV) -> bool {
    &&& g.nodes == Seq::new(r.len(), |i: int| i as usize)
    &&& forall|u: usize| u < r.len() ==> #[trigger] g.nbrs.contains_key(u) && g.nbrs[u] == r[u as int]
    &&& forall|i: int| 0 <= i < g.edges.len() ==> (#[trigger] g.edges[i]).0 <= g.edges[i].1
}
pub open spec fn adjacency_ok(r: Seq<Seq<usize>>) -> bool {
    forall|i: int, j: int| 0 <= i < r.len() && 0 <= j < r[i].len() ==> #[trigger] entry_ok(r, i, j)
}
/// the edges of row i among its first j entries, then of all rows before i: each edge once, from its lower end
pub open spec fn row_edges(row: Seq<usize>, i: int, j: int) -> Seq<(usize, usize)>
    decreases j
{
    if j <= 0 { Seq::empty() } else if i <= row[j - 1] { row_edges(row, i, j - 1).push((i as usize, row[j - 1])) } else { row_edges(row, i, j - 1) }
}
pub open spec fn rows_edges(r: Seq<Seq<usize>>, i: int) -> Seq<(usize, usize)>
    decreases i
{
    if i <= 0 { Seq::empty() } else { rows_edges(r, i - 1) + row_edges(r[i - 1], i - 1, r[i - 1].len() as int) }
}
pub proof fn lemma_row_edges(row: Seq<usize>, i: int, j: int)
    requires 0 <= j <= row.len(), 0 <= i <= usize::MAX,
    ensures
        forall|e: (usize, usize)| #[trigger] row_edges(row, i, j).contains(e) <==> e.0 == i && e.0 <= e.1 && row.subrange(0, j).contains(e.1),
        row.no_duplicates() ==> row_edges(row, i, j).no_duplicates(),
    decreases j,
{
    if j > 0 {
        lemma_row_edges(row, i, j - 1);
        let p = row_edges(row, i, j - 1);
        let x = (i as usize, row[j - 1]);
        lemma_contains_push(p, x);
        assert(row.subrange(0, j) =~= row.subrange(0, j - 1).push(row[j - 1]));
        lemma_contains_push(row.subrange(0, j - 1), row[j - 1]);
        if row.no_duplicates() && p.contains(x) {
            let q = row.subrange(0, j - 1);
            let k = choose|k: int| 0 <= k < q.len() && q[k] == row[j - 1];
            assert(row[k] == row[j - 1]);
        }
        if row.no_duplicates() && !p.contains(x) { lemma_no_dup_push(p, x); }
    } else {
        assert(row.subrange(0, 0) =~= Seq::empty());
    }
}
pub proof fn lemma_contains_add<T>(a: Seq<T>, b: Seq<T>)
    ensures forall|x: T| #[trigger] (a + b).contains(x) <==> a.contains(x) || b.contains(x),
{
    let c = a + b;
    assert forall|x: T| #[trigger] c.contains(x) <==> a.contains(x) || b.contains(x) by {
        if c.contains(x) {
            let i = choose|i: int| 0 <= i < c.len() && c[i] == x;
            if i < a.len() { assert(a[i] == x); } else { assert(b[i - a.len()] == x); }
        }
        if a.contains(x) {
            let i = choose|i: int| 0 <= i < a.len() && a[i] == x;
            assert(c[i] == x);
        }
        if b.contains(x) {
            let i = choose|i: int| 0 <= i < b.len() && b[i] == x;
            assert(c[a.len() + i] == x);
        }
    }
}
pub proof fn lemma_no_dup_add<T>(a: Seq<T>, b: Seq<T>)
    requires a.no_duplicates(), b.no_duplicates(), forall|x: T| a.contains(x) ==> !b.contains(x),
    ensures (a + b).no_duplicates(),
{
    let c = a + b;
    assert forall|i: int, j: int| 0 <= i < c.len() && 0 <= j < c.len() && i != j implies c[i] != c[j] by {
        if i < a.len() { assert(a.contains(c[i])); } else { assert(b.contains(b[i - a.len()])); }
        if j < a.len() { assert(a.contains(c[j])); } else { assert(b.contains(b[j - a.len()])); }
    }
}
pub proof fn lemma_rows_edges(r: Seq<Seq<usize>>, i: int)
    requires 0 <= i <= r.len() <= usize::MAX, forall|k: int| 0 <= k < r.len() ==> (#[trigger] r[k]).no_duplicates(),
    ensures
        forall|e: (usize, usize)| #[trigger] rows_edges(r, i).contains(e) <==> e.0 < i && e.0 <= e.1 && r[e.0 as int].contains(e.1),
        rows_edges(r, i).no_duplicates(),
    decreases i,
{
    if i > 0 {
        lemma_rows_edges(r, i - 1);
        let row = r[i - 1];
        lemma_row_edges(row, i - 1, row.len() as int);
        assert(row.subrange(0, row.len() as int) =~= row);
        lemma_contains_add(rows_edges(r, i - 1), row_edges(row, i - 1, row.len() as int));
        lemma_no_dup_add(rows_edges(r, i - 1), row_edges(row, i - 1, row.len() as int));
    }
}
pub open spec fn adjacency_gv(r: Seq<Seq<usize>>) -> GV {
    GV {
        nodes: Seq::new(r.len(), |i: int| i as usize),
        nbrs: Map::new(Seq::new(r.len(), |i: int| i as usize).to_set(), |u: usize| r[u as int]),
        edges: rows_edges(r, r.len() as int),
    }
}
/// nodes 0.. in order, each with its own number as its index
pub proof fn lemma_identity(nodes: Seq<usize>, indices: Map<usize, usize>)
    requires
        forall|i: int| 0 <= i < nodes.len() ==> #[trigger] nodes[i] == i,
        forall|u: usize| #[trigger] indices.contains_key(u) <==> u < nodes.len(),
        forall|u: usize| #[trigger] indices.contains_key(u) ==> indices[u] == u,
    ensures
        forall|i: int| 0 <= i < nodes.len() ==> indices.contains_key(#[trigger] nodes[i]) && indices[nodes[i]] == i,
        forall|u: usize| #[trigger] indices.contains_key(u) ==> indices[u] < nodes.len() && nodes[indices[u] as int] == u,
{
    assert forall|u: usize| #[trigger] indices.contains_key(u) implies indices[u] < nodes.len() && nodes[indices[u] as int] == u by {
        assert(indices[u] == u);
        assert(nodes[u as int] == u as int);
    }
}
pub proof fn lemma_adjacency_gv(r: Seq<Seq<usize>>)
    requires adjacency_ok(r), r.len() <= usize::MAX,
    ensures
        adjacency_gv(r).wf(),
        forall|u: usize| #[trigger] adjacency_gv(r).nbrs.contains_key(u) <==> u < r.len(),
        of_rows(r, adjacency_gv(r)),
{
    let g = adjacency_gv(r);
    assert forall|u: usize| #[trigger] g.nodes.contains(u) <==> u < r.len() by {
        if u < r.len() { assert(g.nodes[u as int] == u); }
    }
    assert forall|k: int| 0 <= k < r.len() implies (#[trigger] r[k]).no_duplicates() by {
        assert forall|a: int, b: int| 0 <= a < r[k].len() && 0 <= b < r[k].len() && a != b implies r[k][a] != r[k][b] by {
            assert(entry_ok(r, k, a));
        }
    }
    lemma_rows_edges(r, r.len() as int);
    assert forall|u: usize, v: usize| #[trigger] g.adj(u, v) implies g.adj(v, u) by {
        let j = choose|j: int| 0 <= j < r[u as int].len() && r[u as int][j] == v;
        assert(entry_ok(r, u as int, j));
    }
    assert forall|u: usize, v: usize| #[trigger] g.adj(u, v) implies listed(g.edges, u, v) by {
        assert(g.adj(v, u));
        if u <= v { assert(g.edges.contains((u, v))); } else { assert(g.edges.contains((v, u))); }
    }
    assert forall|i: int| 0 <= i < g.edges.len() implies (#[trigger] g.edges[i]).0 <= g.edges[i].1 && g.adj(g.edges[i].0, g.edges[i].1) by {
        assert(g.edges.contains(g.edges[i]));
    }
    assert forall|i: int, j: int| 0 <= i < j < g.edges.len() implies !same(#[trigger] g.edges[i], #[trigger] g.edges[j]) by {
        assert(g.edges.contains(g.edges[i]));
        assert(g.edges.contains(g.edges[j]));
    }
}

} // verus!
}
