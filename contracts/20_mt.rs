pub mod mt {
#[allow(unused_imports)] use vstd::prelude::*;
#[allow(unused_imports)] use crate::vx::*;
#[allow(unused_imports)] use crate::th::*;
verus! {

// ================================================================== pairings

pub type PM = Map<usize, usize>;

/// mates are mutual and nobody is its own mate
pub open spec fn mwf(m: PM) -> bool {
    forall|u: usize| #[trigger] m.contains_key(u) ==> m.contains_key(m[u]) && m[m[u]] == u && m[u] != u
}
/// m after s and t become mates: their former mates are freed, nobody else changes
pub open spec fn paired(m: PM, s: usize, t: usize, r: PM) -> bool {
    &&& r.contains_pair(s, t)
    &&& r.contains_pair(t, s)
    &&& forall|u: usize| u != s && u != t ==> (#[trigger] r.contains_key(u) <==> m.contains_key(u) && m[u] != s && m[u] != t)
    &&& forall|u: usize| u != s && u != t && #[trigger] r.contains_key(u) ==> r[u] == m[u]
}
/// one half of pairing, as a function on maps
pub open spec fn half(m: PM, s: usize, t: usize) -> PM {
    if m.contains_key(s) {
        if m[s] == t { m } else { m.insert(s, t).remove(m[s]) }
    } else { m.insert(s, t) }
}
pub open spec fn pair_map(m: PM, s: usize, t: usize) -> PM { half(half(m, s, t), t, s) }

pub proof fn lemma_pair_map(m: PM, s: usize, t: usize)
    requires mwf(m), s != t,
    ensures mwf(pair_map(m, s, t)), paired(m, s, t, pair_map(m, s, t)),
{
    let a = half(m, s, t);
    let r = pair_map(m, s, t);
    assert forall|u: usize| u != s && u != t implies (#[trigger] r.contains_key(u) <==> m.contains_key(u) && m[u] != s && m[u] != t) by {
        if m.contains_key(u) {
            assert(m.contains_key(m[u]) && m[m[u]] == u);
        }
        if m.contains_key(s) { assert(m.contains_key(m[s]) && m[m[s]] == s); }
        if m.contains_key(t) { assert(m.contains_key(m[t]) && m[m[t]] == t); }
    }
    assert(r.contains_pair(s, t)) by {
        if m.contains_key(s) { assert(m.contains_key(m[s]) && m[m[s]] == s); }
        if m.contains_key(t) { assert(m.contains_key(m[t]) && m[m[t]] == t); }
    }
    assert forall|u: usize| #[trigger] r.contains_key(u) implies r.contains_key(r[u]) && r[r[u]] == u && r[u] != u by {
        if u != s && u != t {
            assert(m.contains_key(u));
            assert(m.contains_key(m[u]) && m[m[u]] == u);
            assert(r.contains_key(m[u]));
        }
    }
}

/// what `edges` reports: each matched pair once, smaller node first
pub open spec fn pairs_of(s: Seq<(usize, usize)>, m: PM) -> bool {
    &&& s.no_duplicates()
    &&& forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0 < s[i].1 && m.contains_pair(s[i].0, s[i].1)
    &&& forall|u: usize| #[trigger] m.contains_key(u) && u < m[u] ==> s.contains((u, m[u]))
}

/// m after pairing p[0] p[1], p[2] p[3], ... up to index n
pub open spec fn augmented(m: PM, p: Seq<usize>, n: int) -> PM
    decreases n
{
    if n <= 0 { m } else if (n - 1) % 2 == 0 { pair_map(augmented(m, p, n - 1), p[n - 1], p[n]) } else { augmented(m, p, n - 1) }
}
pub open spec fn steps_distinct(p: Seq<usize>) -> bool {
    forall|i: int| 0 <= i < p.len() - 1 && i % 2 == 0 ==> #[trigger] p[i] != p[i + 1]
}
pub proof fn lemma_augmented_wf(m: PM, p: Seq<usize>, n: int)
    requires mwf(m), steps_distinct(p), 0 <= n <= p.len(), p.len() % 2 == 0,
    ensures mwf(augmented(m, p, n)),
    decreases n,
{
    if n > 0 {
        lemma_augmented_wf(m, p, n - 1);
        if (n - 1) % 2 == 0 { lemma_pair_map(augmented(m, p, n - 1), p[n - 1], p[n]); }
    }
}
/// after augmenting along a path without repeats consecutive nodes are mates; a node off the path keeps its
/// mate unless the mate is on the path, and then it is free
pub open spec fn aug_result(m: PM, p: Seq<usize>, r: PM) -> bool {
    &&& forall|i: int| 0 <= i < p.len() && i % 2 == 0 ==> r.contains_pair(#[trigger] p[i], p[i + 1]) && r.contains_pair(p[i + 1], p[i])
    &&& forall|u: usize| !p.contains(u) ==> (#[trigger] r.contains_key(u) <==> m.contains_key(u) && !p.contains(m[u]))
    &&& forall|u: usize| !p.contains(u) && #[trigger] r.contains_key(u) ==> r[u] == m[u]
}
pub proof fn lemma_augmented(m: PM, p: Seq<usize>, n: int)
    requires mwf(m), p.no_duplicates(), p.len() % 2 == 0, 0 <= n <= p.len(), n % 2 == 0,
    ensures mwf(augmented(m, p, n)), aug_result(m, p.subrange(0, n), augmented(m, p, n)),
    decreases n,
{
    let q = p.subrange(0, n);
    let r = augmented(m, p, n);
    if n > 0 {
        lemma_augmented(m, p, n - 2);
        let q0 = p.subrange(0, n - 2);
        let r0 = augmented(m, p, n - 2);
        let (s, t) = (p[n - 2], p[n - 1]);
        assert(augmented(m, p, n - 1) == pair_map(r0, s, t));
        assert(r == pair_map(r0, s, t));
        lemma_pair_map(r0, s, t);
        assert(q =~= q0.push(s).push(t));
        lemma_contains_push(q0, s);
        lemma_contains_push(q0.push(s), t);
        assert(!q0.contains(s) && !q0.contains(t)) by {
            if q0.contains(s) { let k = choose|k: int| 0 <= k < q0.len() && q0[k] == s; assert(p[k] == p[n - 2]); }
            if q0.contains(t) { let k = choose|k: int| 0 <= k < q0.len() && q0[k] == t; assert(p[k] == p[n - 1]); }
        }
        assert forall|i: int| 0 <= i < q.len() && i % 2 == 0 implies r.contains_pair(#[trigger] q[i], q[i + 1]) && r.contains_pair(q[i + 1], q[i]) by {
            if i < n - 2 {
                assert(q0[i] == q[i] && q0[i + 1] == q[i + 1]);
                assert(q0.contains(q0[i]) && q0.contains(q0[i + 1]));
                assert(r0.contains_pair(q0[i], q0[i + 1]));
                assert(r.contains_key(q[i]));
                assert(r.contains_key(q[i + 1]));
            }
        }
    } else {
        assert(q =~= Seq::empty());
    }
}


// ================================================================== forests

/// a forest of alternating trees: insertion order, parents, and whether a node lies at even depth
pub struct FV { pub nodes: Seq<usize>, pub par: Map<usize, Option<usize>>, pub even: Map<usize, bool> }

impl FV {
    pub open spec fn has(self, u: usize) -> bool { self.par.contains_key(u) }
    pub open spec fn idx(self, u: usize) -> int { self.nodes.index_of(u) }
    pub open spec fn is_even(self, u: usize) -> bool { self.has(u) && self.even[u] }
    pub open spec fn is_odd(self, u: usize) -> bool { self.has(u) && !self.even[u] }
    pub open spec fn wf(self) -> bool {
        &&& self.nodes.no_duplicates()
        &&& forall|u: usize| #[trigger] self.nodes.contains(u) <==> self.par.contains_key(u)
        &&& forall|u: usize| #[trigger] self.even.contains_key(u) <==> self.par.contains_key(u)
        &&& forall|u: usize| #[trigger] self.par.contains_key(u) ==> match self.par[u] {
            Some(p) => self.par.contains_key(p) && self.idx(p) < self.idx(u) && self.even[u] == !self.even[p],
            None => self.even[u],
        }
    }
    pub open spec fn with_root(self, u: usize) -> FV {
        FV { nodes: self.nodes.push(u), par: self.par.insert(u, None), even: self.even.insert(u, true) }
    }
    pub open spec fn with_child(self, p: usize, u: usize) -> FV {
        FV { nodes: self.nodes.push(u), par: self.par.insert(u, Some(p)), even: self.even.insert(u, !self.even[p]) }
    }
    /// u, its parent, ..., its root
    pub open spec fn chain(self, u: usize) -> Seq<usize>
        decreases self.idx(u)
    {
        match self.par[u] {
            Some(p) => if 0 <= self.idx(p) < self.idx(u) { seq![u] + self.chain(p) } else { seq![u] },
            None => seq![u],
        }
    }
    pub open spec fn chain_opt(self, u: Option<usize>) -> Seq<usize> {
        match u { None => Seq::empty(), Some(p) => self.chain(p) }
    }
}
pub proof fn lemma_chain_step(f: FV, u: usize)
    requires f.wf(), f.has(u),
    ensures
        f.chain(u) == seq![u] + f.chain_opt(f.par[u]),
        f.nodes.contains(u), 0 <= f.idx(u) < f.nodes.len(), f.nodes[f.idx(u)] == u,
        f.par[u] is Some ==> f.has(f.par[u]->0) && 0 <= f.idx(f.par[u]->0) < f.idx(u),
{
    assert(f.nodes.contains(u));
    if f.par[u] is Some {
        assert(f.has(f.par[u]->0));
        assert(f.nodes.contains(f.par[u]->0));
    } else {
        assert(seq![u] + Seq::<usize>::empty() =~= seq![u]);
    }
}
pub proof fn lemma_index_push(s: Seq<usize>, x: usize)
    requires s.no_duplicates(), !s.contains(x),
    ensures
        forall|u: usize| s.contains(u) ==> #[trigger] s.push(x).index_of(u) == s.index_of(u),
        s.push(x).index_of(x) == s.len(),
{
    let p = s.push(x);
    lemma_no_dup_push(s, x);
    assert(p[s.len() as int] == x);
    assert(p.contains(x));
    assert forall|u: usize| s.contains(u) implies #[trigger] p.index_of(u) == s.index_of(u) by {
        let i = s.index_of(u);
        assert(s[i] == u && 0 <= i < s.len());
        assert(p[i] == u);
        assert(p.contains(u));
        let j = p.index_of(u);
        assert(p[j] == u && 0 <= j < p.len());
    }
    let j = p.index_of(x);
    assert(p[j] == x && 0 <= j < p.len());
}
pub proof fn lemma_with_root_wf(f: FV, u: usize)
    requires f.wf(), !f.has(u),
    ensures f.with_root(u).wf(),
{
    let h = f.with_root(u);
    assert(!f.nodes.contains(u));
    lemma_contains_push(f.nodes, u);
    lemma_no_dup_push(f.nodes, u);
    lemma_index_push(f.nodes, u);
    assert forall|x: usize| #[trigger] h.par.contains_key(x) implies match h.par[x] {
        Some(p) => h.par.contains_key(p) && h.idx(p) < h.idx(x) && h.even[x] == !h.even[p],
        None => h.even[x],
    } by {
        if x != u {
            assert(f.par.contains_key(x));
            assert(f.nodes.contains(x));
            if f.par[x] is Some { assert(f.par.contains_key(f.par[x]->0)); assert(f.nodes.contains(f.par[x]->0)); }
        }
    }
}
pub proof fn lemma_with_child_wf(f: FV, q: usize, u: usize)
    requires f.wf(), !f.has(u), f.has(q),
    ensures f.with_child(q, u).wf(),
{
    let h = f.with_child(q, u);
    assert(!f.nodes.contains(u));
    lemma_contains_push(f.nodes, u);
    lemma_no_dup_push(f.nodes, u);
    lemma_index_push(f.nodes, u);
    assert forall|x: usize| #[trigger] h.par.contains_key(x) implies match h.par[x] {
        Some(p) => h.par.contains_key(p) && h.idx(p) < h.idx(x) && h.even[x] == !h.even[p],
        None => h.even[x],
    } by {
        if x != u {
            assert(f.par.contains_key(x));
            assert(f.nodes.contains(x));
            if f.par[x] is Some { assert(f.par.contains_key(f.par[x]->0)); assert(f.nodes.contains(f.par[x]->0)); }
        } else {
            assert(f.nodes.contains(q));
        }
    }
}

// ================================================================== markers

pub open spec fn marked(e: Map<usize, Seq<usize>>, s: usize, t: usize) -> bool { e.contains_key(s) && e[s].contains(t) }

} // verus!
}
