pub mod mm {
#[allow(unused_imports)] use vstd::prelude::*;
#[allow(unused_imports)] use crate::vx::*;
#[allow(unused_imports)] use crate::th::*;
#[allow(unused_imports)] use crate::mt::*;
verus! {

// ================================================================== matchings of a graph

pub open spec fn is_matching(g: GV, m: PM) -> bool {
    mwf(m) && forall|u: usize| #[trigger] m.contains_key(u) ==> g.adj(u, m[u])
}
pub open spec fn maximum(g: GV, m: PM) -> bool {
    forall|n: PM| is_matching(g, n) ==> #[trigger] n.dom().len() <= m.dom().len()
}
pub open spec fn maximal(g: GV, m: PM) -> bool {
    forall|u: usize, v: usize| #[trigger] g.adj(u, v) && u != v ==> m.contains_key(u) || m.contains_key(v)
}

// ------------------------------------------------------------------ augmenting paths

pub open spec fn ends(p: Seq<usize>, m: PM, x: usize, y: usize) -> bool {
    &&& x != y && p.contains(x) && p.contains(y) && !m.contains_key(x) && !m.contains_key(y)
    &&& forall|z: usize| #[trigger] p.contains(z) && z != x && z != y ==> m.contains_key(z) && p.contains(m[z])
}
pub open spec fn step_at(p: Seq<usize>, g: GV, i: int) -> bool { g.adj(p[i], p[i + 1]) }
pub open spec fn steps_adjacent(p: Seq<usize>, g: GV) -> bool {
    forall|i: int| 0 <= i < p.len() - 1 && i % 2 == 0 ==> #[trigger] step_at(p, g, i)
}
/// pairing consecutive nodes of p turns the matching m into one with two more nodes
pub open spec fn aug_ok(p: Seq<usize>, g: GV, m: PM) -> bool {
    &&& p.len() % 2 == 0
    &&& p.no_duplicates()
    &&& steps_adjacent(p, g)
    &&& exists|x: usize, y: usize| #[trigger] ends(p, m, x, y)
}
pub proof fn lemma_aug(p: Seq<usize>, g: GV, m: PM, r: PM)
    requires g.wf(), is_matching(g, m), aug_ok(p, g, m), aug_result(m, p, r), mwf(r),
    ensures
        is_matching(g, r),
        r.dom().len() == m.dom().len() + 2,
        forall|u: usize| #[trigger] m.contains_key(u) ==> r.contains_key(u),
{
    let (x, y) = choose|x: usize, y: usize| #[trigger] ends(p, m, x, y);
    assert forall|u: usize| p.contains(u) implies #[trigger] r.contains_key(u) && g.adj(u, r[u]) by {
        let i = choose|i: int| 0 <= i < p.len() && p[i] == u;
        if i % 2 == 0 {
            assert(r.contains_pair(p[i], p[i + 1]));
            assert(step_at(p, g, i));
        } else {
            let k = i - 1;
            assert(r.contains_pair(p[k], p[k + 1]) && r.contains_pair(p[k + 1], p[k]));
            assert(step_at(p, g, k));
        }
    }
    assert forall|u: usize| !p.contains(u) implies (#[trigger] r.contains_key(u) <==> m.contains_key(u)) by {
        if m.contains_key(u) && p.contains(m[u]) {
            assert(m.contains_key(m[u]) && m[m[u]] == u);
        }
    }
    assert forall|u: usize| #[trigger] r.contains_key(u) implies g.adj(u, r[u]) by {
        if !p.contains(u) { assert(m.contains_key(u)); }
    }
    assert forall|u: usize| #[trigger] r.contains_key(u) <==> m.contains_key(u) || u == x || u == y by {
        if p.contains(u) && u != x && u != y { assert(m.contains_key(u)); }
    }
    assert(r.dom() =~= m.dom().insert(x).insert(y));
}

// ------------------------------------------------------------------ counting

pub proof fn lemma_inj(a: Set<usize>, b: Set<usize>, f: spec_fn(usize) -> usize)
    requires
        forall|x: usize| a.contains(x) ==> b.contains(#[trigger] f(x)),
        forall|x: usize, y: usize| a.contains(x) && a.contains(y) && x != y ==> #[trigger] f(x) != #[trigger] f(y),
    ensures a.len() <= b.len(),
    decreases a.len(),
{
    if a.len() > 0 {
        let x = a.choose();
        assert(a.contains(x));
        assert(b.contains(f(x)));
        let (a2, b2) = (a.remove(x), b.remove(f(x)));
        assert forall|y: usize| a2.contains(y) implies b2.contains(#[trigger] f(y)) by {
            assert(f(y) != f(x));
        }
        lemma_inj(a2, b2, f);
        assert(a2.len() == a.len() - 1);
        assert(b2.len() == b.len() - 1);
    }
}
pub open spec fn involution_on(s: Set<usize>, m: PM) -> bool {
    forall|u: usize| #[trigger] s.contains(u) ==> m.contains_key(u) && s.contains(m[u]) && m[u] != u && m[m[u]] == u
}
pub proof fn lemma_involution_even(s: Set<usize>, m: PM)
    requires involution_on(s, m),
    ensures s.len() % 2 == 0,
    decreases s.len(),
{
    if s.len() > 0 {
        let u = s.choose();
        assert(s.contains(u));
        let v = m[u];
        assert(s.contains(v) && m[v] == u);
        let t = s.remove(u).remove(v);
        assert forall|x: usize| #[trigger] t.contains(x) implies m.contains_key(x) && t.contains(m[x]) && m[x] != x && m[m[x]] == x by {
            assert(s.contains(x));
            assert(s.contains(m[x]) && m[m[x]] == x);
            if m[x] == u { assert(x == v); }
            if m[x] == v { assert(x == m[v]); }
        }
        assert(t.len() == s.len() - 2);
        lemma_involution_even(t, m);
    }
}

// ------------------------------------------------------------------ certificates of maximality

pub open spec fn tip(g: GV, m: PM, us: Set<usize>, t: usize) -> bool {
    g.has(t) && !us.contains(t) && (m.contains_key(t) ==> us.contains(m[t]))
}
/// removing us leaves classes no edge leaves, each with at most one node not matched within it
pub open spec fn cert(g: GV, m: PM, us: Set<usize>, cls: spec_fn(usize) -> int) -> bool {
    &&& forall|u: usize, v: usize| #[trigger] g.adj(u, v) && !us.contains(u) && !us.contains(v) ==> cls(u) == cls(v)
    &&& forall|u: usize| #[trigger] us.contains(u) ==> m.contains_key(u) && !us.contains(m[u])
    &&& forall|s: usize, t: usize| #[trigger] tip(g, m, us, s) && #[trigger] tip(g, m, us, t) && s != t ==> cls(s) != cls(t)
}
pub open spec fn has_cert(g: GV, m: PM) -> bool {
    exists|us: Set<usize>, cls: spec_fn(usize) -> int| #[trigger] cert(g, m, us, cls)
}

pub open spec fn class_of(g: GV, us: Set<usize>, cls: spec_fn(usize) -> int, t: usize) -> Set<usize> {
    g.nodes.to_set().filter(|u: usize| !us.contains(u) && cls(u) == cls(t))
}
/// w is in the class of t and n does not match it within the class
pub open spec fn witness(g: GV, n: PM, us: Set<usize>, cls: spec_fn(usize) -> int, t: usize, w: usize) -> bool {
    class_of(g, us, cls, t).contains(w) && (n.contains_key(w) ==> us.contains(n[w]))
}
pub proof fn lemma_no_witness_closed(g: GV, n: PM, us: Set<usize>, cls: spec_fn(usize) -> int, t: usize)
    requires
        g.wf(), is_matching(g, n), forall|w: usize| !witness(g, n, us, cls, t, w),
        forall|u: usize, v: usize| #[trigger] g.adj(u, v) && !us.contains(u) && !us.contains(v) ==> cls(u) == cls(v),
    ensures involution_on(class_of(g, us, cls, t), n),
{
    let c = class_of(g, us, cls, t);
    assert forall|u: usize| #[trigger] c.contains(u) implies n.contains_key(u) && c.contains(n[u]) && n[u] != u && n[n[u]] == u by {
        assert(!witness(g, n, us, cls, t, u));
        assert(g.adj(u, n[u]));
        assert(g.adj(n[u], u));
        assert(g.nodes.contains(n[u]));
    }
}

pub proof fn lemma_tip_rest_closed(g: GV, m: PM, us: Set<usize>, cls: spec_fn(usize) -> int, t: usize)
    requires g.wf(), is_matching(g, m), cert(g, m, us, cls), tip(g, m, us, t),
    ensures involution_on(class_of(g, us, cls, t).remove(t), m), class_of(g, us, cls, t).contains(t),
{
    assert(g.nodes.contains(t));
    let c = class_of(g, us, cls, t);
    let d = c.remove(t);
    assert forall|u: usize| #[trigger] d.contains(u) implies m.contains_key(u) && d.contains(m[u]) && m[u] != u && m[m[u]] == u by {
        assert(c.contains(u));
        assert(g.nodes.contains(u));
        if tip(g, m, us, u) { assert(cls(u) != cls(t)); }
        assert(m.contains_key(u) && !us.contains(m[u]));
        assert(g.adj(u, m[u]));
        assert(g.adj(m[u], u));
        assert(g.nodes.contains(m[u]));
        assert(m[m[u]] == u);
        assert(cls(u) == cls(m[u]));
        if m[u] == t { assert(m.contains_key(t) && m[t] == u); }
    }
}

pub proof fn lemma_witness(g: GV, m: PM, n: PM, us: Set<usize>, cls: spec_fn(usize) -> int, t: usize)
    requires g.wf(), is_matching(g, m), is_matching(g, n), cert(g, m, us, cls), tip(g, m, us, t),
    ensures exists|w: usize| witness(g, n, us, cls, t, w),
{
    hide(class_of); hide(is_matching); hide(tip); hide(witness); hide(involution_on);
    let c = class_of(g, us, cls, t);
    if forall|w: usize| !witness(g, n, us, cls, t, w) {
        lemma_no_witness_closed(g, n, us, cls, t);
        lemma_involution_even(c, n);
        lemma_tip_rest_closed(g, m, us, cls, t);
        lemma_involution_even(c.remove(t), m);
        assert(c.remove(t).len() == c.len() - 1);
        assert(false);
    }
}

pub proof fn lemma_exposed_count(g: GV, m: PM)
    requires g.wf(), is_matching(g, m),
    ensures
        g.nodes.to_set().filter(|u: usize| !m.contains_key(u)).len() + m.dom().len() == g.nodes.len(),
{
    let v = g.nodes.to_set();
    let e = v.filter(|u: usize| !m.contains_key(u));
    g.nodes.unique_seq_to_set();
    assert forall|u: usize| m.contains_key(u) implies v.contains(u) by {
        assert(g.adj(u, m[u]));
        assert(g.nodes.contains(u));
    }
    assert(v =~= e.union(m.dom()));
    assert(e.disjoint(m.dom()));
    vstd::set_lib::lemma_set_disjoint_lens(e, m.dom());
}

pub proof fn lemma_cert_bound(g: GV, m: PM, us: Set<usize>, cls: spec_fn(usize) -> int, n: PM)
    requires g.wf(), is_matching(g, m), is_matching(g, n), cert(g, m, us, cls),
    ensures n.dom().len() <= m.dom().len(),
{
    let v = g.nodes.to_set();
    let em = v.filter(|u: usize| !m.contains_key(u));
    let en = v.filter(|u: usize| !n.contains_key(u));
    let tips = v.filter(|u: usize| tip(g, m, us, u));
    lemma_exposed_count(g, m);
    lemma_exposed_count(g, n);
    assert forall|u: usize| #[trigger] v.contains(u) <==> g.has(u) by { assert(g.nodes.contains(u) <==> g.has(u)); }
    // exposed nodes and us inject into the tips
    let a = em.union(us);
    let f = |u: usize| if us.contains(u) { m[u] } else { u };
    assert forall|x: usize| a.contains(x) implies tips.contains(#[trigger] f(x)) by {
        if us.contains(x) {
            assert(m.contains_key(x) && m.contains_key(m[x]) && m[m[x]] == x);
            assert(g.adj(m[x], x));
        }
    }
    assert forall|x: usize, y: usize| a.contains(x) && a.contains(y) && x != y implies #[trigger] f(x) != #[trigger] f(y) by {
        if us.contains(x) { assert(m.contains_key(x) && m.contains_key(m[x]) && m[m[x]] == x); }
        if us.contains(y) { assert(m.contains_key(y) && m.contains_key(m[y]) && m[m[y]] == y); }
    }
    lemma_inj(a, tips, f);
    assert(em.disjoint(us));
    vstd::set_lib::lemma_set_disjoint_lens(em, us);
    // tips inject into the nodes exposed by n and us
    let b = en.union(us);
    let wit = |t: usize| choose|w: usize| witness(g, n, us, cls, t, w);
    let h = |t: usize| if n.contains_key(wit(t)) { n[wit(t)] } else { wit(t) };
    assert forall|t: usize| tips.contains(t) implies witness(g, n, us, cls, t, #[trigger] wit(t)) by {
        lemma_witness(g, m, n, us, cls, t);
    }
    assert forall|x: usize| tips.contains(x) implies b.contains(#[trigger] h(x)) by {
        assert(witness(g, n, us, cls, x, wit(x)));
    }
    assert forall|x: usize, y: usize| tips.contains(x) && tips.contains(y) && x != y implies #[trigger] h(x) != #[trigger] h(y) by {
        assert(witness(g, n, us, cls, x, wit(x)));
        assert(witness(g, n, us, cls, y, wit(y)));
        assert(tip(g, m, us, x) && tip(g, m, us, y));
        assert(wit(x) != wit(y));
        if n.contains_key(wit(x)) { assert(n[n[wit(x)]] == wit(x)); }
        if n.contains_key(wit(y)) { assert(n[n[wit(y)]] == wit(y)); }
    }
    lemma_inj(tips, b, h);
    vstd::set_lib::lemma_len_union(en, us);
}
pub proof fn lemma_cert_maximum(g: GV, m: PM)
    requires g.wf(), is_matching(g, m), has_cert(g, m),
    ensures maximum(g, m),
{
    let (us, cls) = choose|us: Set<usize>, cls: spec_fn(usize) -> int| #[trigger] cert(g, m, us, cls);
    assert forall|n: PM| is_matching(g, n) implies #[trigger] n.dom().len() <= m.dom().len() by {
        lemma_cert_bound(g, m, us, cls, n);
    }
}

// ------------------------------------------------------------------ the search forest

/// trees of alternating paths from exposed roots
pub open spec fn alt(g: GV, m: PM, f: FV) -> bool {
    &&& f.wf()
    &&& forall|u: usize| #[trigger] f.has(u) ==> g.has(u)
    &&& forall|u: usize| #[trigger] f.has(u) && f.par[u] is None ==> !m.contains_key(u)
    &&& forall|u: usize| #[trigger] f.has(u) && f.par[u] is Some && f.even[u] ==> m.contains_pair(u, f.par[u]->0)
    &&& forall|u: usize| #[trigger] f.has(u) && !f.even[u] ==> g.adj(f.par[u]->0, u) && m.contains_key(u) && f.has(m[u]) && f.par[m[u]] == Some(u)
}
pub open spec fn mark_ok(m: PM, f: FV, a: usize, b: usize) -> bool {
    m.contains_pair(a, b) || (f.is_even(a) && f.is_odd(b)) || (f.is_odd(a) && f.is_even(b))
}

pub proof fn lemma_final(g: GV, m: PM, f: FV)
    requires
        g.wf(), is_matching(g, m), alt(g, m, f),
        forall|u: usize| #[trigger] g.has(u) && !m.contains_key(u) ==> f.has(u),
        forall|u: usize, v: usize| f.is_even(u) && #[trigger] g.adj(u, v) ==> mark_ok(m, f, u, v),
    ensures has_cert(g, m),
{
    let us = g.nodes.to_set().filter(|u: usize| f.is_odd(u));
    let cls = |u: usize| if f.is_even(u) { u + 1 } else { 0int };
    assert forall|u: usize| #[trigger] us.contains(u) <==> f.is_odd(u) by {
        if f.is_odd(u) { assert(f.has(u)); assert(g.has(u)); assert(g.nodes.contains(u)); }
    }
    assert forall|u: usize, v: usize| f.is_even(u) && #[trigger] g.adj(u, v) implies f.is_odd(v) by {
        assert(mark_ok(m, f, u, v));
        if m.contains_pair(u, v) {
            assert(f.has(u));
            if f.par[u] is Some { assert(f.has(f.par[u]->0)); }
        }
    }
    assert forall|u: usize, v: usize| #[trigger] g.adj(u, v) && !us.contains(u) && !us.contains(v) implies cls(u) == cls(v) by {
        assert(g.adj(v, u));
        if f.is_even(u) { assert(f.is_odd(v)); }
        if f.is_even(v) { assert(f.is_odd(u)); }
    }
    assert forall|u: usize| #[trigger] us.contains(u) implies m.contains_key(u) && !us.contains(m[u]) by {
        assert(f.has(u));
        assert(f.has(m[u]) && f.par[m[u]] == Some(u));
    }
    assert forall|t: usize| #[trigger] tip(g, m, us, t) implies f.is_even(t) by {
        if m.contains_key(t) {
            let o = m[t];
            assert(us.contains(o));
            assert(f.has(o));
            assert(m[o] == t);
            assert(f.has(t) && f.par[t] == Some(o));
        } else {
            assert(g.has(t));
            assert(f.has(t));
            if !f.even[t] { assert(m.contains_key(t)); }
        }
    }
    assert(cert(g, m, us, cls));
}

// ------------------------------------------------------------------ chains

pub open spec fn chain_at(f: FV, c: Seq<usize>, u: usize, i: int) -> bool {
    f.has(c[i]) && f.even[c[i]] == (f.even[u] == (i % 2 == 0)) && f.chain(c[i]) == c.skip(i)
}
pub open spec fn chain_link(f: FV, c: Seq<usize>, i: int) -> bool { f.par[c[i]] == Some(c[i + 1]) }
pub open spec fn chain_down(f: FV, c: Seq<usize>, i: int, j: int) -> bool { f.idx(c[j]) < f.idx(c[i]) }
pub open spec fn chain_ok(f: FV, c: Seq<usize>, u: usize) -> bool {
    &&& c.len() >= 1 && c[0] == u
    &&& forall|i: int| 0 <= i < c.len() ==> #[trigger] chain_at(f, c, u, i)
    &&& forall|i: int| 0 <= i < c.len() - 1 ==> #[trigger] chain_link(f, c, i)
    &&& f.par[c.last()] is None
    &&& forall|i: int, j: int| 0 <= i < j < c.len() ==> #[trigger] chain_down(f, c, i, j)
}
pub proof fn lemma_chain(f: FV, u: usize)
    requires f.wf(), f.has(u),
    ensures chain_ok(f, f.chain(u), u),
    decreases f.idx(u),
{
    hide(FV::chain);
    lemma_chain_step(f, u);
    let c = f.chain(u);
    assert(c.skip(0) =~= c);
    if f.par[u] is Some {
        let q = f.par[u]->0;
        lemma_chain(f, q);
        let d = f.chain(q);
        assert(c == seq![u] + d);
        assert(f.has(u) && f.even[u] == !f.even[q]);
        lemma_chain_cons(f, u, q, c, d);
    } else {
        assert(c =~= seq![u]);
        assert(chain_at(f, c, u, 0));
    }
}
proof fn lemma_chain_cons(f: FV, u: usize, q: usize, c: Seq<usize>, d: Seq<usize>)
    requires
        chain_ok(f, d, q), c == seq![u] + d, f.has(u), f.chain(u) == c, f.par[u] == Some(q), f.even[u] == !f.even[q], f.idx(q) < f.idx(u),
    ensures chain_ok(f, c, u),
{
    hide(FV::chain);
    assert forall|i: int| 0 <= i < c.len() implies #[trigger] chain_at(f, c, u, i) by {
        if i > 0 {
            assert(chain_at(f, d, q, i - 1));
            assert(c[i] == d[i - 1]);
            assert(c.skip(i) =~= d.skip(i - 1));
        } else {
            assert(c.skip(0) =~= c);
        }
    }
    assert forall|i: int| 0 <= i < c.len() - 1 implies #[trigger] chain_link(f, c, i) by {
        if i > 0 { assert(chain_link(f, d, i - 1)); }
    }
    assert(c.last() == d.last());
    assert forall|i: int, j: int| 0 <= i < j < c.len() implies #[trigger] chain_down(f, c, i, j) by {
        if i > 0 { assert(chain_down(f, d, i - 1, j - 1)); }
        else if j > 1 { assert(chain_down(f, d, 0, j - 1)); }
    }
}
/// an alternating path from a node back to an exposed root
pub open spec fn alt_at(c: Seq<usize>, g: GV, m: PM, i: int) -> bool {
    if i % 2 == 0 { m.contains_pair(c[i], c[i + 1]) && m.contains_pair(c[i + 1], c[i]) } else { g.adj(c[i], c[i + 1]) }
}
pub open spec fn alt_chain(c: Seq<usize>, g: GV, m: PM) -> bool {
    &&& c.len() % 2 == 1
    &&& c.no_duplicates()
    &&& !m.contains_key(c.last())
    &&& forall|x: usize| #[trigger] c.contains(x) ==> g.has(x)
    &&& forall|i: int| 0 <= i < c.len() - 1 ==> #[trigger] alt_at(c, g, m, i)
}
/// consecutive nodes of an alternating path are adjacent
pub proof fn lemma_alt_adj(c: Seq<usize>, g: GV, m: PM, i: int)
    requires g.wf(), is_matching(g, m), alt_chain(c, g, m), 0 <= i < c.len() - 1,
    ensures g.adj(c[i], c[i + 1]), g.adj(c[i + 1], c[i]),
{
    assert(alt_at(c, g, m, i));
    if i % 2 == 0 { assert(m.contains_key(c[i])); }
}
/// two chains of one forest, once they meet, go on together
pub open spec fn meet_at(a: Seq<usize>, b: Seq<usize>, i: int, j: int) -> bool {
    a[i] == b[j] ==> i % 2 == j % 2 && a.skip(i) == b.skip(j)
}
pub open spec fn meet(a: Seq<usize>, b: Seq<usize>) -> bool {
    forall|i: int, j: int| 0 <= i < a.len() && 0 <= j < b.len() ==> #[trigger] meet_at(a, b, i, j)
}
pub proof fn lemma_alt_chain(g: GV, m: PM, f: FV, v: usize)
    requires g.wf(), is_matching(g, m), alt(g, m, f), f.is_even(v),
    ensures alt_chain(f.chain(v), g, m), f.chain(v)[0] == v,
{
    hide(FV::chain);
    lemma_chain(f, v);
    let c = f.chain(v);
    let k = c.len() - 1;
    let z = c.last();
    assert(z == c[k]);
    assert(chain_at(f, c, v, k));
    assert(f.has(z));
    assert(f.even[z]);
    assert forall|i: int, j: int| 0 <= i < c.len() && 0 <= j < c.len() && i != j implies c[i] != c[j] by {
        if i < j { assert(chain_down(f, c, i, j)); } else { assert(chain_down(f, c, j, i)); }
    }
    assert forall|x: usize| #[trigger] c.contains(x) implies g.has(x) by {
        let i = choose|i: int| 0 <= i < c.len() && c[i] == x;
        assert(chain_at(f, c, v, i));
        assert(f.has(x));
    }
    assert forall|i: int| 0 <= i < c.len() - 1 implies #[trigger] alt_at(c, g, m, i) by {
        assert(chain_at(f, c, v, i));
        assert(chain_link(f, c, i));
        assert(f.has(c[i]));
        if i % 2 == 0 {
            assert(m.contains_pair(c[i], c[i + 1]));
            assert(m.contains_key(c[i]));
        } else {
            assert(g.adj(c[i + 1], c[i]));
        }
    }
}
pub proof fn lemma_meet(f: FV, v: usize, w: usize)
    requires f.wf(), f.is_even(v), f.is_even(w),
    ensures
        meet(f.chain(v), f.chain(w)),
        f.chain(v).last() != f.chain(w).last() ==> forall|x: usize| f.chain(v).contains(x) ==> !f.chain(w).contains(x),
{
    hide(FV::chain);
    lemma_chain(f, v);
    lemma_chain(f, w);
    let (a, b) = (f.chain(v), f.chain(w));
    assert forall|i: int, j: int| 0 <= i < a.len() && 0 <= j < b.len() implies #[trigger] meet_at(a, b, i, j) by {
        assert(chain_at(f, a, v, i));
        assert(chain_at(f, b, w, j));
    }
    if a.last() != b.last() {
        assert forall|x: usize| a.contains(x) implies !b.contains(x) by {
            if b.contains(x) {
                let i = choose|i: int| 0 <= i < a.len() && a[i] == x;
                let j = choose|j: int| 0 <= j < b.len() && b[j] == x;
                assert(meet_at(a, b, i, j));
                assert(a.skip(i).last() == a.last());
                assert(b.skip(j).last() == b.last());
            }
        }
    }
}
pub proof fn lemma_contains_reverse(a: Seq<usize>)
    ensures
        forall|x: usize| #[trigger] a.reverse().contains(x) <==> a.contains(x),
        a.no_duplicates() ==> a.reverse().no_duplicates(),
{
    let ra = a.reverse();
    let n = a.len() as int;
    assert forall|x: usize| #[trigger] ra.contains(x) <==> a.contains(x) by {
        if ra.contains(x) { let i = choose|i: int| 0 <= i < ra.len() && ra[i] == x; assert(a[n - 1 - i] == x); }
        if a.contains(x) { let i = choose|i: int| 0 <= i < a.len() && a[i] == x; assert(ra[n - 1 - i] == x); }
    }
    if a.no_duplicates() {
        assert forall|i: int, j: int| 0 <= i < ra.len() && 0 <= j < ra.len() && i != j implies ra[i] != ra[j] by {
            assert(a[n - 1 - i] != a[n - 1 - j]);
        }
    }
}
/// two trees meet: the path from root to root augments
pub proof fn lemma_join(g: GV, m: PM, a: Seq<usize>, b: Seq<usize>)
    requires
        g.wf(), is_matching(g, m), alt_chain(a, g, m), alt_chain(b, g, m), g.adj(a[0], b[0]), a.last() != b.last(),
        forall|x: usize| a.contains(x) ==> !b.contains(x),
    ensures aug_ok(a.reverse() + b, g, m),
{
    let ra = a.reverse();
    let p = ra + b;
    let n = a.len() as int;
    lemma_contains_reverse(a);
    lemma_contains_add(ra, b);
    lemma_no_dup_add(ra, b);
    assert forall|i: int| 0 <= i < p.len() - 1 && i % 2 == 0 implies #[trigger] step_at(p, g, i) by {
        if i < n - 1 {
            let k = n - 2 - i;
            assert(p[i] == a[k + 1] && p[i + 1] == a[k]);
            lemma_alt_adj(a, g, m, k);
        } else if i == n - 1 {
            assert(p[i] == a[0] && p[i + 1] == b[0]);
        } else {
            let k = i - n;
            assert(p[i] == b[k] && p[i + 1] == b[k + 1]);
            lemma_alt_adj(b, g, m, k);
        }
    }
    let (x, y) = (a.last(), b.last());
    assert(a[n - 1] == x);
    assert(b[b.len() - 1] == y);
    assert(a.contains(x) && b.contains(y));
    assert forall|z: usize| #[trigger] p.contains(z) && z != x && z != y implies m.contains_key(z) && p.contains(m[z]) by {
        if a.contains(z) { lemma_chain_mates(a, g, m, z); } else { lemma_chain_mates(b, g, m, z); }
    }
    assert(ends(p, m, x, y));
}
pub proof fn lemma_chain_mates(c: Seq<usize>, g: GV, m: PM, z: usize)
    requires alt_chain(c, g, m), c.contains(z), z != c.last(),
    ensures m.contains_key(z), c.contains(m[z]),
{
    let i = choose|i: int| 0 <= i < c.len() && c[i] == z;
    assert(i != c.len() - 1);
    if i % 2 == 0 { assert(alt_at(c, g, m, i)); assert(c.contains(c[i + 1])); }
    else { assert(alt_at(c, g, m, i - 1)); assert(c.contains(c[i - 1])); }
}

} // verus!
}
