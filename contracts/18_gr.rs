pub mod gr {
#[allow(unused_imports)] use vstd::prelude::*;
#[allow(unused_imports)] use crate::vx::*;
#[allow(unused_imports)] use crate::th::*;
#[allow(unused_imports)] use crate::tr::*;
#[allow(unused_imports)] use crate::sl::*;
#[allow(unused_imports)] use crate::mt::*;
#[allow(unused_imports)] use crate::mm::*;
verus! {

// ================================================================== greedy matching

/// every reported edge between two nodes has a matched end
pub open spec fn hist_covered(h: Seq<(usize, usize)>, m: PM) -> bool {
    forall|i: int| 0 <= i < h.len() && (#[trigger] h[i]).0 != h[i].1 ==> m.contains_key(h[i].0) || m.contains_key(h[i].1)
}
pub open spec fn all_maximal(done: Seq<GV>, m: PM) -> bool { forall|i: int| 0 <= i < done.len() ==> maximal(#[trigger] done[i], m) }

pub proof fn lemma_pair_fresh(g: GV, m: PM, s: usize, t: usize, r: PM)
    requires g.wf(), is_matching(g, m), g.adj(s, t), s != t, !m.contains_key(s), !m.contains_key(t), paired(m, s, t, r), mwf(r),
    ensures
        is_matching(g, r),
        forall|u: usize| #[trigger] r.contains_key(u) <==> m.contains_key(u) || u == s || u == t,
{
    assert(g.adj(t, s));
    assert forall|u: usize| #[trigger] r.contains_key(u) <==> m.contains_key(u) || u == s || u == t by {
        if m.contains_key(u) { assert(m.contains_key(m[u])); }
    }
    assert forall|u: usize| #[trigger] r.contains_key(u) implies g.adj(u, r[u]) by {
        if u != s && u != t { assert(m.contains_key(u)); assert(r[u] == m[u]); }
    }
}
pub proof fn lemma_covered_grows(done: Seq<GV>, h: Seq<(usize, usize)>, m: PM, r: PM)
    requires all_maximal(done, m), hist_covered(h, m), forall|u: usize| #[trigger] m.contains_key(u) ==> r.contains_key(u),
    ensures all_maximal(done, r), hist_covered(h, r),
{
    assert forall|i: int| 0 <= i < done.len() implies maximal(#[trigger] done[i], r) by {
        assert(maximal(done[i], m));
        assert forall|u: usize, v: usize| #[trigger] done[i].adj(u, v) && u != v implies r.contains_key(u) || r.contains_key(v) by {
            assert(m.contains_key(u) || m.contains_key(v));
        }
    }
    assert forall|i: int| 0 <= i < h.len() && (#[trigger] h[i]).0 != h[i].1 implies r.contains_key(h[i].0) || r.contains_key(h[i].1) by {
        assert(m.contains_key(h[i].0) || m.contains_key(h[i].1));
    }
}
pub proof fn lemma_component_maximal(g: GV, done: Seq<GV>, c: GV, root: usize, tv: TV, m: PM)
    requires comp_of(g, c), c.has(root), complete(c, root, tv), hist_covered(tv.hist, m), all_maximal(done, m),
    ensures all_maximal(done.push(c), m),
{
    assert forall|u: usize, v: usize| #[trigger] c.adj(u, v) && u != v implies m.contains_key(u) || m.contains_key(v) by {
        assert(c.has(u));
        assert(reach(c, root, u));
        assert(tv.rep(u, v));
        let e = if tv.hist.contains((u, v)) { (u, v) } else { (v, u) };
        let i = choose|i: int| 0 <= i < tv.hist.len() && tv.hist[i] == e;
        assert(tv.hist[i] == e);
    }
    assert(maximal(c, m));
}
pub proof fn lemma_greedy_end(g: GV, done: Seq<GV>, m: PM)
    requires partition(g, done), all_maximal(done, m),
    ensures maximal(g, m),
{
    assert forall|u: usize, v: usize| #[trigger] g.adj(u, v) && u != v implies m.contains_key(u) || m.contains_key(v) by {
        let i = choose|i: int| 0 <= i < done.len() && (#[trigger] done[i]).adj(u, v);
        assert(maximal(done[i], m));
    }
}

} // verus!
}
