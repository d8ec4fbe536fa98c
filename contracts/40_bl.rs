pub mod bl {
#[allow(unused_imports)] use vstd::prelude::*;
#[allow(unused_imports)] use crate::vx::*;
#[allow(unused_imports)] use crate::th::*;
#[allow(unused_imports)] use crate::mt::*;
#[allow(unused_imports)] use crate::mm::*;
verus! {

// ================================================================== blossoms

/// left and right first meet at left[i] == right[j]
pub open spec fn join_at(left: Seq<usize>, right: Seq<usize>, i: int, j: int) -> bool {
    &&& 0 <= i < left.len() && 0 <= j < right.len() && left[i] == right[j]
    &&& forall|a: int, b: int| 0 <= a < i && 0 <= b < right.len() ==> #[trigger] left[a] != #[trigger] right[b]
    &&& forall|b: int| 0 <= b < j ==> left[i] != #[trigger] right[b]
}
/// out along left to the meeting point and back along right
pub open spec fn flower(left: Seq<usize>, right: Seq<usize>, i: int, j: int) -> Seq<usize> {
    left.subrange(0, i).push(left[i]) + right.subrange(0, j).reverse()
}

pub open spec fn nxt(p: Seq<usize>, i: int) -> int { if i + 1 == p.len() { 0 } else { i + 1 } }
pub open spec fn cyc_at(p: Seq<usize>, g: GV, i: int) -> bool { g.adj(p[i], p[nxt(p, i)]) }
pub open spec fn cycle(p: Seq<usize>, g: GV) -> bool { forall|i: int| 0 <= i < p.len() ==> #[trigger] cyc_at(p, g, i) }
/// x is the one node of p not matched within p
pub open spec fn base_of(p: Seq<usize>, m: PM, x: usize) -> bool {
    &&& p.contains(x)
    &&& m.contains_key(x) ==> !p.contains(m[x])
    &&& forall|z: usize| #[trigger] p.contains(z) && z != x ==> m.contains_key(z) && p.contains(m[z])
}
/// an odd cycle of g whose nodes, but for one, are matched among each other
pub open spec fn blossom_ok(p: Seq<usize>, g: GV, m: PM) -> bool {
    &&& p.len() % 2 == 1
    &&& p.no_duplicates()
    &&& forall|x: usize| #[trigger] p.contains(x) ==> g.has(x)
    &&& cycle(p, g)
    &&& exists|x: usize| #[trigger] base_of(p, m, x)
}

// ------------------------------------------------------------------ contraction

/// where contracting p to id sends u
pub open spec fn im(p: Seq<usize>, id: usize, u: usize) -> usize { if p.contains(u) { id } else { u } }
pub open spec fn inside(p: Seq<usize>, u: usize, v: usize) -> bool { p.contains(u) && p.contains(v) }
pub open spec fn cadj_by(p: Seq<usize>, g: GV, id: usize, x: usize, y: usize, u: usize, v: usize) -> bool {
    g.adj(u, v) && !inside(p, u, v) && im(p, id, u) == x && im(p, id, v) == y
}
pub open spec fn cadj(p: Seq<usize>, g: GV, id: usize, x: usize, y: usize) -> bool {
    exists|u: usize, v: usize| #[trigger] cadj_by(p, g, id, x, y, u, v)
}
/// h is g with p contracted to the new node id
pub open spec fn contracted(p: Seq<usize>, g: GV, id: usize, h: GV) -> bool {
    &&& h.wf()
    &&& forall|x: usize| #[trigger] h.has(x) <==> x == id || (g.has(x) && !p.contains(x))
    &&& forall|x: usize, y: usize| #[trigger] h.adj(x, y) <==> cadj(p, g, id, x, y)
}
/// k is m with p contracted to the new node id
pub open spec fn contracted_m(p: Seq<usize>, m: PM, id: usize, k: PM) -> bool {
    &&& forall|x: usize| x != id ==> (#[trigger] k.contains_key(x) <==> m.contains_key(x) && !p.contains(x))
    &&& forall|x: usize| x != id && #[trigger] k.contains_key(x) ==> k[x] == im(p, id, m[x])
    &&& k.contains_key(id) <==> exists|z: usize| p.contains(z) && #[trigger] m.contains_key(z) && !p.contains(m[z])
    &&& k.contains_key(id) ==> !p.contains(k[id]) && m.contains_key(k[id]) && p.contains(m[k[id]])
}

pub proof fn lemma_contracted_matching(p: Seq<usize>, g: GV, id: usize, h: GV, m: PM, k: PM)
    requires g.wf(), !g.has(id), is_matching(g, m), contracted(p, g, id, h), contracted_m(p, m, id, k), blossom_ok(p, g, m),
    ensures is_matching(h, k),
{
    let base = choose|x: usize| #[trigger] base_of(p, m, x);
    assert forall|x: usize| #[trigger] k.contains_key(x) implies k.contains_key(k[x]) && k[k[x]] == x && k[x] != x && h.adj(x, k[x]) by {
        if x != id {
            let y = m[x];
            assert(m.contains_key(x) && m.contains_key(y) && m[y] == x && y != x);
            assert(g.adj(x, y));
            assert(g.adj(y, x));
            assert(g.has(x) && g.has(y));
            assert(cadj_by(p, g, id, x, k[x], x, y));
            if p.contains(y) {
                assert(k.contains_key(id));
                let w = k[id];
                assert(m[w] == base) by { if m[w] != base { assert(p.contains(m[w])); assert(m.contains_key(m[w]) && p.contains(m[m[w]])); assert(m[m[w]] == w); } }
                assert(y == base) by { if y != base { assert(p.contains(m[y])); } }
                assert(m[m[w]] == w);
                assert(w == x);
            } else {
                assert(y != id);
                assert(k.contains_key(y));
            }
        } else {
            let y = k[id];
            let z = m[y];
            assert(m.contains_key(y) && m[z] == y);
            assert(g.adj(y, z));
            assert(g.adj(z, y));
            assert(g.has(y));
            assert(y != id);
            assert(cadj_by(p, g, id, id, y, z, y));
            assert(k.contains_key(y));
        }
    }
}

// ------------------------------------------------------------------ lifting

/// every node of an augmenting path is a node of the graph
pub proof fn lemma_aug_nodes(q: Seq<usize>, g: GV, m: PM)
    requires g.wf(), aug_ok(q, g, m),
    ensures forall|x: usize| #[trigger] q.contains(x) ==> g.has(x),
{
    assert forall|x: usize| #[trigger] q.contains(x) implies g.has(x) by {
        let i = choose|i: int| 0 <= i < q.len() && q[i] == x;
        if i % 2 == 0 { assert(step_at(q, g, i)); } else { assert(step_at(q, g, i - 1)); assert(g.adj(q[i], q[i - 1])); }
    }
}
/// x y in h, neither of them the blossom, are adjacent in g
pub proof fn lemma_plain_adj(p: Seq<usize>, g: GV, id: usize, h: GV, x: usize, y: usize)
    requires contracted(p, g, id, h), h.adj(x, y), x != id, y != id,
    ensures g.adj(x, y),
{
    let (u, v) = choose|u: usize, v: usize| #[trigger] cadj_by(p, g, id, x, y, u, v);
    assert(cadj_by(p, g, id, x, y, u, v));
}
pub proof fn lemma_enter(p: Seq<usize>, g: GV, id: usize, h: GV, x: usize)
    requires g.wf(), contracted(p, g, id, h), h.adj(x, id), x != id, !g.has(id),
    ensures exists|t: int| 0 <= t < p.len() && #[trigger] g.adj(x, p[t]),
{
    let (u, v) = choose|u: usize, v: usize| #[trigger] cadj_by(p, g, id, x, id, u, v);
    assert(cadj_by(p, g, id, x, id, u, v));
    assert(g.adj(v, u));
    assert(g.has(v));
    assert(p.contains(v));
    let t = choose|t: int| 0 <= t < p.len() && p[t] == v;
    assert(g.adj(x, p[t]));
}

/// an augmenting path that avoids the blossom is one of g
pub proof fn lemma_lift_away(q: Seq<usize>, p: Seq<usize>, g: GV, id: usize, h: GV, m: PM, k: PM)
    requires
        g.wf(), !g.has(id), is_matching(g, m), contracted(p, g, id, h), contracted_m(p, m, id, k), is_matching(h, k),
        aug_ok(q, h, k), !q.contains(id),
    ensures aug_ok(q, g, m),
{
    lemma_aug_nodes(q, h, k);
    assert forall|i: int| 0 <= i < q.len() - 1 && i % 2 == 0 implies #[trigger] step_at(q, g, i) by {
        assert(step_at(q, h, i));
        assert(q.contains(q[i]) && q.contains(q[i + 1]));
        lemma_plain_adj(p, g, id, h, q[i], q[i + 1]);
    }
    let (x, y) = choose|x: usize, y: usize| #[trigger] ends(q, k, x, y);
    assert(ends(q, k, x, y));
    assert(h.has(x) && h.has(y));
    assert forall|z: usize| #[trigger] q.contains(z) && z != x && z != y implies m.contains_key(z) && q.contains(m[z]) by {
        assert(k.contains_key(z) && q.contains(k[z]));
        assert(k[z] == im(p, id, m[z]));
    }
    assert(ends(q, m, x, y));
}

/// the nodes of r are those of q with the blossom in place of id
pub open spec fn replaced(r: Seq<usize>, q: Seq<usize>, p: Seq<usize>, id: usize) -> bool {
    forall|z: usize| #[trigger] r.contains(z) <==> p.contains(z) || (z != id && q.contains(z))
}
pub proof fn lemma_lift_ends(r: Seq<usize>, q: Seq<usize>, p: Seq<usize>, g: GV, id: usize, h: GV, m: PM, k: PM)
    requires
        g.wf(), !g.has(id), is_matching(g, m), contracted(p, g, id, h), contracted_m(p, m, id, k), is_matching(h, k),
        blossom_ok(p, g, m), aug_ok(q, h, k), q.contains(id), replaced(r, q, p, id),
    ensures exists|x: usize, y: usize| #[trigger] ends(r, m, x, y),
{
    lemma_aug_nodes(q, h, k);
    let base = choose|x: usize| #[trigger] base_of(p, m, x);
    assert(base_of(p, m, base));
    assert(p.contains(base));
    let (x, y) = choose|x: usize, y: usize| #[trigger] ends(q, k, x, y);
    assert(ends(q, k, x, y));
    let x2 = if x == id { base } else { x };
    let y2 = if y == id { base } else { y };
    assert(h.has(x) && h.has(y));
    assert(r.contains(x2) && r.contains(y2));
    assert(x2 != y2);
    if m.contains_key(base) { assert(k.contains_key(id)); }
    assert forall|z: usize| #[trigger] r.contains(z) && z != x2 && z != y2 implies m.contains_key(z) && r.contains(m[z]) by {
        if p.contains(z) {
            if z == base {
                assert(x != id && y != id);
                assert(q.contains(id));
                assert(k.contains_key(id) && q.contains(k[id]));
                let w = k[id];
                assert(m[w] == base) by { if m[w] != base { assert(p.contains(m[w])); assert(m.contains_key(m[w]) && p.contains(m[m[w]])); assert(m[m[w]] == w); } }
                assert(m.contains_key(w) && m.contains_key(base) && m[base] == w);
                assert(k[id] != id);
            }
        } else {
            assert(q.contains(z));
            assert(k.contains_key(z) && q.contains(k[z]));
            assert(k[z] == im(p, id, m[z]));
        }
    }
    assert(ends(r, m, x2, y2));
}

pub proof fn lemma_rot_zero<T>(s: Seq<T>)
    ensures rot_right(s, 0) == s, s.len() > 0 ==> rot_right(s, s.len() as int) == s,
{
    assert(rot_right(s, 0) =~= s);
    assert(rot_right(s, s.len() as int) =~= s);
}
pub proof fn lemma_rot_step<T>(s: Seq<T>, j: int)
    requires 0 <= j < s.len(),
    ensures rot_right(rot_right(s, j), 1) == rot_right(s, j + 1),
{
    assert(rot_right(rot_right(s, j), 1) =~= rot_right(s, j + 1));
}
pub proof fn lemma_rot_len<T>(s: Seq<T>, j: int)
    requires 0 <= j <= s.len(),
    ensures rot_right(s, j).len() == s.len(),
        forall|i: int| 0 <= i < j ==> #[trigger] rot_right(s, j)[i] == s[s.len() - j + i],
        forall|i: int| j <= i < s.len() ==> #[trigger] rot_right(s, j)[i] == s[i - j],
{
}
pub proof fn lemma_rot(p: Seq<usize>, g: GV, j: int)
    requires 0 <= j <= p.len(), p.no_duplicates(), cycle(p, g),
    ensures ({
        let c = rot_right(p, j);
        &&& c.len() == p.len() && c.no_duplicates()
        &&& forall|x: usize| #[trigger] c.contains(x) <==> p.contains(x)
        &&& forall|i: int| 0 <= i < c.len() - 1 ==> #[trigger] step_at(c, g, i)
    }),
{
    let c = rot_right(p, j);
    let n = p.len() as int;
    lemma_rot_len(p, j);
    assert forall|x: usize| #[trigger] c.contains(x) <==> p.contains(x) by {
        if c.contains(x) {
            let i = choose|i: int| 0 <= i < c.len() && c[i] == x;
            if i < j { assert(p[n - j + i] == x); } else { assert(p[i - j] == x); }
        }
        if p.contains(x) {
            let i = choose|i: int| 0 <= i < p.len() && p[i] == x;
            if i < n - j { assert(c[i + j] == x); } else { assert(c[i - (n - j)] == x); }
        }
    }
    assert forall|i: int| 0 <= i < c.len() - 1 implies #[trigger] step_at(c, g, i) by {
        let t = if i < j { n - j + i } else { i - j };
        assert(cyc_at(p, g, t));
    }
}

/// r is q with the nodes of c in place of q[a]
pub open spec fn spliced(r: Seq<usize>, q: Seq<usize>, a: int, c: Seq<usize>) -> bool {
    &&& 0 <= a < q.len() && r.len() == q.len() - 1 + c.len()
    &&& forall|i: int| 0 <= i < a ==> #[trigger] r[i] == q[i]
    &&& forall|i: int| a <= i < a + c.len() ==> #[trigger] r[i] == c[i - a]
    &&& forall|i: int| a + c.len() <= i < r.len() ==> #[trigger] r[i] == q[i - c.len() + 1]
}
proof fn lemma_spliced_replaced(r: Seq<usize>, q: Seq<usize>, a: int, c: Seq<usize>, p: Seq<usize>, id: usize)
    requires spliced(r, q, a, c), q[a] == id, q.no_duplicates(), forall|x: usize| #[trigger] c.contains(x) <==> p.contains(x),
    ensures replaced(r, q, p, id),
{
    let z = c.len() as int;
    assert forall|x: usize| #[trigger] r.contains(x) <==> p.contains(x) || (x != id && q.contains(x)) by {
        if r.contains(x) {
            let i = choose|i: int| 0 <= i < r.len() && r[i] == x;
            if i < a { assert(q[i] == x); assert(q[i] != q[a]); }
            else if i < a + z { assert(c[i - a] == x); assert(c.contains(x)); }
            else { assert(q[i - z + 1] == x); assert(q[i - z + 1] != q[a]); }
        }
        if p.contains(x) {
            assert(c.contains(x));
            let i = choose|i: int| 0 <= i < c.len() && c[i] == x;
            assert(r[a + i] == x);
        }
        if x != id && q.contains(x) {
            let i = choose|i: int| 0 <= i < q.len() && q[i] == x;
            if i < a { assert(r[i] == x); } else { assert(r[i - 1 + z] == x); }
        }
    }
}
proof fn lemma_spliced_no_dup(r: Seq<usize>, q: Seq<usize>, a: int, c: Seq<usize>)
    requires spliced(r, q, a, c), q.no_duplicates(), c.no_duplicates(), forall|x: usize| #[trigger] q.contains(x) ==> !c.contains(x),
    ensures r.no_duplicates(),
{
    let z = c.len() as int;
    assert forall|i: int, t: int| 0 <= i < r.len() && 0 <= t < r.len() && i != t implies r[i] != r[t] by {
        let qi = if i < a { i } else { i - z + 1 };
        let qt = if t < a { t } else { t - z + 1 };
        let ini = a <= i < a + z;
        let int_ = a <= t < a + z;
        if ini && int_ { assert(c[i - a] != c[t - a]); }
        else if !ini && !int_ { assert(q[qi] != q[qt]); }
        else if ini { assert(c.contains(c[i - a])); assert(q.contains(q[qt])); }
        else { assert(c.contains(c[t - a])); assert(q.contains(q[qi])); }
    }
}
proof fn lemma_spliced_steps(r: Seq<usize>, q: Seq<usize>, a: int, c: Seq<usize>, p: Seq<usize>, g: GV, id: usize, h: GV)
    requires
        spliced(r, q, a, c), q[a] == id, q.no_duplicates(), q.len() % 2 == 0, c.len() % 2 == 1,
        contracted(p, g, id, h), steps_adjacent(q, h),
        forall|i: int| 0 <= i < c.len() - 1 ==> #[trigger] step_at(c, g, i),
        a % 2 == 1 ==> g.adj(q[a - 1], c[0]),
        a % 2 == 0 ==> g.adj(c[c.len() - 1], q[a + 1]),
    ensures steps_adjacent(r, g),
{
    let z = c.len() as int;
    assert forall|i: int| 0 <= i < r.len() - 1 && i % 2 == 0 implies #[trigger] step_at(r, g, i) by {
        if i + 1 < a {
            assert(step_at(q, h, i));
            assert(q[i] != q[a] && q[i + 1] != q[a]);
            lemma_plain_adj(p, g, id, h, q[i], q[i + 1]);
        } else if i + 1 == a {
            assert(r[i] == q[a - 1] && r[i + 1] == c[0]);
        } else if i + 1 < a + z {
            assert(r[i] == c[i - a] && r[i + 1] == c[i - a + 1]);
            assert(step_at(c, g, i - a));
        } else if i + 1 == a + z {
            assert(r[i] == c[z - 1] && r[i + 1] == q[a + 1]);
        } else {
            let t = i - z + 1;
            assert(r[i] == q[t] && r[i + 1] == q[t + 1]);
            assert(t % 2 == 0);
            assert(step_at(q, h, t));
            assert(q[t] != q[a] && q[t + 1] != q[a]);
            lemma_plain_adj(p, g, id, h, q[t], q[t + 1]);
        }
    }
}
/// the path through the whole blossom, entered or left by an edge to or from the even side
pub proof fn lemma_lift(r: Seq<usize>, q: Seq<usize>, a: int, p: Seq<usize>, g: GV, id: usize, h: GV, m: PM, k: PM, j: int)
    requires
        g.wf(), !g.has(id), is_matching(g, m), contracted(p, g, id, h), contracted_m(p, m, id, k), is_matching(h, k),
        blossom_ok(p, g, m), aug_ok(q, h, k), 0 <= a < q.len(), q[a] == id,
        0 <= j <= p.len(), spliced(r, q, a, rot_right(p, j)),
        a % 2 == 1 ==> g.adj(q[a - 1], rot_right(p, j)[0]),
        a % 2 == 0 ==> g.adj(rot_right(p, j)[p.len() - 1], q[a + 1]),
    ensures aug_ok(r, g, m),
{
    let c = rot_right(p, j);
    lemma_rot(p, g, j);
    lemma_aug_nodes(q, h, k);
    lemma_spliced_replaced(r, q, a, c, p, id);
    assert(q.contains(id));
    lemma_lift_ends(r, q, p, g, id, h, m, k);
    assert forall|x: usize| #[trigger] q.contains(x) implies !c.contains(x) by {
        assert(h.has(x));
        if x == id && p.contains(x) { assert(g.has(x)); }
    }
    lemma_spliced_no_dup(r, q, a, c);
    lemma_spliced_steps(r, q, a, c, p, g, id, h);
}

pub open spec fn lift_pre(q: Seq<usize>, p: Seq<usize>, g: GV, id: usize, h: GV, m: PM, k: PM) -> bool {
    &&& is_matching(g, m) && contracted(p, g, id, h) && contracted_m(p, m, id, k) && is_matching(h, k)
    &&& blossom_ok(p, g, m) && aug_ok(q, h, k)
}
/// r is q with the blossom, turned by j, in place of the contracted node at a
pub open spec fn lifted_by(r: Seq<usize>, q: Seq<usize>, a: int, p: Seq<usize>, g: GV, j: int) -> bool {
    &&& spliced(r, q, a, rot_right(p, j))
    &&& a % 2 == 1 ==> g.adj(q[a - 1], rot_right(p, j)[0])
    &&& a % 2 == 0 ==> g.adj(rot_right(p, j)[p.len() - 1], q[a + 1])
}
/// the neighbor of the contracted node on the path touches the blossom
pub proof fn lemma_lift_enter(q: Seq<usize>, a: int, p: Seq<usize>, g: GV, id: usize, h: GV, m: PM, k: PM)
    requires g.wf(), !g.has(id), lift_pre(q, p, g, id, h, m, k), 0 <= a < q.len(), q[a] == id,
    ensures
        a % 2 == 1 ==> g.has(q[a - 1]) && exists|t: int| 0 <= t < p.len() && #[trigger] g.adj(q[a - 1], p[t]),
        a % 2 == 0 ==> a + 1 < q.len() && g.has(q[a + 1]) && exists|t: int| 0 <= t < p.len() && #[trigger] g.adj(q[a + 1], p[t]),
{
    lemma_aug_nodes(q, h, k);
    if a % 2 == 1 {
        assert(step_at(q, h, a - 1));
        assert(q[a - 1] != q[a]);
        assert(q.contains(q[a - 1]));
        assert(h.has(q[a - 1]));
        lemma_enter(p, g, id, h, q[a - 1]);
    } else {
        assert(step_at(q, h, a));
        assert(q[a + 1] != q[a]);
        assert(q.contains(q[a + 1]));
        assert(h.has(q[a + 1]));
        assert(h.adj(q[a + 1], q[a]));
        lemma_enter(p, g, id, h, q[a + 1]);
    }
}
pub proof fn lemma_spliced(q: Seq<usize>, a: int, c: Seq<usize>)
    requires 0 <= a < q.len(),
    ensures spliced(q.subrange(0, a) + c + q.subrange(a + 1, q.len() as int), q, a, c),
{
}

/// c is p turned j times; x touches p but none of the nodes that came first so far
pub open spec fn turning(c: Seq<usize>, p: Seq<usize>, j: int, x: usize, g: GV) -> bool {
    &&& 0 <= j < p.len() && c == rot_right(p, j)
    &&& forall|i: int| 0 <= i < j ==> !g.adj(x, #[trigger] rot_right(p, i)[0])
    &&& exists|t: int| 0 <= t < p.len() && #[trigger] g.adj(x, p[t])
    &&& forall|i: int| 0 <= i < p.len() ==> g.has(#[trigger] p[i])
}
pub proof fn lemma_turn_nodes(c: Seq<usize>, p: Seq<usize>, j: int, x: usize, g: GV)
    requires turning(c, p, j, x, g),
    ensures c.len() == p.len(), forall|i: int| 0 <= i < c.len() ==> g.has(#[trigger] c[i]),
{
    lemma_rot_len(p, j);
    assert forall|i: int| 0 <= i < c.len() implies g.has(#[trigger] c[i]) by {
        if i < j { assert(g.has(p[p.len() - j + i])); } else { assert(g.has(p[i - j])); }
    }
}
pub proof fn lemma_turn_start(p: Seq<usize>, x: usize, g: GV)
    requires
        exists|t: int| 0 <= t < p.len() && #[trigger] g.adj(x, p[t]),
        forall|i: int| 0 <= i < p.len() ==> g.has(#[trigger] p[i]),
    ensures turning(p, p, 0, x, g),
{
    lemma_rot_zero(p);
}
pub proof fn lemma_turn(c: Seq<usize>, p: Seq<usize>, j: int, x: usize, g: GV)
    requires turning(c, p, j, x, g), !g.adj(x, c[0]),
    ensures turning(rot_right(c, 1), p, j + 1, x, g),
{
    lemma_rot_step(p, j);
    let t = choose|t: int| 0 <= t < p.len() && #[trigger] g.adj(x, p[t]);
    let q = if t == 0 { 0int } else { p.len() - t };
    lemma_rot_len(p, q);
    assert(rot_right(p, q)[0] == p[t]);
    assert(q > j);
}
pub proof fn lemma_turn_reverse(p: Seq<usize>, x: usize, g: GV)
    requires
        exists|t: int| 0 <= t < p.len() && #[trigger] g.adj(x, p[t]),
        forall|i: int| 0 <= i < p.len() ==> g.has(#[trigger] p[i]),
    ensures turning(p.reverse(), p.reverse(), 0, x, g),
{
    let t = choose|t: int| 0 <= t < p.len() && #[trigger] g.adj(x, p[t]);
    let pr = p.reverse();
    assert(pr[p.len() - 1 - t] == p[t]);
    lemma_turn_start(pr, x, g);
}

/// the two sides of the contracted node on the path
pub proof fn lemma_lift_parts(q: Seq<usize>, a: int, p: Seq<usize>, g: GV, id: usize)
    requires g.wf(), !g.has(id), 0 <= a < q.len(), q[a] == id, exists|m: PM, h: GV, k: PM| #[trigger] lift_pre(q, p, g, id, h, m, k),
    ensures
        q.len() % 2 == 0,
        a % 2 == 1 ==> g.has(q.subrange(0, a).last()) && exists|t: int| 0 <= t < p.len() && #[trigger] g.adj(q.subrange(0, a).last(), p[t]),
        a % 2 == 0 ==> a + 1 < q.len() && g.has(q.subrange(a + 1, q.len() as int)[0])
            && exists|t: int| 0 <= t < p.len() && #[trigger] g.adj(q.subrange(a + 1, q.len() as int)[0], p[t]),
{
    let (m, h, k) = choose|m: PM, h: GV, k: PM| #[trigger] lift_pre(q, p, g, id, h, m, k);
    assert(lift_pre(q, p, g, id, h, m, k));
    lemma_lift_enter(q, a, p, g, id, h, m, k);
    if a % 2 == 1 {
        let x = q.subrange(0, a).last();
        assert(x == q[a - 1]);
        let t = choose|t: int| 0 <= t < p.len() && #[trigger] g.adj(q[a - 1], p[t]);
        assert(g.adj(x, p[t]));
    } else {
        let x = q.subrange(a + 1, q.len() as int)[0];
        assert(x == q[a + 1]);
        let t = choose|t: int| 0 <= t < p.len() && #[trigger] g.adj(q[a + 1], p[t]);
        assert(g.adj(x, p[t]));
    }
}
pub proof fn lemma_refs(s: Seq<usize>)
    ensures forall|it: Seq<&usize>| #[trigger] refs_of(it, s) ==> derefs(it.skip(0)) == s,
{
    assert forall|it: Seq<&usize>| #[trigger] refs_of(it, s) implies derefs(it.skip(0)) == s by {
        assert(derefs(it.skip(0)) =~= s);
    }
}
pub proof fn lemma_tail(l: Seq<usize>)
    ensures forall|t: Seq<usize>| (#[trigger] (l + t)).skip(l.len() as int) == t,
{
    assert forall|t: Seq<usize>| (#[trigger] (l + t)).skip(l.len() as int) == t by {
        assert((l + t).skip(l.len() as int) =~= t);
    }
}
pub open spec fn lifted_some(r: Seq<usize>, q: Seq<usize>, a: int, p: Seq<usize>, g: GV) -> bool {
    exists|j: int| 0 <= j < p.len() && #[trigger] lifted_by(r, q, a, p, g, j)
}
pub proof fn lemma_lift_left(r: Seq<usize>, before: Seq<usize>, q: Seq<usize>, a: int, p: Seq<usize>, g: GV)
    requires
        0 <= a < q.len(), a % 2 == 1, r == before + q.subrange(a + 1, q.len() as int),
        exists|j: int| 0 <= j < p.len() && before == q.subrange(0, a) + #[trigger] rot_right(p, j) && g.adj(q.subrange(0, a).last(), rot_right(p, j)[0]),
    ensures lifted_some(r, q, a, p, g),
{
    let j = choose|j: int| 0 <= j < p.len() && before == q.subrange(0, a) + #[trigger] rot_right(p, j) && g.adj(q.subrange(0, a).last(), rot_right(p, j)[0]);
    lemma_spliced(q, a, rot_right(p, j));
    assert(lifted_by(r, q, a, p, g, j));
}
pub proof fn lemma_lift_right(r: Seq<usize>, q: Seq<usize>, a: int, p: Seq<usize>, g: GV)
    requires
        0 <= a < q.len(), a % 2 == 0, a + 1 < q.len(), r == q.subrange(0, a) + r.skip(a),
        exists|j: int| 0 <= j < p.len() && r.skip(a) == #[trigger] rot_right(p, j) + q.subrange(a + 1, q.len() as int)
            && g.adj(rot_right(p, j)[p.len() - 1], q.subrange(a + 1, q.len() as int)[0]),
    ensures lifted_some(r, q, a, p, g),
{
    let s = q.subrange(a + 1, q.len() as int);
    let j = choose|j: int| 0 <= j < p.len() && r.skip(a) == #[trigger] rot_right(p, j) + s && g.adj(rot_right(p, j)[p.len() - 1], s[0]);
    lemma_spliced(q, a, rot_right(p, j));
    assert(r =~= q.subrange(0, a) + rot_right(p, j) + s);
    assert(lifted_by(r, q, a, p, g, j));
}
pub proof fn lemma_lift_all(r: Seq<usize>, q: Seq<usize>, at: int, p: Seq<usize>, g: GV, id: usize)
    requires
        g.wf(), !g.has(id),
        if at < 0 { r == q && forall|i: int| 0 <= i < q.len() ==> #[trigger] q[i] != id } else { at < q.len() && q[at] == id && lifted_some(r, q, at, p, g) },
    ensures forall|m: PM, h: GV, k: PM| #[trigger] lift_pre(q, p, g, id, h, m, k) ==> aug_ok(r, g, m),
{
    assert forall|m: PM, h: GV, k: PM| #[trigger] lift_pre(q, p, g, id, h, m, k) implies aug_ok(r, g, m) by {
        if at < 0 { lemma_lift_away(q, p, g, id, h, m, k); }
        else {
            let j = choose|j: int| 0 <= j < p.len() && #[trigger] lifted_by(r, q, at, p, g, j);
            lemma_lift(r, q, at, p, g, id, h, m, k, j);
        }
    }
}

// ------------------------------------------------------------------ certificates through a contraction

/// the end of an alternating path from an exposed node is in no certificate's barrier
pub proof fn lemma_stem(c: Seq<usize>, h: GV, k: PM, us: Set<usize>, cls: spec_fn(usize) -> int)
    requires h.wf(), is_matching(h, k), alt_chain(c, h, k), cert(h, k, us, cls),
    ensures !us.contains(c[0]),
{
    lemma_stem_at(c, h, k, us, cls, 0);
}
/// c[i] is outside the barrier, in a class with a tip at or beyond i
pub open spec fn stem_at(c: Seq<usize>, h: GV, k: PM, us: Set<usize>, cls: spec_fn(usize) -> int, i: int, t: int) -> bool {
    i <= t < c.len() && !us.contains(c[i]) && tip(h, k, us, c[t]) && cls(c[t]) == cls(c[i])
}
proof fn lemma_stem_at(c: Seq<usize>, h: GV, k: PM, us: Set<usize>, cls: spec_fn(usize) -> int, i: int)
    requires h.wf(), is_matching(h, k), alt_chain(c, h, k), cert(h, k, us, cls), 0 <= i < c.len(), i % 2 == 0,
    ensures !us.contains(c[i]), exists|t: int| #[trigger] stem_at(c, h, k, us, cls, i, t),
    decreases c.len() - i,
{
    assert(c.contains(c[i]));
    if i == c.len() - 1 {
        assert(h.has(c[i]));
        assert(stem_at(c, h, k, us, cls, i, i));
    } else {
        assert(alt_at(c, h, k, i));
        assert(alt_at(c, h, k, i + 1));
        lemma_alt_adj(c, h, k, i);
        lemma_alt_adj(c, h, k, i + 1);
        lemma_stem_at(c, h, k, us, cls, i + 2);
        let t = choose|t: int| #[trigger] stem_at(c, h, k, us, cls, i + 2, t);
        assert(stem_at(c, h, k, us, cls, i + 2, t));
        let (x, y) = (c[i], c[i + 1]);
        assert(k.contains_pair(x, y) && k.contains_pair(y, x));
        if us.contains(y) {
            assert(!us.contains(k[y]));
            assert(h.has(x));
            assert(tip(h, k, us, x));
            assert(stem_at(c, h, k, us, cls, i, i));
        } else {
            assert(h.adj(c[i + 1], c[i + 2]));
            assert(cls(y) == cls(c[i + 2]));
            if us.contains(x) {
                assert(h.has(y));
                assert(tip(h, k, us, y));
                assert(c[t] != y);
                assert(cls(y) != cls(c[t]));
            }
            assert(h.adj(x, y));
            assert(cls(x) == cls(y));
            assert(stem_at(c, h, k, us, cls, i, t));
        }
    }
}
pub proof fn lemma_cert_lift(p: Seq<usize>, g: GV, id: usize, h: GV, m: PM, k: PM, c: Seq<usize>)
    requires
        g.wf(), !g.has(id), is_matching(g, m), contracted(p, g, id, h), contracted_m(p, m, id, k), is_matching(h, k),
        blossom_ok(p, g, m), has_cert(h, k), alt_chain(c, h, k), c[0] == id,
    ensures has_cert(g, m),
{
    let (us, cls) = choose|us: Set<usize>, cls: spec_fn(usize) -> int| #[trigger] cert(h, k, us, cls);
    assert(cert(h, k, us, cls));
    lemma_stem(c, h, k, us, cls);
    let base = choose|x: usize| #[trigger] base_of(p, m, x);
    assert(base_of(p, m, base));
    let cls2 = |u: usize| cls(im(p, id, u));
    assert forall|u: usize| us.contains(u) implies !p.contains(u) && u != id && k.contains_key(u) && m.contains_key(u) by {
        assert(k.contains_key(u));
    }
    assert forall|u: usize, v: usize| #[trigger] g.adj(u, v) && !us.contains(u) && !us.contains(v) implies cls2(u) == cls2(v) by {
        if !inside(p, u, v) {
            assert(cadj_by(p, g, id, im(p, id, u), im(p, id, v), u, v));
            assert(h.adj(im(p, id, u), im(p, id, v)));
        }
    }
    assert forall|u: usize| #[trigger] us.contains(u) implies m.contains_key(u) && !us.contains(m[u]) by {
        assert(!us.contains(k[u]));
        assert(k[u] == im(p, id, m[u]));
    }
    assert forall|s: usize| #[trigger] tip(g, m, us, s) implies tip(h, k, us, im(p, id, s)) && (p.contains(s) ==> s == base) by {
        assert(g.has(s));
        if p.contains(s) {
            if s != base { assert(m.contains_key(s) && p.contains(m[s])); }
            if k.contains_key(id) {
                let w = k[id];
                assert(m[w] == base) by { if m[w] != base { assert(p.contains(m[w])); assert(m.contains_key(m[w]) && p.contains(m[m[w]])); assert(m[m[w]] == w); } }
                assert(m.contains_key(w) && m[m[w]] == w);
            }
        } else {
            if k.contains_key(s) { assert(k[s] == im(p, id, m[s])); }
        }
    }
    assert forall|s: usize, t: usize| #[trigger] tip(g, m, us, s) && #[trigger] tip(g, m, us, t) && s != t implies cls2(s) != cls2(t) by {
        assert(tip(h, k, us, im(p, id, s)) && tip(h, k, us, im(p, id, t)));
        assert(im(p, id, s) != im(p, id, t)) by {
            assert(g.has(s) && g.has(t));
        }
    }
    assert(cert(g, m, us, cls2));
}

// ------------------------------------------------------------------ the flower found by the search

pub open spec fn flower_pre(left: Seq<usize>, right: Seq<usize>, g: GV, m: PM) -> bool {
    &&& alt_chain(left, g, m) && alt_chain(right, g, m) && meet(left, right)
    &&& g.adj(left[0], right[0]) && left.last() == right.last()
}
pub proof fn lemma_join_exists(left: Seq<usize>, right: Seq<usize>, g: GV, m: PM)
    requires flower_pre(left, right, g, m),
    ensures exists|i: int, j: int| 0 <= i < left.len() && 0 <= j < right.len() && #[trigger] left[i] == #[trigger] right[j],
{
    assert(left[left.len() - 1] == right[right.len() - 1]);
}
pub proof fn lemma_join_even(left: Seq<usize>, right: Seq<usize>, g: GV, m: PM, i: int, j: int)
    requires g.wf(), is_matching(g, m), flower_pre(left, right, g, m), join_at(left, right, i, j),
    ensures
        i % 2 == 0, j % 2 == 0, left.skip(i) == right.skip(j),
{
    assert(meet_at(left, right, i, j));
    if i % 2 == 1 {
        assert(alt_at(left, g, m, i - 1));
        assert(alt_at(right, g, m, j - 1));
        assert(left[i - 1] == right[j - 1]);
    }
}
/// where each node of the flower stands
pub open spec fn flower_at(p: Seq<usize>, left: Seq<usize>, right: Seq<usize>, i: int, j: int) -> bool {
    &&& p.len() == i + 1 + j
    &&& forall|t: int| 0 <= t <= i ==> #[trigger] p[t] == left[t]
    &&& forall|t: int| i < t < p.len() ==> #[trigger] p[t] == right[i + j - t]
    &&& forall|t: int| 0 <= t <= i ==> p.contains(#[trigger] left[t])
    &&& forall|t: int| 0 <= t < j ==> p.contains(#[trigger] right[t])
}
pub proof fn lemma_flower_at(left: Seq<usize>, right: Seq<usize>, i: int, j: int)
    requires 0 <= i < left.len(), 0 <= j < right.len(),
    ensures flower_at(flower(left, right, i, j), left, right, i, j),
{
    let p = flower(left, right, i, j);
    let rr = right.subrange(0, j).reverse();
    assert forall|t: int| i < t < p.len() implies #[trigger] p[t] == right[i + j - t] by {
        assert(p[t] == rr[t - i - 1]);
    }
    assert forall|t: int| 0 <= t <= i implies p.contains(#[trigger] left[t]) by { assert(p[t] == left[t]); }
    assert forall|t: int| 0 <= t < j implies p.contains(#[trigger] right[t]) by { assert(p[i + j - t] == right[t]); }
}
proof fn lemma_flower_no_dup(p: Seq<usize>, left: Seq<usize>, right: Seq<usize>, g: GV, m: PM, i: int, j: int)
    requires flower_at(p, left, right, i, j), join_at(left, right, i, j), alt_chain(left, g, m), alt_chain(right, g, m),
    ensures p.no_duplicates(), forall|x: usize| #[trigger] p.contains(x) ==> g.has(x),
{
    assert forall|s: int, t: int| 0 <= s < p.len() && 0 <= t < p.len() && s != t implies p[s] != p[t] by {
        if s <= i && t <= i { assert(left[s] != left[t]); }
        else if s > i && t > i { assert(right[i + j - s] != right[i + j - t]); }
        else if s <= i { assert(p[t] == right[i + j - t]); assert(left[s] != right[i + j - t]); }
        else { assert(p[s] == right[i + j - s]); assert(left[t] != right[i + j - s]); }
    }
    assert forall|x: usize| #[trigger] p.contains(x) implies g.has(x) by {
        let t = choose|t: int| 0 <= t < p.len() && p[t] == x;
        if t <= i { assert(left.contains(left[t])); } else { assert(right.contains(right[i + j - t])); }
    }
}
proof fn lemma_flower_cycle(p: Seq<usize>, left: Seq<usize>, right: Seq<usize>, g: GV, m: PM, i: int, j: int)
    requires
        g.wf(), is_matching(g, m), flower_at(p, left, right, i, j), join_at(left, right, i, j), alt_chain(left, g, m), alt_chain(right, g, m),
        g.adj(left[0], right[0]),
    ensures cycle(p, g),
{
    assert(g.adj(right[0], left[0]));
    assert forall|t: int| 0 <= t < p.len() implies #[trigger] cyc_at(p, g, t) by {
        if t < i { lemma_alt_adj(left, g, m, t); assert(p[t + 1] == left[t + 1]); }
        else if t == p.len() - 1 {
            assert(p[0] == left[0]);
            if t == i { assert(j == 0); assert(p[t] == left[i]); } else { assert(p[t] == right[0]); }
        }
        else {
            let b = i + j - t;
            if t == i { assert(p[t] == left[i]); } else { assert(p[t] == right[b]); }
            assert(p[t] == right[b]);
            assert(p[t + 1] == right[b - 1]);
            lemma_alt_adj(right, g, m, b - 1);
        }
    }
}
/// what comes after the meeting point is not in the flower
proof fn lemma_flower_beyond(p: Seq<usize>, left: Seq<usize>, right: Seq<usize>, g: GV, m: PM, i: int, j: int, e: int)
    requires
        flower_at(p, left, right, i, j), join_at(left, right, i, j), alt_chain(left, g, m), alt_chain(right, g, m),
        left.skip(i) == right.skip(j), 1 <= e < left.len() - i,
    ensures !p.contains(left[i + e]),
{
    let y = left[i + e];
    let (ls, rs) = (left.skip(i), right.skip(j));
    assert(ls.len() == left.len() - i && rs.len() == right.len() - j);
    assert(ls[e] == y && rs[e] == y);
    assert(rs[e] == right[j + e]);
    if p.contains(y) {
        let t = choose|t: int| 0 <= t < p.len() && p[t] == y;
        if t <= i { assert(left[t] != left[i + e]); }
        else { assert(p[t] == right[i + j - t]); assert(right[i + j - t] != right[j + e]); }
    }
}
proof fn lemma_flower_mates(p: Seq<usize>, left: Seq<usize>, right: Seq<usize>, g: GV, m: PM, i: int, j: int)
    requires
        g.wf(), is_matching(g, m), flower_at(p, left, right, i, j), join_at(left, right, i, j), alt_chain(left, g, m), alt_chain(right, g, m),
        left.skip(i) == right.skip(j), i % 2 == 0, j % 2 == 0,
    ensures base_of(p, m, left[i]),
{
    let base = left[i];
    assert(p.contains(base));
    if m.contains_key(base) {
        if i == left.len() - 1 { assert(left.last() == base); }
        assert(alt_at(left, g, m, i));
        assert(m[base] == left[i + 1]);
        lemma_flower_beyond(p, left, right, g, m, i, j, 1);
    }
    assert forall|z: usize| #[trigger] p.contains(z) && z != base implies m.contains_key(z) && p.contains(m[z]) by {
        let t = choose|t: int| 0 <= t < p.len() && p[t] == z;
        if t <= i {
            assert(z == left[t]);
            if t % 2 == 0 { assert(alt_at(left, g, m, t)); assert(p.contains(left[t + 1])); }
            else { assert(alt_at(left, g, m, t - 1)); assert(p.contains(left[t - 1])); }
        } else {
            let b = i + j - t;
            assert(right[b] == z);
            if b % 2 == 0 { assert(alt_at(right, g, m, b)); assert(b + 1 < j); assert(p.contains(right[b + 1])); }
            else { assert(alt_at(right, g, m, b - 1)); assert(p.contains(right[b - 1])); }
        }
    }
}
pub proof fn lemma_flower(left: Seq<usize>, right: Seq<usize>, g: GV, m: PM, i: int, j: int)
    requires g.wf(), is_matching(g, m), flower_pre(left, right, g, m), join_at(left, right, i, j),
    ensures blossom_ok(flower(left, right, i, j), g, m), base_of(flower(left, right, i, j), m, left[i]),
{
    let p = flower(left, right, i, j);
    lemma_join_even(left, right, g, m, i, j);
    lemma_flower_at(left, right, i, j);
    lemma_flower_no_dup(p, left, right, g, m, i, j);
    lemma_flower_cycle(p, left, right, g, m, i, j);
    lemma_flower_mates(p, left, right, g, m, i, j);
}
/// the stem of the flower is an alternating path of the contracted graph
pub proof fn lemma_flower_stem(left: Seq<usize>, right: Seq<usize>, g: GV, m: PM, i: int, j: int, id: usize, h: GV, k: PM)
    requires
        g.wf(), !g.has(id), is_matching(g, m), flower_pre(left, right, g, m), join_at(left, right, i, j),
        contracted(flower(left, right, i, j), g, id, h), contracted_m(flower(left, right, i, j), m, id, k), is_matching(h, k),
    ensures exists|c: Seq<usize>| #[trigger] alt_chain(c, h, k) && c[0] == id,
{
    let p = flower(left, right, i, j);
    let n = p.len() as int;
    let base = left[i];
    lemma_join_even(left, right, g, m, i, j);
    lemma_flower(left, right, g, m, i, j);
    assert(base_of(p, m, base));
    let c = seq![id] + left.skip(i + 1);
    let e = left.len() - i;
    assert(c.len() == e);
    lemma_flower_at(left, right, i, j);
    assert forall|t: int| 1 <= t < e implies #[trigger] c[t] == left[i + t] by {}
    assert forall|t: int| 1 <= t < e implies !p.contains(#[trigger] c[t]) && c[t] != id && g.has(c[t]) by {
        assert(left.contains(left[i + t]));
        lemma_flower_beyond(p, left, right, g, m, i, j, t);
    }
    assert forall|s: int, t: int| 0 <= s < t < e implies c[s] != c[t] by {
        if s > 0 { assert(left[i + s] != left[i + t]); }
        else { assert(c[t] != id); }
    }
    assert(c.no_duplicates());
    assert forall|x: usize| #[trigger] c.contains(x) implies h.has(x) by {
        let t = choose|t: int| 0 <= t < c.len() && c[t] == x;
        if t > 0 { assert(!p.contains(c[t]) && g.has(c[t])); }
    }
    // the root stays exposed
    if e == 1 {
        assert(left.last() == base);
        assert(c.last() == id);
        assert(!k.contains_key(id)) by {
            if k.contains_key(id) {
                let z = choose|z: usize| p.contains(z) && #[trigger] m.contains_key(z) && !p.contains(m[z]);
                assert(z == base);
            }
        }
    } else {
        assert(c.last() == left.last());
        assert(c[e - 1] != id);
        assert(c.last() != id);
    }
    assert forall|t: int| 0 <= t < c.len() - 1 implies #[trigger] alt_at(c, h, k, t) by {
        assert(alt_at(left, g, m, i + t));
        lemma_alt_adj(left, g, m, i + t);
        let (x, y) = (left[i + t], left[i + t + 1]);
        assert(c[t + 1] == y);
        assert(!p.contains(y) && y != id);
        if t > 0 { assert(c[t] == x); assert(!p.contains(x) && x != id); } else { assert(p.contains(x)); }
        assert(im(p, id, x) == c[t]);
        assert((i + t) % 2 == t % 2);
        if t % 2 == 0 {
            assert(m.contains_pair(x, y) && m.contains_pair(y, x));
            assert(m.contains_key(y) && m[y] == x);
            assert(k.contains_key(y));
            assert(k[y] == im(p, id, m[y]));
            assert(k.contains_key(k[y]) && k[k[y]] == y);
        } else {
            assert(cadj_by(p, g, id, c[t], y, x, y));
        }
    }
    assert(alt_chain(c, h, k));
}

// ------------------------------------------------------------------ building the contracted graph

pub open spec fn met(g: GV, p: Seq<usize>, n: int) -> bool { exists|i: int| 0 <= i < n && p.contains(#[trigger] g.nodes[i]) }
pub open spec fn kept(g: GV, p: Seq<usize>, n: int, x: usize) -> bool { !p.contains(x) && exists|i: int| 0 <= i < n && #[trigger] g.nodes[i] == x }
/// the new node and the first n nodes of g but for those of p
pub open spec fn cg_nodes(h: GV, g: GV, p: Seq<usize>, id: usize, n: int) -> bool {
    &&& h.wf() && h.edges.len() == 0
    &&& forall|x: usize| #[trigger] h.has(x) <==> x == id || kept(g, p, n, x)
    &&& h.nodes.len() + (if met(g, p, n) { 1int } else { 0 }) <= n + 1
}
pub proof fn lemma_cg_start(h: GV, g: GV, p: Seq<usize>, id: usize)
    requires h.wf(), h == GV::empty().with_node(id),
    ensures cg_nodes(h, g, p, id, 0),
{
}
pub proof fn lemma_cg_fresh(h: GV, g: GV, p: Seq<usize>, id: usize, n: int)
    requires g.wf(), !g.has(id), cg_nodes(h, g, p, id, n), 0 <= n < g.nodes.len(),
    ensures !h.has(g.nodes[n]),
{
    let x = g.nodes[n];
    assert(g.nodes.contains(x));
    assert(g.has(x));
    if kept(g, p, n, x) { let i = choose|i: int| 0 <= i < n && #[trigger] g.nodes[i] == x; assert(i != n); }
}
pub proof fn lemma_cg_node(h: GV, g: GV, p: Seq<usize>, id: usize, n: int, h2: GV)
    requires
        g.wf(), !g.has(id), cg_nodes(h, g, p, id, n), 0 <= n < g.nodes.len(), h2.wf(),
        h2 == if p.contains(g.nodes[n]) { h } else { h.with_node(g.nodes[n]) },
    ensures cg_nodes(h2, g, p, id, n + 1),
{
    let x = g.nodes[n];
    assert forall|y: usize| #[trigger] h2.has(y) <==> y == id || kept(g, p, n + 1, y) by {
        assert(h.has(y) <==> y == id || kept(g, p, n, y));
        if kept(g, p, n, y) { let i = choose|i: int| 0 <= i < n && #[trigger] g.nodes[i] == y; assert(kept(g, p, n + 1, y)); }
        if kept(g, p, n + 1, y) { let i = choose|i: int| 0 <= i < n + 1 && #[trigger] g.nodes[i] == y; if i < n { assert(kept(g, p, n, y)); } }
        if !p.contains(x) { assert(g.nodes[n] == x); assert(kept(g, p, n + 1, x)); }
    }
    if met(g, p, n + 1) && !met(g, p, n) {
        let i = choose|i: int| 0 <= i < n + 1 && p.contains(#[trigger] g.nodes[i]);
        assert(i == n);
    }
    if met(g, p, n) {
        let i = choose|i: int| 0 <= i < n && p.contains(#[trigger] g.nodes[i]);
        assert(met(g, p, n + 1));
    }
}
pub open spec fn maps(e: (usize, usize), p: Seq<usize>, id: usize, x: usize, y: usize) -> bool {
    !inside(p, e.0, e.1) && same((im(p, id, e.0), im(p, id, e.1)), (x, y))
}
pub open spec fn mapped(g: GV, p: Seq<usize>, id: usize, n: int, x: usize, y: usize) -> bool {
    exists|i: int| 0 <= i < n && maps(#[trigger] g.edges[i], p, id, x, y)
}
pub open spec fn dropped(g: GV, p: Seq<usize>, n: int) -> bool { exists|i: int| 0 <= i < n && inside(p, (#[trigger] g.edges[i]).0, g.edges[i].1) }
/// all the nodes, and the images of the first n edges of g
pub open spec fn cg_edges(h: GV, g: GV, p: Seq<usize>, id: usize, n: int) -> bool {
    &&& h.wf()
    &&& h.nodes.len() <= g.nodes.len()
    &&& h.edges.len() + (if dropped(g, p, n) { 1int } else { 0 }) <= n
    &&& forall|x: usize| #[trigger] h.has(x) <==> x == id || (g.has(x) && !p.contains(x))
    &&& forall|x: usize, y: usize| #[trigger] h.adj(x, y) <==> mapped(g, p, id, n, x, y)
}
pub proof fn lemma_cg_turn(h: GV, g: GV, p: Seq<usize>, id: usize)
    requires
        g.wf(), !g.has(id), cg_nodes(h, g, p, id, g.nodes.len() as int), p.len() > 0,
        forall|x: usize| #[trigger] p.contains(x) ==> g.has(x),
    ensures cg_edges(h, g, p, id, 0),
{
    assert(p.contains(p[0]));
    assert(g.nodes.contains(p[0]));
    let i = choose|i: int| 0 <= i < g.nodes.len() && g.nodes[i] == p[0];
    assert(p.contains(g.nodes[i]));
    assert(met(g, p, g.nodes.len() as int));
    assert forall|x: usize| #[trigger] h.has(x) <==> x == id || (g.has(x) && !p.contains(x)) by {
        if g.has(x) && !p.contains(x) {
            assert(g.nodes.contains(x));
            let i = choose|i: int| 0 <= i < g.nodes.len() && g.nodes[i] == x;
            assert(kept(g, p, g.nodes.len() as int, x));
        }
        if kept(g, p, g.nodes.len() as int, x) { assert(g.nodes.contains(x)); }
    }
    assert forall|x: usize, y: usize| #[trigger] h.adj(x, y) implies false by {
        assert(listed(h.edges, x, y));
    }
}
/// both ends of an edge go to nodes, and an edge off the blossom is new
pub proof fn lemma_cg_ready(h: GV, g: GV, p: Seq<usize>, id: usize, n: int)
    requires g.wf(), !g.has(id), cg_edges(h, g, p, id, n), 0 <= n < g.edges.len(),
    ensures ({
        let (s, t) = g.edges[n];
        &&& g.has(s) && g.has(t) && h.has(im(p, id, s)) && h.has(im(p, id, t))
        &&& !p.contains(s) && !p.contains(t) ==> !h.adj(s, t)
    }),
{
    let (s, t) = g.edges[n];
    assert(g.adj(s, t));
    assert(g.adj(t, s));
    if !p.contains(s) && !p.contains(t) && h.adj(s, t) {
        let i = choose|i: int| 0 <= i < n && maps(#[trigger] g.edges[i], p, id, s, t);
        let e = g.edges[i];
        assert(g.adj(e.0, e.1));
        assert(g.adj(e.1, e.0));
        assert(!same(g.edges[i], g.edges[n]));
        assert(false);
    }
}
pub proof fn lemma_cg_edge(h: GV, g: GV, p: Seq<usize>, id: usize, n: int, h2: GV)
    requires
        g.wf(), !g.has(id), cg_edges(h, g, p, id, n), 0 <= n < g.edges.len(), h2.wf(),
        ({
            let (s, t) = g.edges[n];
            let (x, y) = (im(p, id, s), im(p, id, t));
            if inside(p, s, t) || h.adj(x, y) { h2 == h } else { h2 == h.with_edge(x, y) }
        }),
    ensures cg_edges(h2, g, p, id, n + 1),
{
    let (s, t) = g.edges[n];
    let (x, y) = (im(p, id, s), im(p, id, t));
    lemma_cg_ready(h, g, p, id, n);
    if !inside(p, s, t) && !h.adj(x, y) { lemma_with_edge_adj(h, x, y); }
    assert forall|u: usize, v: usize| #[trigger] h2.adj(u, v) <==> mapped(g, p, id, n + 1, u, v) by {
        assert(h.adj(u, v) <==> mapped(g, p, id, n, u, v));
        if mapped(g, p, id, n, u, v) {
            let i = choose|i: int| 0 <= i < n && maps(#[trigger] g.edges[i], p, id, u, v);
            assert(mapped(g, p, id, n + 1, u, v));
        }
        if mapped(g, p, id, n + 1, u, v) {
            let i = choose|i: int| 0 <= i < n + 1 && maps(#[trigger] g.edges[i], p, id, u, v);
            if i < n { assert(mapped(g, p, id, n, u, v)); }
            else if h.adj(x, y) { assert(h.adj(y, x)); }
        }
        if !inside(p, s, t) && same((x, y), (u, v)) { assert(maps(g.edges[n], p, id, u, v)); assert(mapped(g, p, id, n + 1, u, v)); }
    }
    assert forall|u: usize| #[trigger] h2.has(u) <==> u == id || (g.has(u) && !p.contains(u)) by {
        assert(h2.has(u) <==> h.has(u));
    }
    if dropped(g, p, n + 1) && !dropped(g, p, n) {
        let i = choose|i: int| 0 <= i < n + 1 && inside(p, (#[trigger] g.edges[i]).0, g.edges[i].1);
        if i < n { assert(dropped(g, p, n)); }
        assert(i == n);
    }
    if dropped(g, p, n) {
        let i = choose|i: int| 0 <= i < n && inside(p, (#[trigger] g.edges[i]).0, g.edges[i].1);
        assert(dropped(g, p, n + 1));
    }
}
pub proof fn lemma_cg_end(h: GV, g: GV, p: Seq<usize>, id: usize)
    requires
        g.wf(), !g.has(id), cg_edges(h, g, p, id, g.edges.len() as int), p.len() > 0, cycle(p, g),
    ensures contracted(p, g, id, h), h.nodes.len() <= g.nodes.len(), h.edges.len() < g.edges.len(),
{
    let n = g.edges.len() as int;
    assert(cyc_at(p, g, 0));
    let (u, v) = (p[0], p[nxt(p, 0)]);
    assert(p.contains(u) && p.contains(v));
    assert(listed(g.edges, u, v));
    let e = if g.edges.contains((u, v)) { (u, v) } else { (v, u) };
    let i = choose|i: int| 0 <= i < n && g.edges[i] == e;
    assert(inside(p, g.edges[i].0, g.edges[i].1));
    assert(dropped(g, p, n));
    assert forall|x: usize, y: usize| #[trigger] h.adj(x, y) <==> cadj(p, g, id, x, y) by {
        if mapped(g, p, id, n, x, y) {
            let i = choose|i: int| 0 <= i < n && maps(#[trigger] g.edges[i], p, id, x, y);
            let (s, t) = g.edges[i];
            assert(g.adj(s, t));
            assert(g.adj(t, s));
            if im(p, id, s) == x && im(p, id, t) == y { assert(cadj_by(p, g, id, x, y, s, t)); }
            else { assert(cadj_by(p, g, id, x, y, t, s)); }
        }
        if cadj(p, g, id, x, y) {
            let (s, t) = choose|u: usize, v: usize| #[trigger] cadj_by(p, g, id, x, y, u, v);
            assert(cadj_by(p, g, id, x, y, s, t));
            assert(listed(g.edges, s, t));
            let e = if g.edges.contains((s, t)) { (s, t) } else { (t, s) };
            let i = choose|i: int| 0 <= i < n && g.edges[i] == e;
            assert(maps(g.edges[i], p, id, x, y));
            assert(mapped(g, p, id, n, x, y));
        }
    }
}

// ------------------------------------------------------------------ building the contracted matching

pub open spec fn seen(s: Seq<(usize, usize)>, n: int, x: usize) -> bool { exists|i: int| 0 <= i < n && ((#[trigger] s[i]).0 == x || s[i].1 == x) }
/// m contracted, as far as the first n of its pairs go
pub open spec fn cp_pairs(k: PM, m: PM, p: Seq<usize>, id: usize, s: Seq<(usize, usize)>, n: int) -> bool {
    &&& mwf(k)
    &&& forall|x: usize| x != id ==> (#[trigger] k.contains_key(x) <==> m.contains_key(x) && !p.contains(x) && seen(s, n, x))
    &&& forall|x: usize| x != id && #[trigger] k.contains_key(x) ==> k[x] == im(p, id, m[x])
    &&& k.contains_key(id) <==> exists|z: usize| p.contains(z) && #[trigger] m.contains_key(z) && !p.contains(m[z]) && seen(s, n, z)
    &&& k.contains_key(id) ==> !p.contains(k[id]) && m.contains_key(k[id]) && p.contains(m[k[id]])
}
pub open spec fn cp_pre(m: PM, p: Seq<usize>, id: usize) -> bool {
    &&& mwf(m) && !m.contains_key(id) && !p.contains(id)
    &&& exists|x: usize| #[trigger] base_of(p, m, x)
}
pub proof fn lemma_cp_start(m: PM, p: Seq<usize>, id: usize, s: Seq<(usize, usize)>)
    ensures cp_pairs(Map::empty(), m, p, id, s, 0),
{
}
proof fn lemma_cp_unseen(m: PM, s: Seq<(usize, usize)>, n: int)
    requires mwf(m), pairs_of(s, m), 0 <= n < s.len(),
    ensures !seen(s, n, s[n].0), !seen(s, n, s[n].1),
        m.contains_pair(s[n].0, s[n].1), m.contains_pair(s[n].1, s[n].0),
        forall|x: usize| #[trigger] seen(s, n + 1, x) <==> seen(s, n, x) || x == s[n].0 || x == s[n].1,
{
    let (a, b) = s[n];
    assert(m.contains_pair(a, b));
    assert(m.contains_key(a));
    if seen(s, n, a) || seen(s, n, b) {
        let i = choose|i: int| 0 <= i < n && ((#[trigger] s[i]).0 == a || s[i].1 == a || s[i].0 == b || s[i].1 == b);
        let e = s[i];
        assert(m.contains_pair(e.0, e.1));
        assert(m.contains_key(e.0));
        assert(s[i] == s[n]);
    }
    assert forall|x: usize| #[trigger] seen(s, n + 1, x) <==> seen(s, n, x) || x == s[n].0 || x == s[n].1 by {
        if seen(s, n + 1, x) { let i = choose|i: int| 0 <= i < n + 1 && ((#[trigger] s[i]).0 == x || s[i].1 == x); if i < n { assert(seen(s, n, x)); } }
        if seen(s, n, x) { let i = choose|i: int| 0 <= i < n && ((#[trigger] s[i]).0 == x || s[i].1 == x); assert(seen(s, n + 1, x)); }
    }
}
pub proof fn lemma_cp_ready(k: PM, m: PM, p: Seq<usize>, id: usize, s: Seq<(usize, usize)>, n: int)
    requires cp_pre(m, p, id), pairs_of(s, m), cp_pairs(k, m, p, id, s, n), 0 <= n < s.len(), !inside(p, s[n].0, s[n].1),
    ensures
        im(p, id, s[n].0) != im(p, id, s[n].1), !k.contains_key(im(p, id, s[n].0)), !k.contains_key(im(p, id, s[n].1)),
        m.contains_key(s[n].0), m.contains_key(s[n].1), s[n].0 != id, s[n].1 != id,
{
    lemma_cp_unseen(m, s, n);
    let (a, b) = s[n];
    let base = choose|x: usize| #[trigger] base_of(p, m, x);
    assert(base_of(p, m, base));
    if (p.contains(a) || p.contains(b)) && k.contains_key(id) {
        let z = choose|z: usize| p.contains(z) && #[trigger] m.contains_key(z) && !p.contains(m[z]) && seen(s, n, z);
        assert(z == base);
        if p.contains(a) { assert(a == base); } else { assert(b == base); }
    }
}
pub proof fn lemma_cp_step(k: PM, m: PM, p: Seq<usize>, id: usize, s: Seq<(usize, usize)>, n: int, k2: PM)
    requires
        cp_pre(m, p, id), pairs_of(s, m), cp_pairs(k, m, p, id, s, n), 0 <= n < s.len(), mwf(k2),
        if inside(p, s[n].0, s[n].1) { k2 == k } else { paired(k, im(p, id, s[n].0), im(p, id, s[n].1), k2) },
    ensures cp_pairs(k2, m, p, id, s, n + 1),
{
    lemma_cp_unseen(m, s, n);
    let (a, b) = s[n];
    if !inside(p, a, b) {
        lemma_cp_ready(k, m, p, id, s, n);
        let (x, y) = (im(p, id, a), im(p, id, b));
        assert forall|u: usize| u != x && u != y implies (#[trigger] k2.contains_key(u) <==> k.contains_key(u)) by {
            if k.contains_key(u) { assert(k.contains_key(k[u])); }
        }
        if p.contains(a) || p.contains(b) {
            let z = if p.contains(a) { a } else { b };
            assert(m.contains_key(z) && !p.contains(m[z]) && seen(s, n + 1, z));
            assert(k2.contains_key(id));
        } else {
            if k2.contains_key(id) {
                assert(k.contains_key(id));
                assert(k2[id] == k[id]);
                let z = choose|z: usize| p.contains(z) && #[trigger] m.contains_key(z) && !p.contains(m[z]) && seen(s, n, z);
                assert(seen(s, n + 1, z));
            }
        }
    } else {
        if k.contains_key(id) {
            let z = choose|z: usize| p.contains(z) && #[trigger] m.contains_key(z) && !p.contains(m[z]) && seen(s, n, z);
            assert(seen(s, n + 1, z));
        }
    }
    assert forall|x: usize| x != id implies (#[trigger] k2.contains_key(x) <==> m.contains_key(x) && !p.contains(x) && seen(s, n + 1, x)) by {
        assert(k.contains_key(x) <==> m.contains_key(x) && !p.contains(x) && seen(s, n, x));
    }
    assert forall|x: usize| x != id && #[trigger] k2.contains_key(x) implies k2[x] == im(p, id, m[x]) by {
        if k.contains_key(x) { assert(k[x] == im(p, id, m[x])); }
    }
}
pub proof fn lemma_cp_end(k: PM, m: PM, p: Seq<usize>, id: usize, s: Seq<(usize, usize)>)
    requires cp_pre(m, p, id), pairs_of(s, m), cp_pairs(k, m, p, id, s, s.len() as int),
    ensures contracted_m(p, m, id, k),
{
    assert forall|x: usize| #[trigger] m.contains_key(x) implies seen(s, s.len() as int, x) by {
        let y = m[x];
        assert(m.contains_key(y) && m[y] == x && y != x);
        let e = if x < y { (x, y) } else { (y, x) };
        assert(s.contains(e));
        let i = choose|i: int| 0 <= i < s.len() && s[i] == e;
        assert(s[i].0 == x || s[i].1 == x);
    }
}

} // verus!
}
