@module matching::blossom
@prelude
use crate::mt::*;
use crate::mm::*;
use crate::bl::*;
@inject Blossom
    /// the blossom's nodes are a cycle of g, and id is new
    pub open spec fn of(&self, g: GV) -> bool {
        &&& self.path@.len() > 0 && !g.has(self.id) && cycle(self.path@, g)
        &&& forall|x: usize| #[trigger] self.path@.contains(x) ==> g.has(x)
    }

@fn Blossom::new
@attr
#[verifier::loop_isolation(false)]
@spec
    requires exists|i: int, j: int| 0 <= i < left@.len() && 0 <= j < right@.len() && #[trigger] left@[i] == #[trigger] right@[j]
    ensures
        r.id == id,
        exists|i: int, j: int| #[trigger] join_at(left@, right@, i, j) && r.path@ == flower(left@, right@, i, j)
@start
    let ghost left0 = left@;
    let ghost right0 = right@;
    proof { assert(left.len() == left@.len() && right.len() == right@.len()); }
@loop 0
    invariant
        left@ == left0, right@ == right0, 0 <= $it.cur <= left0.len(), $it.end == left0.len(),
        forall|a: int, b: int| 0 <= a < $it.cur && 0 <= b < right0.len() ==> #[trigger] left0[a] != #[trigger] right0[b],
    decreases left0.len() - $it.cur
@loop 1
    invariant
        left@ == left0, right@ == right0, 0 <= $it.cur <= right0.len(), $it.end == right0.len(), 0 <= i < left0.len(),
        forall|a: int, b: int| 0 <= a < i && 0 <= b < right0.len() ==> #[trigger] left0[a] != #[trigger] right0[b],
        forall|b: int| 0 <= b < $it.cur ==> left0[i as int] != #[trigger] right0[b],
    decreases right0.len() - $it.cur
@before 1 "let root"
    proof { assert(join_at(left0, right0, i as int, j as int)); }
@before 1 "*Self{"
    proof { assert(left@ =~= flower(left0, right0, i as int, j as int)); }

@fn Blossom::contract_graph
@attr
#[verifier::loop_isolation(false)]
@spec
    requires graph.lawful(), self.of(graph.gv())
    ensures match r {
        Ok(h) => h.inv() && contracted(self.path@, graph.gv(), self.id, h.view_gv())
            && h.view_gv().nodes.len() <= graph.gv().nodes.len() && h.view_gv().edges.len() < graph.gv().edges.len(),
        Err(_) => false,
    }
@start
    let ghost g = graph.gv();
    let ghost p = self.path@;
    proof { graph.lemma_lawful(); }
@loop 0
    invariant
        $it.all() == g.nodes, 0 <= $it.pos() <= g.nodes.len(), result.inv(),
        cg_nodes(result.view_gv(), g, p, self.id, $it.pos()),
    decreases g.nodes.len() - $it.pos()
@loop_before 0
    proof { lemma_cg_start(result.view_gv(), g, p, self.id); }
@loop_start 0
    let ghost h0 = result.view_gv();
    proof { lemma_cg_fresh(h0, g, p, self.id, $it.pos() - 1); }
@loop_end 0
    proof { lemma_cg_node(h0, g, p, self.id, $it.pos() - 1, result.view_gv()); }
@loop 1
    invariant
        $it.all() == g.edges, 0 <= $it.pos() <= g.edges.len(), result.inv(),
        cg_edges(result.view_gv(), g, p, self.id, $it.pos()),
    decreases g.edges.len() - $it.pos()
@loop_before 1
    proof { lemma_cg_turn(result.view_gv(), g, p, self.id); }
@loop_start 1
    let ghost h0 = result.view_gv();
    proof { lemma_cg_ready(h0, g, p, self.id, $it.pos() - 1); }
@loop_end 1
    proof { lemma_cg_edge(h0, g, p, self.id, $it.pos() - 1, result.view_gv()); }
@loop_after 1
    proof { lemma_cg_end(result.view_gv(), g, p, self.id); }

@fn Blossom::contract_pairing
@attr
#[verifier::loop_isolation(false)]
@spec
    requires pairing.inv(), cp_pre(pairing.map(), self.path@, self.id)
    ensures r.inv(), contracted_m(self.path@, pairing.map(), self.id, r.map())
@start
    let ghost m = pairing.map();
    let ghost p = self.path@;
@loop 0
    invariant
        pairs_of($it.all(), m), 0 <= $it.pos() <= $it.all().len(), result.inv(),
        cp_pairs(result.map(), m, p, self.id, $it.all(), $it.pos()),
    decreases $it.all().len() - $it.pos()
@loop_before 0
    proof { lemma_cp_start(m, p, self.id, $it.all()); }
@loop_start 0
    let ghost k0 = result.map();
    proof { if !inside(p, sid, tid) { lemma_cp_ready(k0, m, p, self.id, $it.all(), $it.pos() - 1); } }
@loop_end 0
    proof { lemma_cp_step(k0, m, p, self.id, $it.all(), $it.pos() - 1, result.map()); }
@loop_after 0
    proof { lemma_cp_end(result.map(), m, p, self.id, vx_it0.all()); }

@fn Blossom::lift_left_blossom
@attr
#[verifier::loop_isolation(false)]
@spec
    requires
        graph.lawful(), self.of(graph.gv()), left@.len() > 0, graph.gv().has(left@.last()),
        exists|t: int| 0 <= t < self.path@.len() && #[trigger] graph.gv().adj(left@.last(), self.path@[t])
    ensures
        exists|j: int| 0 <= j < self.path@.len() && r@ == left@ + #[trigger] rot_right(self.path@, j)
            && graph.gv().adj(left@.last(), rot_right(self.path@, j)[0])
@start
    let ghost left0 = left@;
    let ghost p = self.path@;
    let ghost n = p.len() as int;
    let ghost g = graph.gv();
    let ghost mut j: int = 0;
    let ghost t = choose|t: int| 0 <= t < self.path@.len() && #[trigger] graph.gv().adj(left@.last(), self.path@[t]);
    proof { lemma_rot_zero(p); assert(forall|i: int| 0 <= i < p.len() ==> p.contains(#[trigger] p[i])); }
@loop 0
    invariant
        left@ == left0, 0 <= j < n, copy@ == rot_right(p, j), copy@.len() == n, p.contains(copy@[0]),
        forall|i: int| 0 <= i < j ==> !g.adj(left0.last(), #[trigger] rot_right(p, i)[0]),
    decreases n - j
@loop_end 0
    proof {
        assert(!g.adj(left0.last(), rot_right(p, j)[0]));
        lemma_rot_step(p, j);
        j = j + 1;
        let q = if t == 0 { 0int } else { n - t };
        lemma_rot_len(p, q);
        assert(rot_right(p, q)[0] == p[t]);
        assert(q >= j);
        lemma_rot_len(p, j);
    }
@loop_after 0
    proof { assert(copy@ == rot_right(p, j)); }
@exit
    proof { assert(vx_ret@ =~= left0 + rot_right(p, j)); }

@fn Blossom::lift_blossom_right
@attr
#[verifier::loop_isolation(false)]
@spec
    requires
        graph.lawful(), self.of(graph.gv()), right@.len() > 0, graph.gv().has(right@[0]),
        exists|t: int| 0 <= t < self.path@.len() && #[trigger] graph.gv().adj(right@[0], self.path@[t])
    ensures
        exists|j: int| 0 <= j < self.path@.len() && r@ == #[trigger] rot_right(self.path@, j) + right@
            && graph.gv().adj(rot_right(self.path@, j)[self.path@.len() - 1], right@[0])
@start
    let ghost right0 = right@;
    let ghost p = self.path@;
    let ghost n = p.len() as int;
    let ghost g = graph.gv();
    let ghost mut j: int = 0;
    let ghost t = choose|t: int| 0 <= t < self.path@.len() && #[trigger] graph.gv().adj(right@[0], self.path@[t]);
    proof {
        graph.lemma_lawful();
        assert(g.adj(p[t], right0[0]));
        lemma_rot_zero(p); assert(forall|i: int| 0 <= i < p.len() ==> p.contains(#[trigger] p[i]));
    }
@loop 0
    invariant
        right@ == right0, 0 <= j < n, copy@ == rot_right(p, j), copy@.len() == n, p.contains(copy@[n - 1]),
        forall|i: int| 0 <= i < j ==> !g.adj(#[trigger] rot_right(p, i)[n - 1], right0[0]),
    decreases n - j
@loop_end 0
    proof {
        assert(!g.adj(rot_right(p, j)[n - 1], right0[0]));
        lemma_rot_step(p, j);
        j = j + 1;
        let q = n - 1 - t;
        lemma_rot_len(p, q);
        assert(rot_right(p, q)[n - 1] == p[t]);
        assert(q >= j);
        lemma_rot_len(p, j);
    }
@exit
    proof { assert(vx_ret@ =~= rot_right(p, j) + right0); }

@fn Blossom::lift
@spec
    requires
        graph.lawful(), self.of(graph.gv()),
        exists|m: PM, h: GV, k: PM| #[trigger] lift_pre(path@, self.path@, graph.gv(), self.id, h, m, k)
    ensures
        forall|m: PM, h: GV, k: PM| #[trigger] lift_pre(path@, self.path@, graph.gv(), self.id, h, m, k) ==> aug_ok(r@, graph.gv(), m)
@start
    let ghost g = graph.gv();
    let ghost p = self.path@;
    let ghost q = path@;
    let ghost mut at: int = -1;
    proof { graph.lemma_lawful(); assert(path.len() == path@.len()); }
@closure 0 (vx_r0: &usize) -> (b: bool)
    ensures b == (*vx_r0 == self.id)
@before 1 "if left.is_empty"
    let ghost a = index as int;
    proof {
        at = a;
        lemma_lift_parts(q, a, p, g, self.id);
        assert(left@ =~= q.subrange(0, a));
        assert(right@ =~= q.subrange(a + 1, q.len() as int));
    }
@before 1 "lifted.extend"
    let ghost before = lifted@;
    proof { lemma_refs(right@); }
@after 1 "lifted.extend"
    proof { assert(lifted@ == before + q.subrange(a + 1, q.len() as int)); lemma_lift_left(lifted@, before, q, a, p, g); }
@before 1 "lifted.append"
    proof { lemma_tail(lifted@); }
@after 1 "lifted.append"
    proof { lemma_lift_right(lifted@, q, a, p, g); }
@exit
    proof {
        if at < 0 { assert(forall|i: int| 0 <= i < q.len() ==> #[trigger] q[i] != self.id); }
        lemma_lift_all(vx_ret@, q, at, p, g, self.id);
    }

@fn Blossom::lift_left_blossom_right
@attr
#[verifier::loop_isolation(false)]
@spec
    requires
        graph.lawful(), self.of(graph.gv()), left@.len() > 0, right@.len() > 0, graph.gv().has(left@.last()), graph.gv().has(right@[0]),
        exists|t: int| 0 <= t < self.path@.len() && #[trigger] graph.gv().adj(left@.last(), self.path@[t])
@start
    let ghost p = self.path@;
    let ghost g = graph.gv();
    let ghost x = left@.last();
    let ghost mut j: int = 0;
    proof {
        assert(forall|i: int| 0 <= i < p.len() ==> p.contains(#[trigger] p[i]));
        lemma_turn_start(p, x, g);
        lemma_turn_reverse(p, x, g);
    }
@loop 0
    invariant turning(forward_blossom@, p, j, x, g)
    decreases p.len() - j
@loop_start 0
    proof { lemma_turn(forward_blossom@, p, j, x, g); }
@loop_end 0
    proof { j = j + 1; }
@loop_after 0
    proof { lemma_turn_nodes(forward_blossom@, p, j, x, g); j = 0; }
@loop 1
    invariant refs_of($it.all(), forward_blossom@), 0 <= $it.pos() <= $it.all().len()
    decreases $it.all().len() - $it.pos()
@loop_start 1
    proof { assert(bid == forward_blossom@[$it.pos() - 1]); }
@loop 2
    invariant turning(reverse_blossom@, p.reverse(), j, x, g)
    decreases p.len() - j
@loop_start 2
    proof { lemma_turn(reverse_blossom@, p.reverse(), j, x, g); }
@loop_end 2
    proof { j = j + 1; }
@loop_after 2
    proof { lemma_turn_nodes(reverse_blossom@, p.reverse(), j, x, g); }
@loop 3
    invariant refs_of($it.all(), reverse_blossom@), 0 <= $it.pos() <= $it.all().len()
    decreases $it.all().len() - $it.pos()
@loop_start 3
    proof { assert(bid == reverse_blossom@[$it.pos() - 1]); }
