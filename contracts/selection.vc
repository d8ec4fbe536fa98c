@module selection::components
@prelude
broadcast use vstd::std_specs::hash::group_hash_axioms;
use crate::tr::*;
use crate::sl::*;
@inject Components
    /// the components reported so far are done
    pub open spec fn inv(&self, done: Seq<GV>) -> bool {
        self.graph.lawful() && comps_inv(self.graph.gv(), done, self.visited@, self.iter.all(), self.iter.pos())
    }
    pub open spec fn valid(&self) -> bool { exists|done: Seq<GV>| #[trigger] self.inv(done) }

@fn components
@spec
    requires graph.lawful()
    ensures r.graph == graph, r.inv(Seq::empty())
@start
    proof { graph.lemma_lawful(); }

@fn Components::next
@attr
#[verifier::loop_isolation(false)]
@spec
    requires old(self).valid()
    ensures
        final(self).graph == old(self).graph, final(self).iter.all() == old(self).iter.all(),
        r is Some ==> old(self).iter.pos() < final(self).iter.pos() && r->Some_0.inv(),
        forall|done: Seq<GV>| #[trigger] old(self).inv(done) ==> match r {
            None => partition(old(self).graph.gv(), done),
            Some(c) => final(self).inv(done.push(c.view_gv())),
        }
@start
    let ghost g = self.graph.gv();
    let ghost v0 = self.visited@;
    let ghost all = self.iter.all();
    let ghost p0 = self.iter.pos();
    proof {
        let d = choose|done: Seq<GV>| #[trigger] self.inv(done);
        assert(comps_inv(g, d, v0, all, p0));
        self.graph.lemma_lawful();
    }
@loop 0
    invariant
        self.graph == old(self).graph, self.visited@ == v0, self.iter.all() == all, p0 <= self.iter.pos() <= all.len(),
        forall|k: int| p0 <= k < self.iter.pos() ==> v0.contains(#[trigger] all[k]),
    decreases all.len() - self.iter.pos()
@exit
    proof { if vx_ret is None {
        assert forall|done: Seq<GV>| #[trigger] old(self).inv(done) implies partition(g, done) by {
            assert forall|k: int| 0 <= k < all.len() implies covered(done, #[trigger] all[k]) by {
                if k >= p0 { assert(v0.contains(all[k])); }
            }
            lemma_partition(g, done, v0, all, all.len() as int);
        }
    } }
@after 1 "let root"
    let ghost p1 = self.iter.pos();
    proof {
        assert(all[p1 - 1] == root);
        assert(g.nodes.contains(root));
    }
@before 1 "*component.is_empty()"
    let ghost t = component.view_gv();
    let ghost v1 = self.visited@;
@loop 1
    invariant
        self.graph == old(self).graph, self.iter.all() == all, self.iter.pos() == p1,
        $it.all() == component.view_gv().nodes, 0 <= $it.pos() <= component.view_gv().nodes.len(),
        forall|x: usize| #[trigger] self.visited@.contains(x) <==> v1.contains(x) || component.view_gv().nodes.subrange(0, $it.pos()).contains(x),
    decreases component.view_gv().nodes.len() - $it.pos()
@loop_before 1
    proof { assert(component.view_gv().nodes.subrange(0, 0) =~= Seq::empty()); }
@loop_start 1
    proof { lemma_subrange_push(component.view_gv().nodes, $it.pos() - 1); }
@loop_after 1
    proof { assert(component.view_gv().nodes.subrange(0, component.view_gv().nodes.len() as int) =~= component.view_gv().nodes); }
@before 1 "Some(component)"
    proof {
        let c = component.view_gv();
        if t.nodes.len() == 0 {
            assert(t.edges.len() == 0) by {
                if t.edges.len() > 0 { let e = t.edges[0]; assert(t.adj(e.0, e.1)); assert(t.nodes.contains(e.0)); }
            }
            assert(t.nodes =~= Seq::empty() && t.edges =~= Seq::empty());
            assert(t.nbrs =~= Map::empty()) by {
                assert forall|u: usize| !#[trigger] t.nbrs.contains_key(u) by { assert(t.nodes.contains(u) <==> t.nbrs.contains_key(u)); }
            }
            assert(c == GV::empty().with_node(root));
        }
        lemma_component(g, root, t, c);
        assert forall|x: usize| #[trigger] self.visited@.contains(x) <==> v0.contains(x) || c.has(x) by {
            assert(c.nodes.contains(x) <==> c.has(x));
            if t.nodes.len() == 0 { assert(c.nodes =~= seq![root]); assert(c.nodes[0] == root); }
        }
        assert forall|done: Seq<GV>| #[trigger] old(self).inv(done) implies self.inv(done.push(c)) by {
            lemma_comps_push(g, done, v0, self.visited@, all, p0, p1, c, root);
        }
    }
