@module traversal::depth_first
@prelude
broadcast use vstd::std_specs::hash::group_hash_axioms;
use crate::tr::*;
@inject DepthFirst
    /// the traversal stands where the history tv leads
    pub open spec fn inv(&self, root: usize, tv: TV) -> bool {
        self.graph.lawful() && dfs_inv(self.graph.gv(), root, tv, self.nodes@, self.stack@)
    }
    pub open spec fn valid(&self) -> bool { exists|root: usize, tv: TV| #[trigger] self.inv(root, tv) }
@fn DepthFirst::new
@attr
#[verifier::loop_isolation(false)]
@spec
    requires graph.lawful()
    ensures match r {
        Ok(d) => d.graph == graph && graph.gv().has(root) && d.inv(root, TV::start(root)),
        Err(e) => !graph.gv().has(root) && e == Error::MissingNode(root),
    }
@loop 0
    invariant
        graph.gv().has(root), 0 <= $it.pos() <= $it.all().len(), $it.all() == graph.gv().nbrs[root],
        stack@ == Seq::new($it.pos() as nat, |i: int| (root, graph.gv().nbrs[root][i])),
        nodes@ == Set::<usize>::empty(),
    decreases $it.all().len() - $it.pos()
@loop_end 0
    proof { assert(stack@ =~= Seq::new($it.pos() as nat, |i: int| (root, graph.gv().nbrs[root][i]))); }
@exit
    proof {
        graph.lemma_lawful();
        if vx_ret is Ok {
            let d = vx_ret->Ok_0;
            lemma_dfs_new(graph.gv(), root, d.nodes@, d.stack@);
        }
    }

@fn DepthFirst::next
@attr
#[verifier::loop_isolation(false)]
@spec
    requires old(self).valid()
    ensures
        final(self).graph == old(self).graph,
        forall|root: usize, tv: TV| #[trigger] old(self).inv(root, tv) ==> match r {
            None => final(self).inv(root, tv) && complete(old(self).graph.gv(), root, tv),
            Some(st) => dfs_owes(old(self).graph.gv(), tv, st.sid, st.tid) && st.cut == tv.seen(st.tid)
                && final(self).inv(root, tv.step(st.sid, st.tid)),
        }
@start
    let ghost g = self.graph.gv();
    let ghost nodes0 = self.nodes@;
    let ghost stack0 = self.stack@;
    proof {
        let (root, tv) = choose|root: usize, tv: TV| #[trigger] self.inv(root, tv);
        if stack0.len() > 0 {
            lemma_dfs_top(g, root, tv, nodes0, stack0);
            assert(g.adj(stack0.last().0, stack0.last().1));
        }
        assert forall|root: usize, tv: TV| #[trigger] self.inv(root, tv) implies (stack0.len() > 0 ==> dfs_owes(g, tv, stack0.last().0, stack0.last().1)) && (stack0.len() == 0 ==> complete(g, root, tv)) by {
            if stack0.len() > 0 { lemma_dfs_top(g, root, tv, nodes0, stack0); } else { lemma_dfs_none(g, root, tv, nodes0, stack0); }
        }
    }
@exit
    proof { if vx_ret is Some && vx_ret->Some_0.cut {
        let st = vx_ret->Some_0;
        assert forall|root: usize, tv: TV| #[trigger] old(self).inv(root, tv) implies self.inv(root, tv.step(st.sid, st.tid)) && tv.seen(st.tid) by {
            lemma_dfs_cut(g, root, tv, nodes0, stack0);
        }
    } }
@loop_before 0
    let ghost rn = neighbors@;
    proof {
        assert(rn =~= g.nbrs[node].reverse());
        assert forall|root: usize, tv: TV| #[trigger] old(self).inv(root, tv) implies dfs_mid(g, root, tv, nodes0, self.stack@, parent, node, rn, 0) by {
            lemma_dfs_mid_start(g, root, tv, nodes0, stack0, rn);
        }
    }
@loop 0
    invariant
        self.graph == old(self).graph, self.nodes@ == nodes0,
        $it.all() == rn, 0 <= $it.pos() <= rn.len(), rn == g.nbrs[node].reverse(), g.has(node),
        forall|root: usize, tv: TV| #[trigger] old(self).inv(root, tv) ==> dfs_mid(g, root, tv, nodes0, self.stack@, parent, node, rn, $it.pos()),
    decreases rn.len() - $it.pos()
@loop_start 0
    let ghost cur = self.stack@;
    let ghost mut kept = cur;
@closure 0 (edge: &(usize, usize)) -> (b: bool)
    ensures b == (edge.0 != neighbor || edge.1 != node)
@before 1 "self.stack.push"
    proof { kept = self.stack@; }
@loop_end 0
    proof {
        assert forall|root: usize, tv: TV| #[trigger] old(self).inv(root, tv) implies dfs_mid(g, root, tv, nodes0, self.stack@, parent, node, rn, $it.pos()) by {
            lemma_dfs_mid_step(g, root, tv, nodes0, cur, self.stack@, kept, parent, node, rn, $it.pos() - 1);
        }
    }
@loop_after 0
    proof {
        assert forall|root: usize, tv: TV| #[trigger] old(self).inv(root, tv) implies dfs_inv(g, root, tv.step(parent, node), nodes0.insert(node), self.stack@) && !tv.seen(node) by {
            lemma_dfs_mid_end(g, root, tv, nodes0, self.stack@, parent, node, rn);
        }
    }

@fn DepthFirst::into_table
@attr
#[verifier::loop_isolation(false)]
@spec
    requires self.valid()
    ensures forall|root: usize| #[trigger] self.inv(root, TV::start(root)) ==> dfs_table(self.graph.gv(), root, r.0@, r.1@)
@start
    let ghost g = self.graph.gv();
    let ghost (ra, tva) = choose|root: usize, tv: TV| #[trigger] self.inv(root, tv);
    let ghost mut tvg = tva;
@loop 0
    invariant
        $it.graph == self.graph,
        $it.inv(ra, tvg),
        forall|root: usize| #[trigger] self.inv(root, TV::start(root)) ==> $it.inv(root, tv_of(root, edges@))
            && dfs_run(g, root, edges@) && nodes@ == listed_nodes(root, edges@),
    decreases g.edges.len() - tvg.hist.len()
@loop_start 0
    let ghost e0 = edges@;
    let ghost n0 = nodes@;
    proof {
        assert forall|root: usize| #[trigger] self.inv(root, TV::start(root)) implies
            dfs_owes(g, tv_of(root, e0), step.sid, step.tid) && step.cut == tv_of(root, e0).seen(step.tid)
            && $it.inv(root, tv_of(root, e0.push((step.sid, step.tid)))) && dfs_run(g, root, e0.push((step.sid, step.tid)))
            && n0 == listed_nodes(root, e0)
            && listed_nodes(root, e0.push((step.sid, step.tid))) == ({
                let a = if e0.len() == 0 { seq![step.sid] } else { n0 };
                if step.cut { a } else { a.push(step.tid) }
            }) && (e0.len() > 0 ==> n0.len() > 0) by {
            lemma_run_push(g, root, e0, step.sid, step.tid);
            lemma_listed_nodes(g, root, e0, step.sid, step.tid);
        }
        lemma_hist_len(g, ra, tvg.step(step.sid, step.tid));
        tvg = tvg.step(step.sid, step.tid);
    }
@loop_end 0
    proof {
        assert(edges@ == e0.push((step.sid, step.tid)));
        assert(e0.len() == 0 && n0.len() == 0 ==> nodes@ =~= if step.cut { seq![step.sid] } else { seq![step.sid].push(step.tid) });
    }

@module traversal::step
@fn Step::new
@spec
    ensures r.sid == sid, r.tid == tid, r.cut == cut

@module traversal::breadth_first
@prelude
broadcast use vstd::std_specs::hash::group_hash_axioms;
use crate::tr::*;
use crate::bf::*;
@inject BreadthFirst
    /// the traversal stands where the history tv leads
    pub open spec fn inv(&self, root: usize, tv: TV) -> bool {
        self.graph.lawful() && bfs_inv(self.graph.gv(), root, tv, self.nodes@, self.queue@)
    }
    pub open spec fn valid(&self) -> bool { exists|root: usize, tv: TV| #[trigger] self.inv(root, tv) }
@fn BreadthFirst::new
@attr
#[verifier::loop_isolation(false)]
@spec
    requires graph.lawful()
    ensures match r {
        Ok(d) => d.graph == graph && graph.gv().has(root) && d.inv(root, TV::start(root)),
        Err(e) => !graph.gv().has(root) && e == Error::MissingNode(root),
    }
@loop 0
    invariant
        graph.gv().has(root), 0 <= $it.pos() <= $it.all().len(), $it.all() == graph.gv().nbrs[root],
        queue@ == Seq::new($it.pos() as nat, |i: int| (root, graph.gv().nbrs[root][$it.pos() - 1 - i])),
        nodes@ == Set::<usize>::empty(),
    decreases $it.all().len() - $it.pos()
@loop_end 0
    proof { assert(queue@ =~= Seq::new($it.pos() as nat, |i: int| (root, graph.gv().nbrs[root][$it.pos() - 1 - i]))); }
@exit
    proof {
        graph.lemma_lawful();
        if vx_ret is Ok {
            let d = vx_ret->Ok_0;
            lemma_bfs_new(graph.gv(), root, d.nodes@, d.queue@);
        }
    }

@fn BreadthFirst::next
@attr
#[verifier::loop_isolation(false)]
@spec
    requires old(self).valid()
    ensures
        final(self).graph == old(self).graph,
        forall|root: usize, tv: TV| #[trigger] old(self).inv(root, tv) ==> match r {
            None => final(self).inv(root, tv) && complete(old(self).graph.gv(), root, tv) && shortest(old(self).graph.gv(), root, tv),
            Some(st) => bfs_owes(old(self).graph.gv(), tv, st.sid, st.tid) && st.cut == tv.seen(st.tid)
                && final(self).inv(root, tv.step(st.sid, st.tid)),
        }
@start
    let ghost g = self.graph.gv();
    let ghost nodes0 = self.nodes@;
    let ghost queue0 = self.queue@;
    proof {
        let (root, tv) = choose|root: usize, tv: TV| #[trigger] self.inv(root, tv);
        if queue0.len() > 0 {
            lemma_bfs_top(g, root, tv, nodes0, queue0);
            assert(g.adj(queue0.last().0, queue0.last().1));
        }
        assert forall|root: usize, tv: TV| #[trigger] self.inv(root, tv) implies (queue0.len() > 0 ==> bfs_owes(g, tv, queue0.last().0, queue0.last().1))
            && (queue0.len() == 0 ==> complete(g, root, tv) && shortest(g, root, tv)) by {
            if queue0.len() > 0 { lemma_bfs_top(g, root, tv, nodes0, queue0); } else { lemma_bfs_none(g, root, tv, nodes0, queue0); }
        }
    }
@exit
    proof { if vx_ret is Some && vx_ret->Some_0.cut {
        let st = vx_ret->Some_0;
        assert forall|root: usize, tv: TV| #[trigger] old(self).inv(root, tv) implies self.inv(root, tv.step(st.sid, st.tid)) && tv.seen(st.tid) by {
            lemma_bfs_cut(g, root, tv, nodes0, queue0);
        }
    } }
@loop_before 0
    let ghost nb = g.nbrs[node];
    proof {
        assert forall|root: usize, tv: TV| #[trigger] old(self).inv(root, tv) implies bfs_mid(g, root, tv, nodes0, self.queue@, parent, node, nb, 0) by {
            lemma_bfs_mid_start(g, root, tv, nodes0, queue0, nb);
        }
    }
@loop 0
    invariant
        self.graph == old(self).graph, self.nodes@ == nodes0,
        $it.all() == nb, 0 <= $it.pos() <= nb.len(), nb == g.nbrs[node], g.has(node),
        forall|root: usize, tv: TV| #[trigger] old(self).inv(root, tv) ==> bfs_mid(g, root, tv, nodes0, self.queue@, parent, node, nb, $it.pos()),
    decreases nb.len() - $it.pos()
@loop_start 0
    let ghost cur = self.queue@;
@loop_end 0
    proof {
        if !(neighbor == parent || nodes0.contains(neighbor)) { assert(self.queue@ =~= seq![(node, nb[$it.pos() - 1])] + cur); }
        assert forall|root: usize, tv: TV| #[trigger] old(self).inv(root, tv) implies bfs_mid(g, root, tv, nodes0, self.queue@, parent, node, nb, $it.pos()) by {
            lemma_bfs_mid_step(g, root, tv, nodes0, cur, self.queue@, parent, node, nb, $it.pos() - 1);
        }
    }
@loop_after 0
    proof {
        assert forall|root: usize, tv: TV| #[trigger] old(self).inv(root, tv) implies bfs_inv(g, root, tv.step(parent, node), nodes0.insert(node), self.queue@) && !tv.seen(node) by {
            lemma_bfs_mid_end(g, root, tv, nodes0, self.queue@, parent, node, nb);
        }
    }

@module graph::default_graph
@inject TryFrom<DepthFirst<'a,G>> for DefaultGraph
    open spec fn vx_try_pre(x: DepthFirst<'a, G>) -> bool { x.valid() }
@inject TryFrom<Vec<(usize,usize)>> for DefaultGraph
    open spec fn vx_try_pre(x: Vec<(usize, usize)>) -> bool { true }
@inject TryFrom<Vec<Vec<usize>>> for DefaultGraph
    open spec fn vx_try_pre(x: Vec<Vec<usize>>) -> bool { true }
@fn TryFrom<DepthFirst<'a,G>> for DefaultGraph::try_from
@attr
#[verifier::loop_isolation(false)]
@spec
    ensures
        r is Ok ==> r->Ok_0.inv(),
        forall|root: usize| #[trigger] traversal.inv(root, TV::start(root)) ==> r is Ok
            && dfs_table(traversal.graph.gv(), root, r->Ok_0.view_gv().nodes, r->Ok_0.view_gv().edges)
@start
    let ghost g = traversal.graph.gv();
    let ghost (ra, tva) = choose|root: usize, tv: TV| #[trigger] traversal.inv(root, tv);
    let ghost mut tvg = tva;
    proof { traversal.graph.lemma_lawful(); }
@loop 0
    invariant
        $it.graph == traversal.graph,
        $it.inv(ra, tvg),
        result.inv(),
        forall|root: usize| #[trigger] traversal.inv(root, TV::start(root)) ==> $it.inv(root, tv_of(root, result.view_gv().edges))
            && dfs_run(g, root, result.view_gv().edges) && result.view_gv().nodes == listed_nodes(root, result.view_gv().edges),
    decreases g.edges.len() - tvg.hist.len()
@loop_start 0
    let ghost c0 = result.view_gv();
    proof {
        lemma_hist_len(g, ra, tvg.step(step.sid, step.tid));
        tvg = tvg.step(step.sid, step.tid);
        assert forall|root: usize| #[trigger] traversal.inv(root, TV::start(root)) implies
            dfs_owes(g, tv_of(root, c0.edges), step.sid, step.tid) && step.cut == tv_of(root, c0.edges).seen(step.tid)
            && $it.inv(root, tv_of(root, c0.edges.push((step.sid, step.tid)))) && dfs_run(g, root, c0.edges.push((step.sid, step.tid)))
            && c0.nodes == listed_nodes(root, c0.edges)
            && table_next(root, c0, step.sid, step.tid, step.cut) by {
            lemma_run_push(g, root, c0.edges, step.sid, step.tid);
            lemma_listed_nodes(g, root, c0.edges, step.sid, step.tid);
            lemma_table_next(g, root, c0, step.sid, step.tid);
        }
    }
@loop_end 0
    proof {
        let c1 = result.view_gv();
        assert(c1.edges == c0.edges.push((step.sid, step.tid)));
        assert(c0.edges.len() == 0 && c0.nodes.len() == 0 ==> c1.nodes =~= if step.cut { seq![step.sid] } else { seq![step.sid].push(step.tid) });
    }
