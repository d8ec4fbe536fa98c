@module graph::graph
@inject Graph
    /// the graph behind the queries
    spec fn gv(&self) -> GV;
    /// the implementation's own invariant
    spec fn lawful(&self) -> bool;
    proof fn lemma_lawful(&self)
        requires self.lawful()
        ensures self.gv().wf(), self.gv().nodes.len() <= usize::MAX;
@fn Graph::is_empty
@spec
    requires self.lawful()
    ensures r == (self.gv().nodes.len() == 0)
@fn Graph::order
@spec
    requires self.lawful()
    ensures r == self.gv().nodes.len()
@fn Graph::size
@spec
    requires self.lawful()
    ensures r == self.gv().edges.len()
@fn Graph::nodes
@spec
    requires self.lawful()
    ensures r.fresh(self.gv().nodes)
@fn Graph::neighbors
@spec
    requires self.lawful()
    ensures match r {
        Ok(it) => self.gv().has(id) && it.fresh(self.gv().nbrs[id]),
        Err(e) => !self.gv().has(id) && e == Error::MissingNode(id),
    }
@fn Graph::has_node
@spec
    requires self.lawful()
    ensures r == self.gv().has(id)
@fn Graph::degree
@spec
    requires self.lawful()
    ensures match r {
        Ok(n) => self.gv().has(id) && n == self.gv().nbrs[id].len(),
        Err(e) => !self.gv().has(id) && e == Error::MissingNode(id),
    }
@fn Graph::edges
@spec
    requires self.lawful()
    ensures r.fresh(self.gv().edges)
@fn Graph::has_edge
@spec
    requires self.lawful()
    ensures match r {
        Ok(b) => self.gv().has(sid) && self.gv().has(tid) && b == self.gv().adj(sid, tid),
        Err(e) => if self.gv().has(sid) { !self.gv().has(tid) && e == Error::MissingNode(tid) } else { e == Error::MissingNode(sid) },
    }

@module graph::default_graph
@prelude
broadcast use vstd::std_specs::hash::group_hash_axioms;
use crate::tr::*;
@inject Graph for DefaultGraph
    open spec fn gv(&self) -> GV { self.view_gv() }
    open spec fn lawful(&self) -> bool { self.inv() }
    proof fn lemma_lawful(&self) { assert(self.nodes.len() == self.nodes@.len()); }
@inject DefaultGraph
    pub open spec fn view_gv(&self) -> GV {
        GV {
            nodes: self.nodes@,
            nbrs: Map::new(self.indices@.dom(), |u: usize| self.adjacency@[self.indices@[u] as int]@),
            edges: self.edges@,
        }
    }
    /// indices, nodes and adjacency agree
    pub open spec fn aligned(&self) -> bool {
        &&& self.adjacency@.len() == self.nodes@.len()
        &&& forall|i: int| 0 <= i < self.nodes@.len() ==> self.indices@.contains_key(#[trigger] self.nodes@[i]) && self.indices@[self.nodes@[i]] == i
        &&& forall|u: usize| #[trigger] self.indices@.contains_key(u) ==> self.indices@[u] < self.nodes@.len() && self.nodes@[self.indices@[u] as int] == u
    }
    pub open spec fn inv(&self) -> bool { self.aligned() && self.view_gv().wf() }

@fn DefaultGraph::new
@spec
    ensures r.inv(), r.view_gv() == GV::empty()
@exit
    proof {
        assert(vx_ret.view_gv().nbrs =~= Map::empty());
        assert(vx_ret.view_gv().nodes =~= Seq::empty());
        assert(vx_ret.view_gv().edges =~= Seq::empty());
    }

@fn DefaultGraph::add_node
@spec
    requires old(self).inv()
    ensures
        final(self).inv(),
        match r {
            Ok(_) => !old(self).view_gv().has(id) && final(self).view_gv() == old(self).view_gv().with_node(id),
            Err(e) => old(self).view_gv().has(id) && e == Error::DuplicateNode(id) && final(self).view_gv() == old(self).view_gv(),
        }
@exit
    proof {
        let g = old(self).view_gv();
        if vx_ret is Ok {
            assert(self.view_gv().nbrs =~= g.with_node(id).nbrs);
            assert(self.nodes.len() == self.nodes@.len());
            lemma_with_node_wf(g, id);
        } else {
            assert(self.view_gv().nbrs =~= g.nbrs);
        }
    }

@fn DefaultGraph::add_edge
@spec
    requires old(self).inv()
    ensures
        final(self).inv(),
        match r {
            Ok(_) => {
                &&& old(self).view_gv().has(sid) && old(self).view_gv().has(tid) && !old(self).view_gv().adj(sid, tid)
                &&& final(self).view_gv() == old(self).view_gv().with_edge(sid, tid)
            },
            Err(e) => {
                &&& final(self).view_gv() == old(self).view_gv()
                &&& e == if !old(self).view_gv().has(sid) { Error::MissingNode(sid) }
                    else if !old(self).view_gv().has(tid) { Error::MissingNode(tid) }
                    else { Error::DuplicateEdge(sid, tid) }
                &&& old(self).view_gv().has(sid) && old(self).view_gv().has(tid) ==> old(self).view_gv().adj(sid, tid)
            },
        }
@exit
    proof {
        let g = old(self).view_gv();
        if vx_ret is Ok {
            assert(self.view_gv().nbrs =~= g.with_edge(sid, tid).nbrs);
            lemma_with_edge_wf(g, sid, tid);
        }
    }

@fn DefaultGraph::index_for
@spec
    requires self.inv()
    ensures match r {
        Ok(i) => self.view_gv().has(id) && i == self.indices@[id] && i < self.adjacency@.len(),
        Err(e) => !self.view_gv().has(id) && e == Error::MissingNode(id),
    }

@fn Graph for DefaultGraph::is_empty
@fn Graph for DefaultGraph::order
@fn Graph for DefaultGraph::size
@fn Graph for DefaultGraph::nodes
@exit
    assert(vx_ret.all() =~= self.nodes@);
@fn Graph for DefaultGraph::neighbors
@exit
    assert(vx_ret is Ok ==> vx_ret->Ok_0.all() =~= self.view_gv().nbrs[id]);
@fn Graph for DefaultGraph::has_node
@fn Graph for DefaultGraph::degree
@fn Graph for DefaultGraph::edges
@exit
    assert(vx_ret.all() =~= self.edges@);
@fn Graph for DefaultGraph::has_edge

@fn DefaultGraph::eq
@attr
#[verifier::loop_isolation(false)]
@spec
    requires self.inv(), other.inv()
    ensures r == self.view_gv().same_graph(other.view_gv())
@start
    let ghost g = self.view_gv();
    let ghost h = other.view_gv();
    proof { if g.same_graph(h) { lemma_same_graph_counts(g, h); } }
@loop 0
    invariant
        $it.all() == g.nodes, 0 <= $it.pos() <= g.nodes.len(),
        forall|i: int| 0 <= i < $it.pos() ==> h.has(#[trigger] g.nodes[i]),
    decreases g.nodes.len() - $it.pos()
@loop_start 0
    proof { assert(g.nodes.contains(id)); assert(g.has(id)); }
@loop 1
    invariant
        $it.all() == g.edges, 0 <= $it.pos() <= g.edges.len(),
        forall|i: int| 0 <= i < g.nodes.len() ==> h.has(#[trigger] g.nodes[i]),
        forall|i: int| 0 <= i < $it.pos() ==> h.adj((#[trigger] g.edges[i]).0, g.edges[i].1),
    decreases g.edges.len() - $it.pos()
@loop_start 1
    proof { assert(g.adj(sid, tid)); assert(g.adj(tid, sid)); }
@exit
    proof { if vx_ret { lemma_counts_same_graph(g, h); } }

@fn TryFrom<Vec<(usize,usize)>> for DefaultGraph::try_from
@attr
#[verifier::loop_isolation(false)]
@spec
    ensures
        match r {
            Ok(g) => g.inv() && g.view_gv() == from_pairs(edges@, edges@.len() as int)
                && (forall|n: int| 0 <= n < edges@.len() ==> !#[trigger] repeats(edges@, n)),
            Err(e) => exists|n: int| #[trigger] repeats(edges@, n) && e == Error::DuplicateEdge(edges@[n].0, edges@[n].1)
                && forall|m: int| 0 <= m < n ==> !#[trigger] repeats(edges@, m),
        }
@loop 0
    invariant
        result.inv(),
        $it.all() == edges@, 0 <= $it.pos() <= edges@.len(),
        result.view_gv() == from_pairs(edges@, $it.pos()),
        forall|n: int| 0 <= n < $it.pos() ==> !#[trigger] repeats(edges@, n),
    decreases edges@.len() - $it.pos()
@loop_start 0
    let ghost n = $it.pos() - 1;
    let ghost p = result.view_gv();
    proof {
        lemma_from_pairs(edges@, n);
        lemma_repeats_listed(edges@, n);
        lemma_ensure_node_adj(p, sid);
        lemma_ensure_node_adj(ensure_node(p, sid), tid);
    }
@before 1 "*result.add_edge"
    proof {
        assert(result.view_gv() == ensure_node(ensure_node(p, sid), tid));
        assert(result.view_gv().adj(sid, tid) <==> p.adj(sid, tid));
    }

@fn TryFrom<Vec<Vec<usize>>> for DefaultGraph::try_from
@attr
#[verifier::loop_isolation(false)]
@spec
    ensures
        match r {
            Ok(g) => g.inv() && adjacency_ok(rows_of(adjacency@)) && of_rows(rows_of(adjacency@), g.view_gv()),
            Err(e) => exists|i: int, j: int| 0 <= i < adjacency@.len() && 0 <= j < adjacency@[i]@.len()
                && !#[trigger] entry_ok(rows_of(adjacency@), i, j) && blames(rows_of(adjacency@), i, j, e),
        }
@start
    let ghost rows = rows_of(adjacency@);
    proof { assert(adjacency.len() == adjacency@.len()); }
@loop 0
    invariant
        $it.pos() <= $it.all().len() == adjacency@.len(), 0 <= $it.pos(),
        forall|i: int| 0 <= i < $it.all().len() ==> (#[trigger] $it.all()[i]).0 == i && *$it.all()[i].1 == adjacency@[i],
        result.nodes@ == Seq::new($it.pos() as nat, |i: int| i as usize),
        forall|u: usize| #[trigger] result.indices@.contains_key(u) <==> u < $it.pos(),
        forall|u: usize| #[trigger] result.indices@.contains_key(u) ==> result.indices@[u] == u,
        result.edges@ == rows_edges(rows, $it.pos()),
        forall|i: int, j: int| 0 <= i < $it.pos() && 0 <= j < rows[i].len() ==> #[trigger] entry_ok(rows, i, j),
    decreases adjacency@.len() - $it.pos()
@loop 1
    invariant
        $it.pos() <= $it.all().len() == neighbors@.len(), 0 <= $it.pos(),
        neighbors@ == rows[sid as int],
        forall|i: int| 0 <= i < $it.all().len() ==> (#[trigger] $it.all()[i]).0 == i && *$it.all()[i].1 == neighbors@[i],
        result.edges@ == rows_edges(rows, sid as int) + row_edges(neighbors@, sid as int, $it.pos()),
        forall|j: int| 0 <= j < $it.pos() ==> #[trigger] entry_ok(rows, sid as int, j),
    decreases neighbors@.len() - $it.pos()
@loop_start 1
    let ghost ii = sid as int;
    let ghost jj = index as int;
    proof {
        assert(neighbors.len() == neighbors@.len());
        assert(index < neighbors.len());
        assert(tid == rows[ii][jj]);
        let rest = neighbors@.subrange(jj + 1, neighbors@.len() as int);
        assert(rest.contains(tid) <==> entry_repeated(rows, ii, jj)) by {
            if rest.contains(tid) {
                let k = choose|k: int| 0 <= k < rest.len() && rest[k] == tid;
                assert(rows[ii][jj + 1 + k] == tid);
            }
            if entry_repeated(rows, ii, jj) {
                let k = choose|k: int| 0 <= k < rows[ii].len() && k != jj && rows[ii][k] == rows[ii][jj];
                if k < jj { assert(entry_ok(rows, ii, k)); assert(entry_repeated(rows, ii, k)); }
                assert(rest[k - jj - 1] == tid);
            }
        }
        if tid < adjacency@.len() { assert(rows[tid as int] == adjacency@[tid as int]@); }
        if tid >= adjacency@.len() { assert(!entry_ok(rows, ii, jj)); }
        else if rest.contains(tid) { assert(entry_repeated(rows, ii, jj)); assert(!entry_ok(rows, ii, jj)); }
        else if !rows[tid as int].contains(sid) { assert(!entry_ok(rows, ii, jj)); }
    }
@loop_end 1
    proof {
        assert(rows[tid as int] == adjacency@[tid as int]@);
        assert(entry_ok(rows, ii, jj));
        assert(result.edges@ =~= rows_edges(rows, ii) + row_edges(neighbors@, ii, jj + 1));
    }
@loop_before 1
    proof {
        assert(rows_edges(rows, sid as int) + row_edges(neighbors@, sid as int, 0) =~= rows_edges(rows, sid as int));
    }
@loop_end 0
    proof {
        assert(result.nodes@ =~= Seq::new((sid + 1) as nat, |i: int| i as usize));
    }
@exit
    proof { if vx_ret is Ok {
        let result = vx_ret->Ok_0;
        lemma_adjacency_gv(rows);
        let g = adjacency_gv(rows);
        assert(result.view_gv().nodes =~= g.nodes);
        assert(result.view_gv().nbrs =~= g.nbrs);
        assert(result.view_gv().edges =~= g.edges);
        assert(result.view_gv() == g);
        assert(of_rows(rows, result.view_gv()));
        assert(adjacency_ok(rows));
        assert(result.view_gv().wf());
        assert(result.adjacency@.len() == result.nodes@.len());
        lemma_identity(result.nodes@, result.indices@);
        assert(result.aligned());
    } }
