@module matching::maximum_matching
@prelude
use crate::mt::*;
use crate::mm::*;
use crate::bl::*;
use crate::se::*;
/// what contraction makes smaller
pub open spec fn weight<G: Graph>(graph: &G) -> nat { graph.gv().nodes.len() + graph.gv().edges.len() }

@fn some_v
@spec
    requires forest.inv()
    ensures match r {
        Some(v) => forest.fv().is_even(v) && !marker.nodes().contains(v),
        None => forall|u: usize| #[trigger] forest.fv().is_even(u) ==> marker.nodes().contains(u),
    }
@closure 0 (id: &usize) -> (b: bool)
    ensures b == !marker.nodes().contains(*id)

@fn some_w
@spec
    requires graph.lawful(), graph.gv().has(v)
    ensures match r {
        Some(w) => graph.gv().adj(v, w) && !marker.marks(v, w),
        None => forall|w: usize| #[trigger] graph.gv().adj(v, w) ==> marker.marks(v, w),
    }
@closure 0 (vx_r0: &usize) -> (b: bool)
    ensures b == !marker.marks(v, *vx_r0)

@fn even_path
@ghost_param fuel nat
@ghost_arg process_blossom fuel
@spec
    requires
        weight(graph) <= fuel, graph.lawful(), pairing.inv(), is_matching(graph.gv(), pairing.map()), forest.inv(), alt(graph.gv(), pairing.map(), forest.fv()),
        forest.fv().is_even(v), path_w@.len() > 0, forest.fv().is_even(path_w@[0]), graph.gv().adj(v, path_w@[0]),
        path_w@ == forest.fv().chain(path_w@[0]),
    ensures match r {
        Some(p) => aug_ok(p@, graph.gv(), pairing.map()),
        None => has_cert(graph.gv(), pairing.map()),
    }
    decreases fuel, 1int
@start
    proof {
        graph.lemma_lawful();
        lemma_even_meet(graph.gv(), pairing.map(), forest.fv(), v, path_w@[0]);
    }

@fn process_blossom
@ghost_param fuel nat
@ghost_arg augmenting_path (fuel - 1) as nat
@attr
#[verifier::loop_isolation(false)]
@spec
    requires weight(graph) <= fuel, graph.lawful(), pairing.inv(), is_matching(graph.gv(), pairing.map()), flower_pre(left@, right@, graph.gv(), pairing.map())
    ensures match r {
        Some(p) => aug_ok(p@, graph.gv(), pairing.map()),
        None => has_cert(graph.gv(), pairing.map()),
    }
    decreases fuel, 0int
@start
    let ghost g = graph.gv();
    let ghost m = pairing.map();
    proof { graph.lemma_lawful(); lemma_join_exists(left@, right@, g, m); }
@loop 0
    invariant forall|k: usize| k < id ==> #[trigger] g.has(k)
    decreases g.nodes.len() - id
@loop_start 0
    proof { lemma_low_ids(g, id); }
@after 1 "let blossom"
    proof { lemma_blossom(left@, right@, blossom.path@, g, m, id); }
@before 1 "*augmenting_path(&contracted"
    let ghost h = contracted_graph.view_gv();
    let ghost k = contracted_pairing.map();
    proof {
        lemma_con(left@, right@, blossom.path@, g, m, id, h, k);
        assert(contracted_graph.gv() == h);
        assert(h.nodes.len() <= g.nodes.len());
        assert(h.edges.len() < g.edges.len());
        assert(weight(&contracted_graph) < weight(graph));
    }

@fn augmenting_path
@ghost_param fuel nat
@ghost_arg even_path fuel
@attr
#[verifier::loop_isolation(false)]
@spec
    requires weight(graph) <= fuel, graph.lawful(), old(pairing).inv(), is_matching(graph.gv(), old(pairing).map())
    ensures
        final(pairing).inv(), final(pairing).map() == old(pairing).map(),
        match r {
            Some(p) => aug_ok(p@, graph.gv(), old(pairing).map()),
            None => has_cert(graph.gv(), old(pairing).map()),
        }
    decreases fuel, 2int
@start
    hide(search);
    hide(spent);
    hide(alt);
    hide(is_matching);
    hide(roots);
    hide(pairs_of);
    hide(pre_marks);
    hide(mwf);
    hide(has_cert);
    hide(aug_ok);
    hide(FV::chain);
    hide(FV::wf);
    hide(GV::wf);
    let ghost g = graph.gv();
    let ghost m = pairing.map();
    let ghost mut ps: Seq<(usize, usize)> = Seq::empty();
    proof { graph.lemma_lawful(); }
@loop 0
    invariant
        $it.all() == ps, pairs_of(ps, m), 0 <= $it.pos() <= ps.len(), forall|u: usize| !#[trigger] marker.nodes().contains(u),
        pre_marks(ps, $it.pos(), |a: usize, b: usize| marker.marks(a, b)),
    decreases ps.len() - $it.pos()
@loop_before 0
    proof { ps = $it.all(); lemma_pre_none(ps, |a: usize, b: usize| marker.marks(a, b)); }
@loop_start 0
    let ghost mk0 = |a: usize, b: usize| marker.marks(a, b);
    proof { lemma_pre_fresh(ps, m, $it.pos() - 1, mk0); }
@loop_end 0
    proof { lemma_pre_step(ps, $it.pos() - 1, mk0, |a: usize, b: usize| marker.marks(a, b)); }
@loop 1
    invariant
        $it.all() == g.nodes, 0 <= $it.pos() <= g.nodes.len(), forest.inv(), roots(g, m, forest.fv(), $it.pos()),
    decreases g.nodes.len() - $it.pos()
@loop_before 1
    proof { lemma_roots_none(g, m, forest.fv()); }
@loop_start 1
    let ghost f0 = forest.fv();
    proof { lemma_roots_fresh(g, m, f0, $it.pos() - 1); }
@loop_end 1
    proof { lemma_roots_step(g, m, f0, $it.pos() - 1, forest.fv()); }
@loop_after 1
    proof { lemma_search_start(g, m, forest.fv(), ps, marker.nodes(), |a: usize, b: usize| marker.marks(a, b)); }
@loop 2
    invariant
        forest.inv(), search(g, m, forest.fv(), marker.nodes(), |a: usize, b: usize| marker.marks(a, b)),
    decreases fresh_nodes(g, marker.nodes()).len()
@loop_start 2
    let ghost ns = marker.nodes();
@loop_end 2
    proof {
        lemma_nodes_less(g, ns, v);
        let mk = |a: usize, b: usize| marker.marks(a, b);
        lemma_search_spent(g, m, forest.fv(), ns, mk9, v, marker.nodes());
        lemma_search_same(g, m, forest.fv(), marker.nodes(), mk9, mk);
    }
@loop_after 2
    proof { lemma_search_end(g, m, forest.fv(), marker.nodes(), |a: usize, b: usize| marker.marks(a, b)); }
@loop 3
    invariant
        marker.nodes() == ns, forest.inv(), forest.fv().is_even(v), g.has(v),
        search(g, m, forest.fv(), ns, |a: usize, b: usize| marker.marks(a, b)),
    decreases fresh_nbrs(g, |a: usize, b: usize| marker.marks(a, b), v).len()
@loop_before 3
    proof { lemma_search_even(g, m, forest.fv(), ns, |a: usize, b: usize| marker.marks(a, b), v); }
@loop_start 3
    let ghost mk0 = |a: usize, b: usize| marker.marks(a, b);
    let ghost f0 = forest.fv();
@before 1 "*forest.path(w)"
    proof { 
        lemma_search_alt(g, m, f0, ns, mk0);
        if f0.has(w) { lemma_chain_parity(f0, w); } else { lemma_search_grow(g, m, f0, ns, mk0, v, w); }
    }
@loop_end 3
    proof {
        let mk1 = |a: usize, b: usize| marker.marks(a, b);
        lemma_search_mark(g, m, forest.fv(), ns, mk0, v, w, mk1);
        lemma_nbrs_less(g, mk0, mk1, v, w);
    }
@loop_after 3
    let ghost mk9 = |a: usize, b: usize| marker.marks(a, b);
    proof { lemma_spent(g, mk9, v); }

@fn maximum_matching
@ghost_arg augmenting_path weight(graph)
@attr
#[verifier::loop_isolation(false)]
@spec
    requires graph.lawful(), old(pairing).inv(), is_matching(graph.gv(), old(pairing).map())
    ensures
        final(pairing).inv(), is_matching(graph.gv(), final(pairing).map()), maximum(graph.gv(), final(pairing).map()),
        forall|u: usize| #[trigger] old(pairing).map().contains_key(u) ==> final(pairing).map().contains_key(u),
    decreases graph.gv().nodes.len() - old(pairing).map().dom().len()
@start
    let ghost g = graph.gv();
    let ghost m0 = pairing.map();
    proof { graph.lemma_lawful(); lemma_room(g, pairing.map()); }
@loop 0
    invariant
        pairing.inv(), is_matching(g, pairing.map()), pairing.map().dom().len() >= m0.dom().len(),
        forall|u: usize| #[trigger] m0.contains_key(u) ==> pairing.map().contains_key(u),
    decreases g.nodes.len() - pairing.map().dom().len()
@loop_start 0
    let ghost m = pairing.map();
    proof { lemma_room(g, m); }
@before 1 "pairing.augment"
    let ghost p = path@;
    proof { lemma_aug_distinct(p, g, m); }
@after 1 "pairing.augment"
    proof { lemma_aug(p, g, m, pairing.map()); lemma_room(g, pairing.map()); }
@loop_end 0
    proof {
        assert forall|u: usize| #[trigger] m0.contains_key(u) implies pairing.map().contains_key(u) by { assert(m.contains_key(u)); }
        assert(pairing.map().dom().len() > m.dom().len());
        lemma_room(g, pairing.map());
    }
@loop_after 0
    proof { lemma_cert_maximum(g, pairing.map()); }
