@module matching::greedy
@prelude
broadcast use vstd::std_specs::hash::group_hash_axioms;
use crate::tr::*;
use crate::sl::*;
use crate::mt::*;
use crate::mm::*;
use crate::gr::*;
@fn greedy
@attr
#[verifier::loop_isolation(false)]
@spec
    requires graph.lawful()
    ensures r.inv(), is_matching(graph.gv(), r.map()), maximal(graph.gv(), r.map())
@start
    let ghost g = graph.gv();
    let ghost mut done: Seq<GV> = Seq::empty();
    let ghost graph0 = graph;
    proof { graph.lemma_lawful(); }
@exit
    proof { lemma_greedy_end(g, done, vx_ret.map()); }
@loop 0
    invariant
        $it.graph == graph0, $it.inv(done), graph0.lawful(),
        pairing.inv(), is_matching(g, pairing.map()),
        forall|x: usize| #[trigger] nodes@.contains(x) <==> pairing.map().contains_key(x),
        all_maximal(done, pairing.map()),
    decreases $it.iter.all().len() - $it.iter.pos()
@loop_start 0
    let ghost c = graph.view_gv();
    let ghost done1 = done.push(c);
    proof {
        assert(comp_of(g, done1[done.len() as int]));
    }
@loop 1
    invariant
        graph.inv(), graph.view_gv() == c, comp_of(g, c),
        $it.graph == &graph, $it.inv(root, tv),
        pairing.inv(), is_matching(g, pairing.map()),
        forall|x: usize| #[trigger] nodes@.contains(x) <==> pairing.map().contains_key(x),
        all_maximal(done, pairing.map()), hist_covered(tv.hist, pairing.map()),
    decreases c.edges.len() - tv.hist.len()
@loop_before 1
    let ghost mut tv = TV::start(root);
@loop_start 1
    let ghost h0 = tv.hist;
    let ghost m0 = pairing.map();
    proof {
        assert(dfs_owes(c, tv, sid, tid));
        assert(c.adj(sid, tid));
        lemma_hist_len(c, root, tv.step(sid, tid));
        tv = tv.step(sid, tid);
    }
@loop_end 1
    proof {
        if sid != tid && !m0.contains_key(sid) && !m0.contains_key(tid) {
            lemma_pair_fresh(g, m0, sid, tid, pairing.map());
        }
        lemma_covered_grows(done, h0, m0, pairing.map());
        assert(hist_covered(tv.hist, pairing.map()));
    }
@loop_after 1
    proof {
        lemma_component_maximal(g, done, c, root, tv, pairing.map());
        done = done1;
    }
