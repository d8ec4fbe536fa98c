@module matching::pairing
@prelude
broadcast use vstd::std_specs::hash::group_hash_axioms;
use crate::mt::*;
@inject Pairing
    pub open spec fn map(&self) -> PM { self.pairs@ }
    /// mates are mutual
    pub open spec fn inv(&self) -> bool { mwf(self.pairs@) }

@fn Pairing::new
@spec
    ensures r.inv(), r.map() == Map::<usize, usize>::empty()

@fn Pairing::order
@spec
    ensures r == self.map().len()

@fn Pairing::has_node
@spec
    ensures r == self.map().contains_key(id)

@fn Pairing::insert
@spec
    requires sid != tid, old(self).map().contains_key(sid) ==> old(self).map()[sid] != sid
    ensures final(self).map() == half(old(self).map(), sid, tid)

@fn Pairing::pair
@spec
    requires old(self).inv(), sid != tid
    ensures
        final(self).inv(),
        final(self).map() == pair_map(old(self).map(), sid, tid),
        paired(old(self).map(), sid, tid, final(self).map())
@start
    proof {
        lemma_pair_map(self.map(), sid, tid);
        let m = self.map();
        if m.contains_key(sid) { assert(m.contains_key(m[sid])); }
        if m.contains_key(tid) { assert(m.contains_key(m[tid])); }
    }

@fn Pairing::edges
@spec
    requires self.inv()
    ensures r.pos() == 0, pairs_of(r.all(), self.map())
@closure 0 (pair: &(&usize, &usize)) -> (b: bool)
    ensures b == (*pair.0 < *pair.1)
@closure 1 (pair: (&usize, &usize)) -> (e: (usize, usize))
    ensures e == (*pair.0, *pair.1)

@fn Pairing::augment
@attr
#[verifier::loop_isolation(false)]
@spec
    requires old(self).inv(), path@.len() % 2 == 0, steps_distinct(path@)
    ensures
        final(self).inv(),
        final(self).map() == augmented(old(self).map(), path@, path@.len() as int),
        path@.no_duplicates() ==> aug_result(old(self).map(), path@, final(self).map())
@loop 0
    invariant
        self.inv(),
        $it.end == path@.len(), 0 <= $it.cur <= path@.len(),
        self.map() == augmented(old(self).map(), path@, $it.cur as int),
    decreases path@.len() - $it.cur
@exit
    proof {
        assert(path@.subrange(0, path@.len() as int) =~= path@);
        if path@.no_duplicates() { lemma_augmented(old(self).map(), path@, path@.len() as int); }
    }

@fn Pairing::mate
@spec
    requires self.map().contains_key(id)
    ensures r == self.map()[id]

@module matching::forest
@prelude
broadcast use vstd::std_specs::hash::group_hash_axioms;
use crate::mt::*;
@inject Forest
    pub open spec fn fv(&self) -> FV {
        FV {
            nodes: self.nodes@,
            par: Map::new(self.parents@.dom(), |u: usize| self.parents@[u].parent),
            even: Map::new(self.parents@.dom(), |u: usize| self.parents@[u].parity == Parity::Even),
        }
    }
    pub open spec fn inv(&self) -> bool { self.fv().wf() }

@fn Forest::new
@spec
    ensures r.inv(), r.fv() == (FV { nodes: Seq::empty(), par: Map::empty(), even: Map::empty() })
@exit
    proof {
        assert(vx_ret.fv().nodes =~= Seq::empty());
        assert(vx_ret.fv().par =~= Map::empty());
        assert(vx_ret.fv().even =~= Map::empty());
    }

@fn Forest::add_root
@spec
    requires old(self).inv(), !old(self).fv().has(root)
    ensures final(self).inv(), final(self).fv() == old(self).fv().with_root(root)
@exit
    proof {
        let f = old(self).fv().with_root(root);
        assert(self.fv().nodes =~= f.nodes);
        assert(self.fv().par =~= f.par);
        assert(self.fv().even =~= f.even);
        lemma_with_root_wf(old(self).fv(), root);
    }

@fn Forest::add_edge
@spec
    requires old(self).inv(), old(self).fv().has(parent), !old(self).fv().has(node)
    ensures final(self).inv(), final(self).fv() == old(self).fv().with_child(parent, node)
@exit
    proof {
        let f = old(self).fv().with_child(parent, node);
        assert(self.fv().nodes =~= f.nodes);
        assert(self.fv().par =~= f.par);
        assert(self.fv().even =~= f.even);
        lemma_with_child_wf(old(self).fv(), parent, node);
    }

@fn Forest::even_nodes
@spec
    requires self.inv()
    ensures
        r.pos() == 0,
        forall|i: int| 0 <= i < r.all().len() ==> self.fv().is_even(#[trigger] r.all()[i]),
        forall|u: usize| #[trigger] self.fv().is_even(u) ==> r.all().contains(u)
@closure 0 (node: &&usize) -> (b: bool)
    requires self.parents@.contains_key(**node)
    ensures b == (self.parents@[**node].parity == Parity::Even)
@start
    proof {
        assert forall|i: int| 0 <= i < self.nodes@.len() implies self.parents@.contains_key(#[trigger] self.nodes@[i]) by {
            assert(self.fv().nodes.contains(self.nodes@[i]));
        }
        assert forall|u: usize| #[trigger] self.fv().is_even(u) implies self.nodes@.contains(u) by {
            assert(self.fv().nodes.contains(u));
        }
    }

@fn Forest::path
@attr
#[verifier::loop_isolation(false)]
@spec
    requires self.inv()
    ensures match r {
        None => !self.fv().has(node),
        Some(p) => self.fv().has(node) && p@ == self.fv().chain(node),
    }
@loop 0
    invariant
        parent is Some ==> self.fv().has(parent->0),
        result@ + self.fv().chain_opt(parent) == self.fv().chain(node),
    decreases if parent is Some { self.fv().idx(parent->0) + 1 } else { 0 }
@loop_before 0
    proof { lemma_chain_step(self.fv(), node); assert(result@ + self.fv().chain_opt(parent) =~= self.fv().chain(node)); }
@loop_start 0
    let ghost before = result@;
    proof { if parent is Some { lemma_chain_step(self.fv(), parent->0); } }
@loop_end 0
    proof { assert(result@ + self.fv().chain_opt(parent) =~= self.fv().chain(node)); }
@exit
    proof { if vx_ret is Some { assert(vx_ret->Some_0@ + Seq::<usize>::empty() =~= vx_ret->Some_0@); } }

@fn Parity::invert
@spec
    ensures r == if *self == Parity::Even { Parity::Odd } else { Parity::Even }

@module matching::marker
@prelude
broadcast use vstd::std_specs::hash::group_hash_axioms;
use crate::mt::*;
@inject Marker
    pub open spec fn nodes(&self) -> Set<usize> { self.nodes@ }
    pub open spec fn marks(&self, s: usize, t: usize) -> bool { self.edges@.contains_key(s) && self.edges@[s]@.contains(t) }

@fn Marker::new
@spec
    ensures r.nodes() == Set::<usize>::empty(), forall|s: usize, t: usize| !#[trigger] r.marks(s, t)

@fn Marker::mark_node
@spec
    requires !old(self).nodes().contains(id)
    ensures
        final(self).nodes() == old(self).nodes().insert(id),
        forall|s: usize, t: usize| #[trigger] final(self).marks(s, t) == old(self).marks(s, t)

@fn Marker::has_node
@spec
    ensures r == self.nodes().contains(id)

@fn Marker::mark_edge
@spec
    requires !old(self).marks(sid, tid)
    ensures
        final(self).nodes() == old(self).nodes(),
        final(self).marks(sid, tid),
        forall|s: usize, t: usize| #[trigger] old(self).marks(s, t) ==> final(self).marks(s, t),
        forall|s: usize, t: usize| #[trigger] final(self).marks(s, t) ==> old(self).marks(s, t) || same((s, t), (sid, tid))
@start
    let ghost e0 = self.edges@;
    proof { if e0.contains_key(sid) { lemma_contains_push(e0[sid]@, tid); } lemma_contains_push(Seq::<usize>::empty(), tid); }
@before 1 "*self.edges.entry(tid)"
    let ghost e1 = self.edges@;
    proof {
        if e1.contains_key(tid) { lemma_contains_push(e1[tid]@, sid); }
        lemma_contains_push(Seq::<usize>::empty(), sid);
        assert(forall|s: usize, t: usize| self.marks(s, t) == (old(self).marks(s, t) || (s == sid && t == tid)));
    }

@fn Marker::has_edge
@spec
    ensures r == self.marks(sid, tid)
