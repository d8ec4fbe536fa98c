// Trusted contracts for the std iterator / slice methods the crate calls (rule R4 of the extraction).
// Every body is the std method itself; the contract is assumed, and evaluated on concrete data by
// twin/shims.rs.
pub mod vx {
#[allow(unused_imports)] use vstd::prelude::*;
#[allow(unused_imports)] use std::collections::{HashMap, HashSet, VecDeque};
verus! {

broadcast use vstd::std_specs::hash::group_hash_axioms;

#[verifier::external_body]
pub fn vx_panic() -> !
    requires false
{ panic!() }

// ------------------------------------------------------------------ iterators

#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct SeqIter<'a, T> { it: std::mem::ManuallyDrop<Box<dyn Iterator<Item = T> + 'a>> }

#[verifier::external]
impl<'a, T> SeqIter<'a, T> {
    fn vx_new<I: Iterator<Item = T> + 'a>(i: I) -> Self { SeqIter { it: std::mem::ManuallyDrop::new(Box::new(i)) } }
    fn vx_inner(self) -> Box<dyn Iterator<Item = T> + 'a> { std::mem::ManuallyDrop::into_inner(self.it) }
}

impl<'a, T> SeqIter<'a, T> {
    /// everything the iterator yields over its life
    pub uninterp spec fn all(&self) -> Seq<T>;
    /// how much of it has been yielded
    pub uninterp spec fn pos(&self) -> int;

    pub open spec fn fresh(&self, s: Seq<T>) -> bool { self.pos() == 0 && self.all() == s }
    pub open spec fn ok(&self) -> bool { 0 <= self.pos() <= self.all().len() }
    pub open spec fn rest(&self) -> Seq<T> { self.all().skip(self.pos()) }

    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<T>)
        ensures
            final(self).all() == old(self).all(),
            match r {
                None => old(self).pos() >= old(self).all().len() && final(self).pos() == old(self).pos(),
                Some(x) => old(self).pos() < old(self).all().len() && final(self).pos() == old(self).pos() + 1
                    && (0 <= old(self).pos() ==> x == old(self).all()[old(self).pos()]),
            },
    { self.it.next() }

    #[verifier::external_body]
    pub fn find<F: Fn(&T) -> bool>(&mut self, f: F) -> (r: Option<T>)
        requires
            old(self).ok(),
            forall|i: int| old(self).pos() <= i < old(self).all().len() ==> #[trigger] call_requires(f, (&old(self).all()[i],)),
        ensures
            final(self).all() == old(self).all(),
            match r {
                None => final(self).pos() == old(self).all().len()
                    && forall|i: int| old(self).pos() <= i < old(self).all().len() ==> call_ensures(f, (&#[trigger] old(self).all()[i],), false),
                Some(x) => old(self).pos() < final(self).pos() <= old(self).all().len()
                    && x == old(self).all()[final(self).pos() - 1]
                    && call_ensures(f, (&x,), true)
                    && forall|i: int| old(self).pos() <= i < final(self).pos() - 1 ==> call_ensures(f, (&#[trigger] old(self).all()[i],), false),
            },
    { self.it.find(|x| f(x)) }

    #[verifier::external_body]
    pub fn position<F: Fn(T) -> bool>(&mut self, f: F) -> (r: Option<usize>)
        requires
            old(self).ok(),
            forall|i: int| old(self).pos() <= i < old(self).all().len() ==> #[trigger] call_requires(f, (old(self).all()[i],)),
        ensures
            final(self).all() == old(self).all(),
            match r {
                None => final(self).pos() == old(self).all().len()
                    && forall|i: int| old(self).pos() <= i < old(self).all().len() ==> call_ensures(f, (#[trigger] old(self).all()[i],), false),
                Some(k) => old(self).pos() + k < old(self).all().len()
                    && final(self).pos() == old(self).pos() + k + 1
                    && call_ensures(f, (old(self).all()[old(self).pos() + k],), true)
                    && forall|i: int| old(self).pos() <= i < old(self).pos() + k ==> call_ensures(f, (#[trigger] old(self).all()[i],), false),
            },
    { self.it.position(|x| f(x)) }

    #[verifier::external_body]
    pub fn any<F: Fn(T) -> bool>(&mut self, f: F) -> (r: bool)
        requires
            old(self).ok(),
            forall|i: int| old(self).pos() <= i < old(self).all().len() ==> #[trigger] call_requires(f, (old(self).all()[i],)),
        ensures
            final(self).all() == old(self).all(),
            r ==> exists|i: int| old(self).pos() <= i < old(self).all().len() && call_ensures(f, (#[trigger] old(self).all()[i],), true),
            !r ==> forall|i: int| old(self).pos() <= i < old(self).all().len() ==> call_ensures(f, (#[trigger] old(self).all()[i],), false),
    { self.it.any(|x| f(x)) }

    #[verifier::external_body]
    pub fn vx_all<F: Fn(T) -> bool>(&mut self, f: F) -> (r: bool)
        requires
            old(self).ok(),
            forall|i: int| old(self).pos() <= i < old(self).all().len() ==> #[trigger] call_requires(f, (old(self).all()[i],)),
        ensures
            final(self).all() == old(self).all(),
            !r ==> exists|i: int| old(self).pos() <= i < old(self).all().len() && call_ensures(f, (#[trigger] old(self).all()[i],), false),
            r ==> forall|i: int| old(self).pos() <= i < old(self).all().len() ==> call_ensures(f, (#[trigger] old(self).all()[i],), true),
    { self.it.all(|x| f(x)) }

    #[verifier::external_body]
    pub fn filter<F: Fn(&T) -> bool + 'a>(self, f: F) -> (r: SeqIter<'a, T>) where T: 'a
        requires
            self.ok(),
            forall|i: int| self.pos() <= i < self.all().len() ==> #[trigger] call_requires(f, (&self.all()[i],)),
        ensures
            r.pos() == 0,
            // src: where item i of the result came from; dst: where item j of the source went
            forall|i: int| 0 <= i < r.all().len() ==> self.pos() <= vx_src(r, i) < self.all().len()
                && #[trigger] r.all()[i] == self.all()[vx_src(r, i)] && call_ensures(f, (&r.all()[i],), true)
                && vx_dst(r, vx_src(r, i)) == i,
            forall|i: int, k: int| 0 <= i < k < r.all().len() ==> #[trigger] vx_src(r, i) < #[trigger] vx_src(r, k),
            forall|j: int| self.pos() <= j < self.all().len() ==> call_ensures(f, (&#[trigger] self.all()[j],), false)
                || (0 <= vx_dst(r, j) < r.all().len() && vx_src(r, vx_dst(r, j)) == j && r.all()[vx_dst(r, j)] == self.all()[j]),
    { SeqIter::vx_new(self.vx_inner().filter(move |x| f(x))) }

    #[verifier::external_body]
    pub fn map<U: 'a, F: Fn(T) -> U + 'a>(self, f: F) -> (r: SeqIter<'a, U>) where T: 'a
        requires
            self.ok(),
            forall|i: int| self.pos() <= i < self.all().len() ==> #[trigger] call_requires(f, (self.all()[i],)),
        ensures
            r.pos() == 0,
            r.all().len() == self.all().len() - self.pos(),
            forall|i: int| 0 <= i < r.all().len() ==> call_ensures(f, (self.all()[self.pos() + i],), #[trigger] r.all()[i]),
            forall|j: int| self.pos() <= j < self.all().len() ==> call_ensures(f, (#[trigger] self.all()[j],), r.all()[j - self.pos()]),
    { SeqIter::vx_new(self.vx_inner().map(move |x| f(x))) }

    #[verifier::external_body]
    pub fn enumerate(self) -> (r: SeqIter<'a, (usize, T)>) where T: 'a
        requires self.ok(),
        ensures
            r.pos() == 0,
            r.all().len() == self.all().len() - self.pos(),
            forall|i: int| 0 <= i < r.all().len() ==> (#[trigger] r.all()[i]).0 == i && r.all()[i].1 == self.all()[self.pos() + i],
    { SeqIter::vx_new(self.vx_inner().enumerate()) }

    pub fn collect<C: VxCollect<T>>(self) -> (r: C)
        requires self.ok(),
        ensures r.vx_collected(self.rest()),
    { C::vx_from(self) }

    #[verifier::external_body]
    pub fn count(self) -> (r: usize)
        requires self.ok(),
        ensures r == self.all().len() - self.pos(),
    { self.vx_inner().count() }

    #[verifier::external_body]
    pub fn skip(self, n: usize) -> (r: SeqIter<'a, T>) where T: 'a
        requires self.ok(),
        ensures
            r.all() == self.all(),
            r.pos() == if self.pos() + n <= self.all().len() { self.pos() + n } else { self.all().len() as int },
    { SeqIter::vx_new(self.vx_inner().skip(n)) }
}

pub uninterp spec fn vx_src<T>(r: SeqIter<T>, i: int) -> int;
pub uninterp spec fn vx_dst<T>(r: SeqIter<T>, j: int) -> int;

pub trait VxCollect<T>: Sized {
    spec fn vx_collected(&self, s: Seq<T>) -> bool;
    fn vx_from<'a>(it: SeqIter<'a, T>) -> (r: Self) where T: 'a
        requires it.ok()
        ensures r.vx_collected(it.rest());
}
impl<T> VxCollect<T> for Vec<T> {
    open spec fn vx_collected(&self, s: Seq<T>) -> bool { self@ == s }
    #[verifier::external_body]
    fn vx_from<'a>(it: SeqIter<'a, T>) -> (r: Self) where T: 'a { it.vx_inner().collect() }
}
impl VxCollect<usize> for HashSet<usize> {
    open spec fn vx_collected(&self, s: Seq<usize>) -> bool { self@ == s.to_set() }
    #[verifier::external_body]
    fn vx_from<'a>(it: SeqIter<'a, usize>) -> (r: Self) where usize: 'a { it.vx_inner().collect() }
}

impl<'a, T: Clone> SeqIter<'a, &'a T> {
    #[verifier::external_body]
    pub fn cloned(self) -> (r: SeqIter<'a, T>) where T: Copy
        requires self.ok(),
        ensures
            r.pos() == 0,
            r.all().len() == self.all().len() - self.pos(),
            forall|i: int| 0 <= i < r.all().len() ==> #[trigger] r.all()[i] == *self.all()[self.pos() + i],
            forall|j: int| self.pos() <= j < self.all().len() ==> *(#[trigger] self.all()[j]) == r.all()[j - self.pos()],
    { SeqIter::vx_new(self.vx_inner().cloned()) }
    #[verifier::external_body]
    pub fn copied(self) -> (r: SeqIter<'a, T>) where T: Copy
        requires self.ok(),
        ensures
            r.pos() == 0,
            r.all().len() == self.all().len() - self.pos(),
            forall|i: int| 0 <= i < r.all().len() ==> #[trigger] r.all()[i] == *self.all()[self.pos() + i],
            forall|j: int| self.pos() <= j < self.all().len() ==> *(#[trigger] self.all()[j]) == r.all()[j - self.pos()],
    { SeqIter::vx_new(self.vx_inner().copied()) }
}

/// `for` over anything (rule R5)
pub trait VxInto: Sized {
    type Out;
    spec fn vx_into_spec(self, o: Self::Out) -> bool;
    fn vx_into_iter(self) -> (o: Self::Out)
        ensures self.vx_into_spec(o);
}
impl<'a, T> VxInto for SeqIter<'a, T> {
    type Out = SeqIter<'a, T>;
    open spec fn vx_into_spec(self, o: Self::Out) -> bool { o == self }
    fn vx_into_iter(self) -> (o: Self::Out) { self }
}
impl<T: 'static> VxInto for Vec<T> {
    type Out = SeqIter<'static, T>;
    open spec fn vx_into_spec(self, o: Self::Out) -> bool { o.fresh(self@) }
    #[verifier::external_body]
    fn vx_into_iter(self) -> (o: Self::Out) { SeqIter::vx_new(self.into_iter()) }
}
pub open spec fn derefs<T>(it: Seq<&T>) -> Seq<T> { Seq::new(it.len(), |i: int| *it[i]) }
pub open spec fn refs_of<T>(it: Seq<&T>, s: Seq<T>) -> bool {
    it.len() == s.len() && (forall|i: int| 0 <= i < s.len() ==> *(#[trigger] it[i]) == s[i]) && (forall|i: int| 0 <= i < s.len() ==> *it[i] == #[trigger] s[i])
}
impl<'a, T> VxInto for &'a Vec<T> {
    type Out = SeqIter<'a, &'a T>;
    open spec fn vx_into_spec(self, o: Self::Out) -> bool { o.pos() == 0 && refs_of(o.all(), self@) }
    #[verifier::external_body]
    fn vx_into_iter(self) -> (o: Self::Out) { SeqIter::vx_new(self.iter()) }
}
impl<'a, T> VxInto for &'a [T] {
    type Out = SeqIter<'a, &'a T>;
    open spec fn vx_into_spec(self, o: Self::Out) -> bool { o.pos() == 0 && refs_of(o.all(), self@) }
    #[verifier::external_body]
    fn vx_into_iter(self) -> (o: Self::Out) { SeqIter::vx_new(self.iter()) }
}

pub struct VxRange { pub cur: usize, pub end: usize }
impl VxRange {
    pub fn next(&mut self) -> (r: Option<usize>)
        ensures
            final(self).end == old(self).end,
            match r {
                None => old(self).cur >= old(self).end && final(self).cur == old(self).cur,
                Some(x) => old(self).cur < old(self).end && x == old(self).cur && final(self).cur == x + 1,
            },
    {
        if self.cur < self.end { let x = self.cur; self.cur = x + 1; Some(x) } else { None }
    }
}
pub fn vx_range(a: usize, b: usize) -> (r: VxRange)
    ensures r.cur == a, r.end == b,
{ VxRange { cur: a, end: b } }

/// `.iter()`
pub trait VxIter<'a>: Sized {
    type Item;
    spec fn vx_iter_spec(self, o: SeqIter<'a, Self::Item>) -> bool;
    fn vx_iter(self) -> (o: SeqIter<'a, Self::Item>)
        ensures self.vx_iter_spec(o);
}
impl<'a, T> VxIter<'a> for &'a Vec<T> {
    type Item = &'a T;
    open spec fn vx_iter_spec(self, o: SeqIter<'a, &'a T>) -> bool { o.pos() == 0 && refs_of(o.all(), self@) }
    #[verifier::external_body]
    fn vx_iter(self) -> (o: SeqIter<'a, &'a T>) { SeqIter::vx_new(self.iter()) }
}
impl<'a, T> VxIter<'a> for &'a [T] {
    type Item = &'a T;
    open spec fn vx_iter_spec(self, o: SeqIter<'a, &'a T>) -> bool { o.pos() == 0 && refs_of(o.all(), self@) }
    #[verifier::external_body]
    fn vx_iter(self) -> (o: SeqIter<'a, &'a T>) { SeqIter::vx_new(self.iter()) }
}
/// the entries of a map, each once, in some order
pub open spec fn entries_of(it: Seq<(&usize, &usize)>, m: Map<usize, usize>) -> bool {
    &&& forall|i: int| 0 <= i < it.len() ==> m.contains_pair(*(#[trigger] it[i]).0, *it[i].1)
    &&& forall|i: int, j: int| 0 <= i < j < it.len() ==> *(#[trigger] it[i]).0 != *(#[trigger] it[j]).0
    &&& forall|k: usize| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < it.len() && *(#[trigger] it[i]).0 == k
}
impl<'a> VxIter<'a> for &'a HashMap<usize, usize> {
    type Item = (&'a usize, &'a usize);
    open spec fn vx_iter_spec(self, o: SeqIter<'a, (&'a usize, &'a usize)>) -> bool { o.pos() == 0 && entries_of(o.all(), self@) }
    #[verifier::external_body]
    fn vx_iter(self) -> (o: SeqIter<'a, (&'a usize, &'a usize)>) { SeqIter::vx_new(self.iter()) }
}

// ------------------------------------------------------------------ containers

pub trait VxContains<T> {
    spec fn vx_has(&self, x: T) -> bool;
    fn vx_contains(&self, x: &T) -> (r: bool)
        ensures r == self.vx_has(*x);
}
impl VxContains<usize> for Vec<usize> {
    open spec fn vx_has(&self, x: usize) -> bool { self@.contains(x) }
    #[verifier::external_body]
    fn vx_contains(&self, x: &usize) -> (r: bool) { self.contains(x) }
}
impl VxContains<usize> for [usize] {
    open spec fn vx_has(&self, x: usize) -> bool { self@.contains(x) }
    #[verifier::external_body]
    fn vx_contains(&self, x: &usize) -> (r: bool) { self.contains(x) }
}
impl VxContains<(usize, usize)> for Vec<(usize, usize)> {
    open spec fn vx_has(&self, x: (usize, usize)) -> bool { self@.contains(x) }
    #[verifier::external_body]
    fn vx_contains(&self, x: &(usize, usize)) -> (r: bool) { self.contains(x) }
}
impl VxContains<usize> for HashSet<usize> {
    open spec fn vx_has(&self, x: usize) -> bool { self@.contains(x) }
    fn vx_contains(&self, x: &usize) -> (r: bool) { self.contains(x) }
}

pub open spec fn rot_right<T>(s: Seq<T>, k: int) -> Seq<T> {
    s.subrange(s.len() - k, s.len() as int) + s.subrange(0, s.len() - k)
}
pub open spec fn rot_left<T>(s: Seq<T>, k: int) -> Seq<T> {
    s.subrange(k, s.len() as int) + s.subrange(0, k)
}
pub trait VxSlice<T> {
    spec fn vx_view(&self) -> Seq<T>;
    fn vx_to_vec(&self) -> (r: Vec<T>) ensures r@ == self.vx_view();
}
impl<T: Copy> VxSlice<T> for Vec<T> {
    open spec fn vx_view(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_to_vec(&self) -> (r: Vec<T>) { self.to_vec() }
}
impl<T: Copy> VxSlice<T> for [T] {
    open spec fn vx_view(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_to_vec(&self) -> (r: Vec<T>) { self.to_vec() }
}
pub trait VxVec<T> {
    spec fn vx_vview(&self) -> Seq<T>;
    fn vx_reverse(&mut self) ensures final(self).vx_vview() == old(self).vx_vview().reverse();
    fn vx_rotate_right(&mut self, k: usize)
        requires k <= old(self).vx_vview().len()
        ensures final(self).vx_vview() == rot_right(old(self).vx_vview(), k as int);
    fn vx_rotate_left(&mut self, k: usize)
        requires k <= old(self).vx_vview().len()
        ensures final(self).vx_vview() == rot_left(old(self).vx_vview(), k as int);
}
impl<T> VxVec<T> for Vec<T> {
    open spec fn vx_vview(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_reverse(&mut self) { self.reverse() }
    #[verifier::external_body]
    fn vx_rotate_right(&mut self, k: usize) { self.rotate_right(k) }
    #[verifier::external_body]
    fn vx_rotate_left(&mut self, k: usize) { self.rotate_left(k) }
}
/// the items whose flag is set
pub open spec fn kept_by<T>(s: Seq<T>, keep: Seq<bool>) -> Seq<T>
    decreases s.len()
{
    if s.len() == 0 { s } else {
        let r = kept_by(s.drop_last(), keep.drop_last());
        if keep.last() { r.push(s.last()) } else { r }
    }
}
pub trait VxRetain<T> {
    spec fn vx_rview(&self) -> Seq<T>;
    fn vx_retain<F: Fn(&T) -> bool>(&mut self, f: F)
        requires
            forall|i: int| 0 <= i < old(self).vx_rview().len() ==> #[trigger] call_requires(f, (&old(self).vx_rview()[i],)),
        ensures
            exists|keep: Seq<bool>| keep.len() == old(self).vx_rview().len()
                && (forall|i: int| 0 <= i < keep.len() ==> call_ensures(f, (&#[trigger] old(self).vx_rview()[i],), keep[i]))
                && final(self).vx_rview() == #[trigger] kept_by(old(self).vx_rview(), keep);
}
impl<T> VxRetain<T> for Vec<T> {
    open spec fn vx_rview(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_retain<F: Fn(&T) -> bool>(&mut self, f: F) { self.retain(|x| f(x)) }
}
impl<T> VxRetain<T> for VecDeque<T> {
    open spec fn vx_rview(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_retain<F: Fn(&T) -> bool>(&mut self, f: F) { self.retain(|x| f(x)) }
}
pub trait VxExtend<I> {
    spec fn vx_extended(self, i: I, o: Self) -> bool where Self: Sized;
    fn vx_extend(&mut self, i: I) where Self: Sized
        ensures old(self).vx_extended(i, *final(self));
}
impl<'a> VxExtend<SeqIter<'a, &'a usize>> for Vec<usize> {
    open spec fn vx_extended(self, i: SeqIter<'a, &'a usize>, o: Self) -> bool {
        i.ok() ==> o@ == self@ + derefs(i.rest())
    }
    #[verifier::external_body]
    fn vx_extend(&mut self, i: SeqIter<'a, &'a usize>) { self.extend(i.vx_inner()) }
}
impl<'a> VxExtend<SeqIter<'a, usize>> for Vec<usize> {
    open spec fn vx_extended(self, i: SeqIter<'a, usize>, o: Self) -> bool { i.ok() ==> o@ == self@ + i.rest() }
    #[verifier::external_body]
    fn vx_extend(&mut self, i: SeqIter<'a, usize>) { self.extend(i.vx_inner()) }
}
impl VxExtend<Vec<usize>> for Vec<usize> {
    open spec fn vx_extended(self, i: Vec<usize>, o: Self) -> bool { o@ == self@ + i@ }
    #[verifier::external_body]
    fn vx_extend(&mut self, i: Vec<usize>) { self.extend(i) }
}

// ------------------------------------------------------------------ conversions (rule R10)
pub trait VxTryFrom<T>: Sized {
    type Error;
    spec fn vx_try_pre(x: T) -> bool;
    fn vx_try_from(x: T) -> Result<Self, Self::Error>
        requires Self::vx_try_pre(x);
}

} // verus!
}
