// Reference implementations of the std methods whose contracts 00_vx.rs assumes: the loop (or definition) that the std
// documentation gives, verified against the same contract text. refs.py compares the two texts clause by clause, so an
// assumed contract cannot be contradictory, nor say more than what such a loop guarantees.
// What stays assumed is that the std method behaves like the loop; twin/shims.rs runs it.
// Nothing in the crate's own text calls these.
pub mod rf {
#[allow(unused_imports)] use vstd::prelude::*;
#[allow(unused_imports)] use std::collections::{HashMap, HashSet, VecDeque};
#[allow(unused_imports)] use vstd::std_specs::iter::IteratorSpec;
#[allow(unused_imports)] use crate::vx::{derefs, entries_of, refs_of, rot_right, rot_left, kept_by};
verus! {

broadcast use vstd::std_specs::hash::group_hash_axioms;

/// an iterator over owned items, with the items already yielded as ghost state
pub struct RefIter<T> { pub v: VecDeque<T>, pub done: Ghost<Seq<T>>, pub src: Ghost<spec_fn(int) -> int>, pub dst: Ghost<spec_fn(int) -> int> }
pub open spec fn vx_src<T>(r: RefIter<T>, i: int) -> int { (r.src@)(i) }
pub open spec fn vx_dst<T>(r: RefIter<T>, j: int) -> int { (r.dst@)(j) }

pub fn of_queue<T>(v: VecDeque<T>) -> (r: RefIter<T>)
    ensures r.pos() == 0, r.all() == v@,
{
    let r = RefIter { v, done: Ghost(Seq::empty()), src: Ghost(|i: int| i), dst: Ghost(|i: int| i) };
    proof { assert(r.all() =~= v@); }
    r
}

impl<T> RefIter<T> {
    pub open spec fn all(&self) -> Seq<T> { self.done@ + self.v@ }
    pub open spec fn pos(&self) -> int { self.done@.len() as int }
    pub open spec fn fresh(&self, s: Seq<T>) -> bool { self.pos() == 0 && self.all() == s }
    pub open spec fn ok(&self) -> bool { 0 <= self.pos() <= self.all().len() }
    pub open spec fn rest(&self) -> Seq<T> { self.all().skip(self.pos()) }

    pub fn next(&mut self) -> (r: Option<T>)
        ensures
            final(self).all() == old(self).all(),
            match r {
                None => old(self).pos() >= old(self).all().len() && final(self).pos() == old(self).pos(),
                Some(x) => old(self).pos() < old(self).all().len() && final(self).pos() == old(self).pos() + 1
                    && (0 <= old(self).pos() ==> x == old(self).all()[old(self).pos()]),
            },
    {
        let r = self.v.pop_front();
        match r {
            None => None,
            Some(x) => {
                self.done = Ghost(self.done@.push(x));
                proof { assert(self.all() =~= old(self).all()); }
                Some(x)
            }
        }
    }

    pub fn find<F: Fn(&T) -> bool>(&mut self, f: F) -> (r: Option<T>)
        requires
            old(self).ok(),
            forall|i: int| old(self).pos() <= i < old(self).all().len() ==> #[trigger] call_requires(f, (&old(self).all()[i],)),
        ensures
            final(self).all() == old(self).all(),
            match r {
                None => final(self).pos() == old(self).all().len()
                    && forall|i: int| old(self).pos() <= i < old(self).all().len() ==> call_ensures(f, (&#[trigger] old(self).all()[i],), false),
                Some(x) => old(self).pos() < final(self).pos() <= old(self).all().len()
                    && x == old(self).all()[final(self).pos() - 1]
                    && call_ensures(f, (&x,), true)
                    && forall|i: int| old(self).pos() <= i < final(self).pos() - 1 ==> call_ensures(f, (&#[trigger] old(self).all()[i],), false),
            },
    {
        loop
            invariant
                self.all() == old(self).all(), old(self).pos() <= self.pos() <= self.all().len(),
                forall|i: int| old(self).pos() <= i < old(self).all().len() ==> #[trigger] call_requires(f, (&old(self).all()[i],)),
                forall|i: int| old(self).pos() <= i < self.pos() ==> call_ensures(f, (&#[trigger] old(self).all()[i],), false),
            decreases self.all().len() - self.pos()
        {
            let ghost p = self.pos();
            match self.next() {
                None => return None,
                Some(x) => { assert(x == old(self).all()[p]); if f(&x) { return Some(x); } }
            }
        }
    }

    pub fn position<F: Fn(T) -> bool>(&mut self, f: F) -> (r: Option<usize>)
        requires
            old(self).ok(),
            forall|i: int| old(self).pos() <= i < old(self).all().len() ==> #[trigger] call_requires(f, (old(self).all()[i],)),
        ensures
            final(self).all() == old(self).all(),
            match r {
                None => final(self).pos() == old(self).all().len()
                    && forall|i: int| old(self).pos() <= i < old(self).all().len() ==> call_ensures(f, (#[trigger] old(self).all()[i],), false),
                Some(k) => old(self).pos() + k < old(self).all().len()
                    && final(self).pos() == old(self).pos() + k + 1
                    && call_ensures(f, (old(self).all()[old(self).pos() + k],), true)
                    && forall|i: int| old(self).pos() <= i < old(self).pos() + k ==> call_ensures(f, (#[trigger] old(self).all()[i],), false),
            },
    {
        let ghost s = self.all();
        let ghost p0 = self.pos();
        let n: usize = self.v.len();
        let mut k: usize = 0;
        while k < n
            invariant
                self.all() == s, s == old(self).all(), p0 == old(self).pos(), self.pos() == p0 + k, 0 <= p0, k <= n, p0 + n == s.len(),
                forall|i: int| p0 <= i < s.len() ==> #[trigger] call_requires(f, (s[i],)),
                forall|i: int| p0 <= i < p0 + k ==> call_ensures(f, (#[trigger] s[i],), false),
            decreases n - k
        {
            match self.next() {
                None => { return None; }
                Some(x) => { assert(x == s[p0 + k]); if f(x) { return Some(k); } }
            }
            k += 1;
        }
        None
    }

    pub fn vx_all<F: Fn(T) -> bool>(&mut self, f: F) -> (r: bool)
        requires
            old(self).ok(),
            forall|i: int| old(self).pos() <= i < old(self).all().len() ==> #[trigger] call_requires(f, (old(self).all()[i],)),
        ensures
            final(self).all() == old(self).all(),
            !r ==> exists|i: int| old(self).pos() <= i < old(self).all().len() && call_ensures(f, (#[trigger] old(self).all()[i],), false),
            r ==> forall|i: int| old(self).pos() <= i < old(self).all().len() ==> call_ensures(f, (#[trigger] old(self).all()[i],), true),
    {
        loop
            invariant
                self.all() == old(self).all(), old(self).pos() <= self.pos() <= self.all().len(),
                forall|i: int| old(self).pos() <= i < old(self).all().len() ==> #[trigger] call_requires(f, (old(self).all()[i],)),
                forall|i: int| old(self).pos() <= i < self.pos() ==> call_ensures(f, (#[trigger] old(self).all()[i],), true),
            decreases self.all().len() - self.pos()
        {
            let ghost p = self.pos();
            match self.next() {
                None => return true,
                Some(x) => { assert(x == old(self).all()[p]); if !f(x) { return false; } }
            }
        }
    }

    pub fn any<F: Fn(T) -> bool>(&mut self, f: F) -> (r: bool)
        requires
            old(self).ok(),
            forall|i: int| old(self).pos() <= i < old(self).all().len() ==> #[trigger] call_requires(f, (old(self).all()[i],)),
        ensures
            final(self).all() == old(self).all(),
            r ==> exists|i: int| old(self).pos() <= i < old(self).all().len() && call_ensures(f, (#[trigger] old(self).all()[i],), true),
            !r ==> forall|i: int| old(self).pos() <= i < old(self).all().len() ==> call_ensures(f, (#[trigger] old(self).all()[i],), false),
    {
        loop
            invariant
                self.all() == old(self).all(), old(self).pos() <= self.pos() <= self.all().len(),
                forall|i: int| old(self).pos() <= i < old(self).all().len() ==> #[trigger] call_requires(f, (old(self).all()[i],)),
                forall|i: int| old(self).pos() <= i < self.pos() ==> call_ensures(f, (#[trigger] old(self).all()[i],), false),
            decreases self.all().len() - self.pos()
        {
            let ghost p = self.pos();
            match self.next() {
                None => return false,
                Some(x) => { assert(x == old(self).all()[p]); if f(x) { return true; } }
            }
        }
    }

    pub fn filter<F: Fn(&T) -> bool>(self, f: F) -> (r: RefIter<T>)
        requires
            self.ok(),
            forall|i: int| self.pos() <= i < self.all().len() ==> #[trigger] call_requires(f, (&self.all()[i],)),
        ensures
            r.pos() == 0,
            // src: where item i of the result came from; dst: where item j of the source went
            forall|i: int| 0 <= i < r.all().len() ==> self.pos() <= vx_src(r, i) < self.all().len()
                && #[trigger] r.all()[i] == self.all()[vx_src(r, i)] && call_ensures(f, (&r.all()[i],), true)
                && vx_dst(r, vx_src(r, i)) == i,
            forall|i: int, k: int| 0 <= i < k < r.all().len() ==> #[trigger] vx_src(r, i) < #[trigger] vx_src(r, k),
            forall|j: int| self.pos() <= j < self.all().len() ==> call_ensures(f, (&#[trigger] self.all()[j],), false)
                || (0 <= vx_dst(r, j) < r.all().len() && vx_src(r, vx_dst(r, j)) == j && r.all()[vx_dst(r, j)] == self.all()[j]),
    {
        let mut it = self;
        let ghost s = self.all();
        let ghost p0 = self.pos();
        let mut out: VecDeque<T> = VecDeque::new();
        let ghost mut src: Seq<int> = Seq::empty();
        let ghost mut dst: Seq<int> = Seq::empty();
        loop
            invariant
                it.all() == s, p0 <= it.pos() <= s.len(), s == self.all(), p0 == self.pos(), 0 <= p0,
                forall|i: int| p0 <= i < s.len() ==> #[trigger] call_requires(f, (&s[i],)),
                src.len() == out@.len(), dst.len() == it.pos() - p0,
                forall|i: int| 0 <= i < src.len() ==> p0 <= #[trigger] src[i] < it.pos() && out@[i] == s[src[i]] && call_ensures(f, (&out@[i],), true) && dst[src[i] - p0] == i,
                forall|i: int, k: int| 0 <= i < k < src.len() ==> #[trigger] src[i] < #[trigger] src[k],
                forall|j: int| p0 <= j < it.pos() ==> call_ensures(f, (&#[trigger] s[j],), false) || (0 <= dst[j - p0] < out@.len() && src[dst[j - p0]] == j && out@[dst[j - p0]] == s[j]),
            ensures it.pos() == s.len(),
            decreases s.len() - it.pos()
        {
            let ghost p = it.pos();
            match it.next() {
                None => break,
                Some(x) => {
                    assert(x == s[p]);
                    if f(&x) {
                        proof { dst = dst.push(src.len() as int); src = src.push(p); }
                        out.push_back(x);
                    } else {
                        proof { dst = dst.push(-1); }
                    }
                }
            }
        }
        let ghost q = out@;
        let r = RefIter { v: out, done: Ghost(Seq::empty()), src: Ghost(|i: int| src[i]), dst: Ghost(|j: int| dst[j - p0]) };
        proof { assert(r.all() =~= q); }
        r
    }

    pub fn map<U, F: Fn(T) -> U>(self, f: F) -> (r: RefIter<U>)
        requires
            self.ok(),
            forall|i: int| self.pos() <= i < self.all().len() ==> #[trigger] call_requires(f, (self.all()[i],)),
        ensures
            r.pos() == 0,
            r.all().len() == self.all().len() - self.pos(),
            forall|i: int| 0 <= i < r.all().len() ==> call_ensures(f, (self.all()[self.pos() + i],), #[trigger] r.all()[i]),
            forall|j: int| self.pos() <= j < self.all().len() ==> call_ensures(f, (#[trigger] self.all()[j],), r.all()[j - self.pos()]),
    {
        let mut it = self;
        let ghost s = self.all();
        let ghost p0 = self.pos();
        let mut out: VecDeque<U> = VecDeque::new();
        loop
            invariant
                it.all() == s, p0 <= it.pos() <= s.len(), s == self.all(), p0 == self.pos(), 0 <= p0,
                forall|i: int| p0 <= i < s.len() ==> #[trigger] call_requires(f, (s[i],)),
                out@.len() == it.pos() - p0,
                forall|i: int| 0 <= i < out@.len() ==> call_ensures(f, (s[p0 + i],), #[trigger] out@[i]),
            ensures it.pos() == s.len(),
            decreases s.len() - it.pos()
        {
            let ghost p = it.pos();
            match it.next() {
                None => break,
                Some(x) => { assert(x == s[p]); let y = f(x); out.push_back(y); }
            }
        }
        let r = of_queue(out);
        proof { assert forall|j: int| p0 <= j < s.len() implies call_ensures(f, (#[trigger] s[j],), r.all()[j - p0]) by { assert(s[j] == s[p0 + (j - p0)]); } }
        r
    }

    pub fn enumerate(self) -> (r: RefIter<(usize, T)>)
        requires self.ok(),
        ensures
            r.pos() == 0,
            r.all().len() == self.all().len() - self.pos(),
            forall|i: int| 0 <= i < r.all().len() ==> (#[trigger] r.all()[i]).0 == i && r.all()[i].1 == self.all()[self.pos() + i],
    {
        let mut it = self;
        let ghost s = self.all();
        let ghost p0 = self.pos();
        let mut out: VecDeque<(usize, T)> = VecDeque::new();
        loop
            invariant
                it.all() == s, p0 <= it.pos() <= s.len(), s == self.all(), p0 == self.pos(), 0 <= p0,
                out@.len() == it.pos() - p0,
                forall|i: int| 0 <= i < out@.len() ==> (#[trigger] out@[i]).0 == i && out@[i].1 == s[p0 + i],
            ensures it.pos() == s.len(),
            decreases s.len() - it.pos()
        {
            match it.next() {
                None => break,
                Some(x) => { let k = out.len(); out.push_back((k, x)); }
            }
        }
        of_queue(out)
    }

    /// collect::<Vec<_>>()
    pub fn collect_vec(self) -> (r: Vec<T>)
        requires self.ok(),
        ensures r@ == self.rest(),
    {
        let mut it = self;
        let ghost s = self.all();
        let ghost p0 = self.pos();
        let mut out: Vec<T> = Vec::new();
        loop
            invariant
                it.all() == s, p0 <= it.pos() <= s.len(), s == self.all(), p0 == self.pos(), 0 <= p0,
                out@ == s.subrange(p0, it.pos()),
            ensures it.pos() == s.len(),
            decreases s.len() - it.pos()
        {
            match it.next() {
                None => break,
                Some(x) => { out.push(x); assert(out@ =~= s.subrange(p0, it.pos())); }
            }
        }
        proof { assert(out@ =~= self.rest()); }
        out
    }

    pub fn count(self) -> (r: usize)
        requires self.ok(),
        ensures r == self.all().len() - self.pos(),
    {
        let v = self.collect_vec();
        let ghost n = self.rest().len();
        v.len()
    }

    pub fn skip(self, n: usize) -> (r: RefIter<T>)
        requires self.ok(),
        ensures
            r.all() == self.all(),
            r.pos() == if self.pos() + n <= self.all().len() { self.pos() + n } else { self.all().len() as int },
    {
        let mut it = self;
        let ghost s = self.all();
        let ghost p0 = self.pos();
        let mut k: usize = 0;
        while k < n
            invariant it.all() == s, 0 <= p0, k <= n, it.pos() == p0 + k, it.pos() <= s.len(), s == self.all(), p0 == self.pos(),
            decreases n - k
        {
            match it.next() {
                None => { return it; }
                Some(_) => { k += 1; }
            }
        }
        it
    }
}

/// collect::<HashSet<usize>>()
pub fn collect_set(it: RefIter<usize>) -> (r: HashSet<usize>)
    requires it.ok(),
    ensures r@ == it.rest().to_set(),
{
    let mut i = it;
    let ghost s = it.all();
    let ghost p0 = it.pos();
    let mut out: HashSet<usize> = HashSet::new();
    proof { assert(out@ =~= s.subrange(p0, p0).to_set()); }
    loop
        invariant
            i.all() == s, p0 <= i.pos() <= s.len(), s == it.all(), p0 == it.pos(), 0 <= p0,
            out@ == s.subrange(p0, i.pos()).to_set(),
        ensures i.pos() == s.len(),
        decreases s.len() - i.pos()
    {
        let ghost p = i.pos();
        match i.next() {
            None => break,
            Some(x) => {
                out.insert(x);
                proof {
                    let a = s.subrange(p0, p);
                    let b = s.subrange(p0, p + 1);
                    assert(b =~= a.push(x));
                    assert forall|y: usize| out@.contains(y) <==> b.to_set().contains(y) by {
                        if a.contains(y) { let k = a.index_of(y); assert(b[k] == y); }
                        assert(b[b.len() - 1] == x);
                        if b.contains(y) && y != x { let k = b.index_of(y); assert(a[k] == y); }
                    }
                    assert(out@ =~= b.to_set());
                }
            }
        }
    }
    proof { assert(s.subrange(p0, s.len() as int) =~= it.rest()); }
    out
}

/// cloned() and copied() over references to items that are Copy
pub fn cloned<'a, T: Copy>(it: RefIter<&'a T>) -> (r: RefIter<T>)
    requires it.ok(),
    ensures
        r.pos() == 0,
        r.all().len() == it.all().len() - it.pos(),
        forall|i: int| 0 <= i < r.all().len() ==> #[trigger] r.all()[i] == *it.all()[it.pos() + i],
        forall|j: int| it.pos() <= j < it.all().len() ==> *(#[trigger] it.all()[j]) == r.all()[j - it.pos()],
{
    let mut i = it;
    let ghost s = it.all();
    let ghost p0 = it.pos();
    let mut out: VecDeque<T> = VecDeque::new();
    loop
        invariant
            i.all() == s, p0 <= i.pos() <= s.len(), s == it.all(), p0 == it.pos(), 0 <= p0,
            out@.len() == i.pos() - p0,
            forall|k: int| 0 <= k < out@.len() ==> #[trigger] out@[k] == *s[p0 + k],
        ensures i.pos() == s.len(),
        decreases s.len() - i.pos()
    {
        match i.next() {
            None => break,
            Some(x) => { out.push_back(*x); }
        }
    }
    let r = of_queue(out);
    proof { assert forall|j: int| p0 <= j < s.len() implies *(#[trigger] s[j]) == r.all()[j - p0] by { assert(s[j] == s[p0 + (j - p0)]); } }
    r
}

/// Vec: into_iter()
pub fn vec_into_iter<T>(v: Vec<T>) -> (o: RefIter<T>)
    ensures o.fresh(v@),
{
    let mut w = v;
    let mut out: VecDeque<T> = VecDeque::new();
    loop
        invariant w@ + out@ == v@,
        ensures out@ == v@,
        decreases w@.len()
    {
        let ghost w0 = w@;
        let ghost o0 = out@;
        match w.pop() {
            None => { assert(w0 + o0 =~= o0); break; }
            Some(x) => { out.push_front(x); assert(w@ + out@ =~= w0 + o0); }
        }
    }
    of_queue(out)
}
/// slices and Vec: iter()
pub fn slice_iter<'a, T>(v: &'a [T]) -> (o: RefIter<&'a T>)
    ensures o.pos() == 0 && refs_of(o.all(), v@),
{
    let mut out: VecDeque<&'a T> = VecDeque::new();
    let mut i: usize = 0;
    while i < v.len()
        invariant i <= v@.len(), out@.len() == i, forall|k: int| 0 <= k < i ==> *(#[trigger] out@[k]) == v@[k],
        decreases v@.len() - i
    {
        out.push_back(&v[i]);
        i += 1;
    }
    of_queue(out)
}
/// HashMap: iter(), from vstd's own specification of it
pub fn map_iter<'a>(m: &'a HashMap<usize, usize>) -> (o: RefIter<(&'a usize, &'a usize)>)
    ensures o.pos() == 0 && entries_of(o.all(), m@),
{
    let mut out: VecDeque<(&'a usize, &'a usize)> = VecDeque::new();
    let mut it = m.iter();
    let ghost all = it.remaining();
    proof {
        assert(forall|i: int| 0 <= i < all.len() ==> m@.contains_pair(*(#[trigger] all[i]).0, *all[i].1));
        assert(forall|i: int, j: int| 0 <= i < j < all.len() ==> *(#[trigger] all[i]).0 != *(#[trigger] all[j]).0);
        assert(forall|k: usize| #[trigger] m@.contains_key(k) ==> exists|i: int| 0 <= i < all.len() && *(#[trigger] all[i]).0 == k);
        assert(out@ + it.remaining() =~= all);
    }
    loop
        invariant it.obeys_prophetic_iter_laws(), it.decrease() is Some, out@ + it.remaining() == all, entries_of(all, m@),
        ensures out@ == all,
        decreases it.decrease().unwrap()
    {
        let ghost o0 = out@;
        let ghost r0 = it.remaining();
        match it.next() {
            None => { assert(o0 + r0 =~= o0); break; }
            Some(q) => { out.push_back(q); assert(out@ + it.remaining() =~= o0 + r0); }
        }
    }
    of_queue(out)
}

pub fn contains(v: &[usize], x: &usize) -> (r: bool)
    ensures r == v@.contains(*x),
{
    let mut i: usize = 0;
    while i < v.len()
        invariant i <= v@.len(), forall|k: int| 0 <= k < i ==> v@[k] != *x,
        decreases v@.len() - i
    {
        if v[i] == *x { assert(v@[i as int] == *x); return true; }
        i += 1;
    }
    false
}
pub fn contains_pair(v: &[(usize, usize)], x: &(usize, usize)) -> (r: bool)
    ensures r == v@.contains(*x),
{
    let mut i: usize = 0;
    while i < v.len()
        invariant i <= v@.len(), forall|k: int| 0 <= k < i ==> v@[k] != *x,
        decreases v@.len() - i
    {
        if v[i].0 == x.0 && v[i].1 == x.1 { assert(v@[i as int] == *x); return true; }
        i += 1;
    }
    false
}
pub fn to_vec<T: Copy>(v: &[T]) -> (r: Vec<T>)
    ensures r@ == v@,
{
    let mut out: Vec<T> = Vec::new();
    let mut i: usize = 0;
    while i < v.len()
        invariant i <= v@.len(), out@ == v@.subrange(0, i as int),
        decreases v@.len() - i
    {
        out.push(v[i]);
        i += 1;
        proof { assert(out@ =~= v@.subrange(0, i as int)); }
    }
    proof { assert(out@ =~= v@); }
    out
}
pub fn reverse<T>(v: &mut Vec<T>)
    ensures final(v)@ == old(v)@.reverse()
{
    let mut out: Vec<T> = Vec::new();
    let ghost s = v@;
    loop
        invariant s == old(v)@, v@.len() + out@.len() == s.len(), v@ == s.subrange(0, v@.len() as int),
            forall|k: int| 0 <= k < out@.len() ==> #[trigger] out@[k] == s[s.len() - 1 - k],
        ensures v@.len() == 0,
        decreases v@.len()
    {
        match v.pop() {
            None => break,
            Some(x) => { out.push(x); assert(v@ =~= s.subrange(0, v@.len() as int)); }
        }
    }
    *v = out;
    proof { assert(v@ =~= s.reverse()); }
}
pub fn rotate_right<T>(v: &mut Vec<T>, k: usize)
    requires k <= old(v)@.len()
    ensures final(v)@ == rot_right(old(v)@, k as int)
{
    let ghost s = v@;
    let mut i: usize = 0;
    proof { assert(v@ =~= rot_right(s, 0)); }
    while i < k
        invariant s == old(v)@, i <= k <= s.len(), v@ == rot_right(s, i as int),
        decreases k - i
    {
        match v.pop() {
            None => { return; }
            Some(x) => { v.insert(0, x); }
        }
        i += 1;
        proof { assert(v@ =~= rot_right(s, i as int)); }
    }
}
pub fn rotate_left<T>(v: &mut Vec<T>, k: usize)
    requires k <= old(v)@.len()
    ensures final(v)@ == rot_left(old(v)@, k as int)
{
    let ghost s = v@;
    let mut i: usize = 0;
    proof { assert(v@ =~= rot_left(s, 0)); }
    while i < k
        invariant s == old(v)@, i <= k <= s.len(), v@ == rot_left(s, i as int),
        decreases k - i
    {
        let x = v.remove(0);
        v.push(x);
        i += 1;
        proof { assert(v@ =~= rot_left(s, i as int)); }
    }
}
proof fn lemma_kept_next<T>(s: Seq<T>, keep: Seq<bool>, i: int, b: bool)
    requires 0 <= i < s.len(), keep.len() == i,
    ensures kept_by(s.subrange(0, i + 1), keep.push(b)) == if b { kept_by(s.subrange(0, i), keep).push(s[i]) } else { kept_by(s.subrange(0, i), keep) },
{
    assert(s.subrange(0, i + 1).drop_last() =~= s.subrange(0, i));
    assert(keep.push(b).drop_last() =~= keep);
}
pub fn retain<T, F: Fn(&T) -> bool>(v: &mut VecDeque<T>, f: F)
    requires
        forall|i: int| 0 <= i < old(v)@.len() ==> #[trigger] call_requires(f, (&old(v)@[i],)),
    ensures
        exists|keep: Seq<bool>| keep.len() == old(v)@.len()
            && (forall|i: int| 0 <= i < keep.len() ==> call_ensures(f, (&#[trigger] old(v)@[i],), keep[i]))
            && final(v)@ == #[trigger] kept_by(old(v)@, keep),
{
    let ghost s = v@;
    let ghost mut keep: Seq<bool> = Seq::empty();
    let mut out: VecDeque<T> = VecDeque::new();
    proof { assert(out@ =~= kept_by(s.subrange(0, 0), keep)); }
    loop
        invariant
            s == old(v)@, keep.len() <= s.len(), v@ == s.skip(keep.len() as int),
            forall|i: int| 0 <= i < s.len() ==> #[trigger] call_requires(f, (&s[i],)),
            forall|i: int| 0 <= i < keep.len() ==> call_ensures(f, (&#[trigger] s[i],), keep[i]),
            out@ == kept_by(s.subrange(0, keep.len() as int), keep),
        ensures keep.len() == s.len(),
        decreases v@.len()
    {
        let ghost i = keep.len() as int;
        match v.pop_front() {
            None => break,
            Some(x) => {
                assert(x == s[i]);
                let b = f(&x);
                if b { out.push_back(x); }
                proof { lemma_kept_next(s, keep, i, b); keep = keep.push(b); assert(v@ =~= s.skip(keep.len() as int)); }
            }
        }
    }
    *v = out;
    proof { assert(s.subrange(0, s.len() as int) =~= s); assert(v@ == kept_by(s, keep)); }
}
pub fn extend_refs<'a>(v: &mut Vec<usize>, i: RefIter<&'a usize>)
    ensures i.ok() ==> final(v)@ == old(v)@ + derefs(i.rest())
{
    let mut it = i;
    let ghost s = i.all();
    let ghost p0 = i.pos();
    let ghost v0 = v@;
    loop
        invariant it.all() == s, 0 <= p0 <= it.pos() <= s.len(), v@ == v0 + derefs(s.subrange(p0, it.pos())), v0 == old(v)@, s == i.all(), p0 == i.pos(),
        ensures it.pos() == s.len(),
        decreases s.len() - it.pos()
    {
        match it.next() {
            None => break,
            Some(x) => { v.push(*x); assert(v@ =~= v0 + derefs(s.subrange(p0, it.pos()))); }
        }
    }
    proof { assert(s.subrange(p0, s.len() as int) =~= i.rest()); }
}
pub fn extend(v: &mut Vec<usize>, i: RefIter<usize>)
    ensures i.ok() ==> final(v)@ == old(v)@ + i.rest()
{
    let mut w = i.collect_vec();
    v.append(&mut w);
}
pub fn extend_vec(v: &mut Vec<usize>, i: Vec<usize>)
    ensures final(v)@ == old(v)@ + i@
{
    let mut w = i;
    v.append(&mut w);
}

} // verus!
}
