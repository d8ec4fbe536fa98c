//! Executable readings of the contracts assumed in contracts/00_vx.rs, run against the shims (whose bodies are the
//! std methods).  Included by twin.rs.
use super::Rng;
use gamma_vx::vx::*;
use std::collections::*;

fn rest<'a, T>(mut i: SeqIter<'a, T>) -> Vec<T> { let mut v = vec![]; while let Some(x) = i.next() { v.push(x) } for _ in 0..2 { assert!(i.next().is_none()) } v }

pub fn go(r: &mut Rng) -> usize {
    let n = r.below(9);
    let all: Vec<usize> = (0..n).map(|_| r.below(6)).collect();
    let v = all.clone();
    let c = r.below(6);
    let f = move |x: &usize| *x % 6 >= c;
    let pos = r.below(n + 1);
    // an iterator somewhere along its way: `all` and `pos` are its view
    let at = || { let mut i = v.vx_iter().cloned(); for k in 0..pos { assert_eq!(i.next(), Some(all[k])) } i };
    let tail = &all[pos..];
    let mut k = 0;
    macro_rules! is { ($a:expr, $b:expr) => {{ k += 1; assert_eq!($a, $b, "shim contract {}: {:?} at {}", line!(), all, pos); }} }
    is!(rest(at()), tail.to_vec());
    let first = (pos..n).find(|&i| f(&all[i]));
    { let mut i = at(); is!(i.find(|x| f(x)), first.map(|j| all[j])); is!(rest(i), first.map(|j| all[j + 1..].to_vec()).unwrap_or(vec![])); }
    { let mut i = at(); is!(i.position(|x| f(&x)), first.map(|j| j - pos)); is!(rest(i), first.map(|j| all[j + 1..].to_vec()).unwrap_or(vec![])); }
    { let mut i = at(); is!(i.any(|x| f(&x)), first.is_some()); }
    { let mut i = at(); is!(i.vx_all(|x| f(&x)), (pos..n).all(|i| f(&all[i]))); }
    // filter: the source positions kept, ascending
    is!(rest(at().filter(f)), (pos..n).filter(|&i| f(&all[i])).map(|i| all[i]).collect::<Vec<_>>());
    is!(rest(at().map(|x| x * 2 + 1)), (pos..n).map(|i| all[i] * 2 + 1).collect::<Vec<_>>());
    is!(rest(at().enumerate()), (pos..n).map(|i| (i - pos, all[i])).collect::<Vec<_>>());
    is!(at().collect::<Vec<usize>>(), tail.to_vec());
    is!(at().collect::<HashSet<usize>>(), { let mut s = HashSet::new(); for x in tail { s.insert(*x); } s });
    is!(at().count(), n - pos);
    { let s = r.below(12); is!(rest(at().skip(s)), all[(pos + s).min(n)..].to_vec()); }
    { let mut i = v.vx_iter(); for _ in 0..pos { i.next(); } is!(rest(i.copied()), tail.to_vec()); }
    is!(rest(v.clone().vx_into_iter()), all);
    is!(rest((&v).vx_into_iter()).into_iter().map(|x| *x).collect::<Vec<_>>(), all);
    is!(rest((&v[..]).vx_into_iter()).into_iter().map(|x| *x).collect::<Vec<_>>(), all);
    is!(rest((&v[pos..]).vx_iter()).into_iter().map(|x| *x).collect::<Vec<_>>(), tail.to_vec());
    let m: HashMap<usize, usize> = all.iter().enumerate().map(|(i, x)| (*x, i)).collect();
    { let e = rest((&m).vx_iter()); is!(e.len(), m.len()); for (a, b) in &e { is!(m[a], **b) } let mut ks: Vec<usize> = e.iter().map(|p| *p.0).collect(); ks.sort(); ks.dedup(); is!(ks.len(), m.len()); }
    for x in 0..7 {
        is!(v.vx_contains(&x), (0..n).any(|i| all[i] == x));
        is!(VxContains::vx_contains(&v[pos..], &x), (pos..n).any(|i| all[i] == x));
        let s: HashSet<usize> = all.iter().cloned().collect();
        is!(VxContains::vx_contains(&s, &x), (0..n).any(|i| all[i] == x));
        let p: Vec<(usize, usize)> = all.iter().map(|&a| (a, a / 2)).collect();
        is!(VxContains::vx_contains(&p, &(x, x / 2)), (0..n).any(|i| all[i] == x));
        is!(VxContains::vx_contains(&p, &(x, x / 2 + 1)), false);
    }
    is!(VxSlice::vx_to_vec(&v), all);
    is!(VxSlice::vx_to_vec(&v[pos..]), tail.to_vec());
    { let mut w = v.clone(); w.vx_reverse(); is!(w, (0..n).map(|i| all[n - 1 - i]).collect::<Vec<_>>()); }
    // rot_right(s, k) = s[len-k..] + s[..len-k]; rot_left(s, k) = s[k..] + s[..k]
    { let mut w = v.clone(); w.vx_rotate_right(pos); is!(w, [&all[n - pos..], &all[..n - pos]].concat()); }
    { let mut w = v.clone(); w.vx_rotate_left(pos); is!(w, [&all[pos..], &all[..pos]].concat()); }
    { let mut w = v.clone(); w.vx_retain(f); is!(w, (0..n).filter(|&i| f(&all[i])).map(|i| all[i]).collect::<Vec<_>>()); }
    { let mut w: VecDeque<usize> = v.iter().cloned().collect(); w.vx_retain(f); is!(w.into_iter().collect::<Vec<_>>(), (0..n).filter(|&i| f(&all[i])).map(|i| all[i]).collect::<Vec<_>>()); }
    { let mut w = vec![9]; w.vx_extend(at()); is!(w, [&[9], tail].concat()); }
    { let mut w = vec![9]; w.vx_extend((&v[pos..]).vx_iter()); is!(w, [&[9], tail].concat()); }
    { let mut w = vec![9]; w.vx_extend(tail.to_vec()); is!(w, [&[9], tail].concat()); }
    k
}
