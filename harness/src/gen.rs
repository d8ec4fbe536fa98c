//! Generators: graph shapes, ids, histories.
use crate::case::*;
use std::collections::*;

/// integers worth trying as ids: extremes plus those the source mentions
pub fn special() -> Vec<usize> {
    let mut v = vec![usize::MAX, usize::MAX - 1, usize::MAX / 2, usize::MAX / 2 + 1, 1 << 63, 1 << 53, (1 << 53) + 1, 1 << 32, (1 << 32) - 1, (1 << 32) + 1, 1 << 31, 1 << 24, 1 << 16, 65535, 256, 255, 128, 127, 64, 63, 32, 31];
    for l in literals() { for x in [l, l.wrapping_add(1), l.wrapping_sub(1)] { v.push(x) } if l < 64 { v.push(1 << l) } }
    v.sort(); v.dedup(); v
}
pub fn literals() -> Vec<usize> {
    std::env::var("VXH_LITERALS").unwrap_or_default().split(',').filter_map(|x| x.trim().parse().ok()).collect()
}

pub fn ids(r: &mut Rng, n: usize) -> Vec<usize> {
    let mut v: Vec<usize>;
    match r.below(8) {
        0 | 1 => v = (0..n).collect(),
        2 | 3 => { v = (0..n).collect(); r.shuffle(&mut v) }
        4 => { let b = r.pick(&special()); v = (0..n).map(|i| b.wrapping_add(i)).collect(); if r.chance(1, 2) { r.shuffle(&mut v) } }
        5 => { let b = r.pick(&special()); v = (0..n).map(|i| b.wrapping_sub(i)).collect(); if r.chance(1, 2) { r.shuffle(&mut v) } }
        6 => { let m = 1 + r.below(3 * n + 3); let mut s: Vec<usize> = (0..n + m).collect(); r.shuffle(&mut s); s.truncate(n); v = s }
        _ => {
            let sp = special();
            let mut s = BTreeSet::new();
            while s.len() < n { let x = if r.chance(1, 2) { r.pick(&sp) } else if r.chance(1, 2) { r.next() as usize } else { r.below(2 * n + 2) }; s.insert(x); }
            v = s.into_iter().collect();
            r.shuffle(&mut v)
        }
    }
    v
}

/// edges over 0..n
pub fn shape(r: &mut Rng, n: usize, loops: bool) -> Vec<(usize, usize)> {
    let mut s: BTreeSet<(usize, usize)> = BTreeSet::new();
    if n > 84 || big() && r.chance(1, 2) { return large_shape(r, n, loops) }
    let mut add = |a: usize, b: usize| { if a != b && a < n && b < n { s.insert((a.min(b), a.max(b))); } };
    match r.below(11) {
        0 | 1 | 2 => { let d = 1 + r.below(10); for i in 0..n { for j in i + 1..n { if r.below(11) < d { add(i, j) } } } }
        3 => { for i in 1..n { add(i - 1, i) } if r.chance(1, 2) { add(0, n.saturating_sub(1)) } for _ in 0..r.below(4) { let (a, b) = (r.below(n), r.below(n)); add(a, b) } }
        4 => { for i in 1..n { let j = r.below(i); add(i, j) } for _ in 0..r.below(4) { let (a, b) = (r.below(n), r.below(n)); add(a, b) } }
        5 => { for i in 0..n { for j in i + 1..n { add(i, j) } } }
        6 => { let k = 1 + r.below(n.max(1)); for i in 0..k.min(n) { for j in k..n { if r.chance(2, 3) { add(i, j) } } } }
        7 => { // odd cycles joined by edges and stems
            let mut at = 0;
            let mut last = None;
            while at < n {
                let len = [1, 2, 3, 3, 5, 5, 7][r.below(7)].min(n - at);
                if len >= 3 { for i in 0..len { add(at + i, at + (i + 1) % len) } } else if len == 2 { add(at, at + 1) }
                if let Some(l) = last { let x = at + r.below(len); add(l, x) }
                last = Some(at + r.below(len));
                at += len;
            }
            for _ in 0..r.below(3) { let (a, b) = (r.below(n), r.below(n)); add(a, b) }
        }
        8 => { // disjoint pieces
            let mut at = 0;
            while at < n { let len = (1 + r.below(5)).min(n - at); for i in 1..len { add(at + i - 1, at + i) } if len > 2 && r.chance(1, 2) { add(at, at + len - 1) } at += len }
        }
        9 => { // ladder / grid
            let w = 2 + r.below(3);
            for i in 0..n { if i + w < n { add(i, i + w) } if i % w + 1 < w && i + 1 < n { add(i, i + 1) } }
        }
        _ => { // sparse
            let m = n + r.below(n / 2 + 2);
            for _ in 0..m { let (a, b) = (r.below(n), r.below(n)); add(a, b) }
        }
    }
    let mut v: Vec<_> = s.into_iter().collect();
    if loops && r.chance(1, 4) { for i in 0..n { if r.chance(1, 4) { v.push((i, i)) } } }
    v
}

/// edges over 0..n where one of depth, degree, length or number of pieces is large
fn large_shape(r: &mut Rng, n: usize, loops: bool) -> Vec<(usize, usize)> {
    let mut s: BTreeSet<(usize, usize)> = BTreeSet::new();
    let mut add = |a: usize, b: usize| { if a != b && a < n && b < n { s.insert((a.min(b), a.max(b))); } };
    match r.below(9) {
        0 => for i in 1..n { add(i - 1, i) },
        1 => { for i in 1..n { add(i - 1, i) } add(0, n - 1) }
        2 => { let h = r.below(n); for i in 0..n { add(h, i) } }
        3 => { let k = 1 + r.below(3); for i in k..n { for j in 0..k { add(i, j) } } }
        4 => for i in 1..n { let j = r.below(i); add(i, j) },
        5 => for i in 1..n { let j = i - 1 - r.below(i.min(3)); add(i, j) },
        6 => { let len = 1 + r.below(4); for i in 1..n { if i % len != 0 { add(i - 1, i) } } }
        7 => { let m = n.min(60); for i in 0..m { for j in i + 1..m { add(i, j) } } for i in m..n { let j = r.below(i); add(i, j) } }
        _ => for _ in 0..n + n / 2 { let (a, b) = (r.below(n), r.below(n)); add(a, b) },
    }
    for _ in 0..[0, 0, 1, 4, n / 8][r.below(5)] { let (a, b) = (r.below(n), r.below(n)); add(a, b) }
    let mut v: Vec<_> = s.into_iter().collect();
    if loops && r.chance(1, 4) { let k = 1 + r.below(n); for i in 0..n { if r.below(n) < k { v.push((i, i)) } } }
    v
}

/// set in the processes that look at large inputs only
pub static BIG: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
pub fn big() -> bool { BIG.load(std::sync::atomic::Ordering::Relaxed) }
fn near_literals(hi: usize) -> Vec<usize> { literals().into_iter().filter(|x| *x >= 2 && *x <= hi).collect() }

pub fn size(r: &mut Rng) -> usize {
    if big() {
        let lits = near_literals(400);
        return match r.below(10) {
            0 | 1 | 2 if !lits.is_empty() => { let l = r.pick(&lits); let f = 1 + r.below(3); (l * f + r.below(6)).max(2).min(640) }
            0..=6 => 12 + r.below(60),
            7 | 8 => 40 + r.below(140),
            _ => 120 + r.below(300),
        };
    }
    let lits = near_literals(150);
    match r.below(40) {
        0..=27 => 1 + r.below(8),
        28..=36 => 6 + r.below(8),
        37 | 38 => 12 + r.below(20),
        _ => if !lits.is_empty() && r.chance(1, 2) { r.pick(&lits) + r.below(4) } else { 24 + r.below(60) },
    }
}

/// a graph on 0..n together with a matching for which a search has far to go: an alternating tree grown from a free node, its
/// outer nodes joined now and then (blossoms, nested ones too), with a way out to another free node
pub fn flower(r: &mut Rng, n: usize, chain: bool) -> (usize, Vec<(usize, usize)>, Vec<(usize, usize)>) {
    let deep = if chain { 4 } else { r.below(4) };
    let (mut e, mut m): (BTreeSet<(usize, usize)>, Vec<(usize, usize)>) = (BTreeSet::new(), vec![]);
    let put = |e: &mut BTreeSet<(usize, usize)>, a: usize, b: usize| if a != b { e.insert((a.min(b), a.max(b))); };
    let mut at = 0;
    while at < n {
        let root = at;
        at += 1;
        let mut parent: HashMap<usize, usize> = HashMap::new();
        let mut outer = vec![root];
        let mut all = vec![root];
        let limit = if chain || r.chance(2, 3) { n - 1 } else { at + r.below(n - at + 1) };
        let joins = if chain { 0 } else { r.below(8) };
        while at + 2 <= limit {
            let o = if r.below(12) < 3 * deep { *outer.last().unwrap() } else { r.pick(&outer) };
            put(&mut e, o, at);
            put(&mut e, at, at + 1);
            m.push((at, at + 1));
            parent.insert(at, o);
            parent.insert(at + 1, at);
            outer.push(at + 1);
            all.extend([at, at + 1]);
            at += 2;
            if r.below(10) < joins {
                let x = *outer.last().unwrap();
                let y = if r.chance(1, 2) { r.pick(&outer) } else { // an outer node some way up
                    let mut y = x;
                    for _ in 0..2 * (1 + r.below(4)) { if let Some(p) = parent.get(&y) { y = *p } }
                    if outer.contains(&y) { y } else { root } };
                if x != y {
                    put(&mut e, x, y);
                    // what lies on the cycle can be reached by an even path now
                    let up = |mut z: usize| { let mut v = vec![z]; while let Some(p) = parent.get(&z) { z = *p; v.push(z) } v };
                    let (px, py) = (up(x), up(y));
                    let common: HashSet<usize> = px.iter().copied().filter(|z| py.contains(z)).collect();
                    for z in px.iter().chain(&py) { if !common.contains(z) && !outer.contains(z) { outer.push(*z) } }
                    if r.chance(1, 2) { let k = outer.len() - 1; let j = r.below(k + 1); outer.swap(j, k) }
                }
            }
            if at >= limit { break }
        }
        if at < n && (chain || r.chance(5, 6)) { // the way out
            let o = if chain { *outer.last().unwrap() } else if r.chance(2, 3) { r.pick(&outer) } else { r.pick(&all) };
            put(&mut e, o, at);
            if chain || r.chance(1, 2) { at += 1 }
        }
    }
    for _ in 0..[0, 0, 1, 3][r.below(4)] { let (a, b) = (r.below(n), r.below(n)); put(&mut e, a, b) }
    (n, e.into_iter().collect(), m)
}

/// number of graphs the exhaustive part goes through
pub const SMALL: usize = 2 + 8 + 64 + 1024 + 1024;
/// the i-th small graph: n and its edges (loops for n <= 4, simple graphs on 5 nodes)
pub fn small(i: usize) -> (usize, Vec<(usize, usize)>) {
    let (n, code, loops) = if i < 2 { (1, i, true) } else if i < 10 { (2, i - 2, true) } else if i < 74 { (3, i - 10, true) } else if i < 1098 { (4, i - 74, true) } else { (5, i - 1098, false) };
    let mut e = vec![];
    let mut bit = 0;
    for a in 0..n { for b in a..n { if a == b && !loops { continue } if code >> bit & 1 == 1 { e.push((a, b)) } bit += 1; } }
    (n, e)
}

/// fills nodes, edges, impl of a graph case; i: index within the exhaustive part if below SMALL
pub fn graph(r: &mut Rng, c: &mut Case, i: usize) -> Vec<usize> {
    let (n, e) = if i < SMALL { small(i) } else { let n = size(r).min(if c.prop == "M05" || c.prop == "M06" { 90 } else { 640 }); (n, shape(r, n, true)) };
    graph_of(r, c, i, n, e)
}
pub fn graph_of(r: &mut Rng, c: &mut Case, i: usize, n: usize, mut e: Vec<(usize, usize)>) -> Vec<usize> {
    let id = if i < SMALL && r.chance(1, 2) { (0..n).collect() } else { ids(r, n) };
    let mode = r.below(4);
    if mode != 0 { r.shuffle(&mut e) }
    let e: Vec<(usize, usize)> = e.into_iter().map(|(a, b)| if mode > 1 && r.chance(1, 2) { (id[b], id[a]) } else { (id[a], id[b]) }).collect();
    let mut nodes = id.clone();
    if r.chance(1, 4) { r.shuffle(&mut nodes) }
    c.set("nodes", nodes);
    c.set_pairs("edges", &e);
    let im = if r.chance(1, 4) { 1 } else { 0 };
    c.set("impl", vec![im, if im == 1 { r.next() as usize % 1000 } else { 0 }]);
    id
}

/// a random matching of the edges given, as a start pairing
pub fn start(r: &mut Rng, edges: &[(usize, usize)]) -> Vec<(usize, usize)> {
    let mut e: Vec<_> = edges.iter().copied().filter(|e| e.0 != e.1).collect();
    r.shuffle(&mut e);
    let k = r.below(4);
    let mut used = HashSet::new();
    let mut m = vec![];
    if k == 0 { return m }
    for (a, b) in e {
        if !used.contains(&a) && !used.contains(&b) && (k == 1 || r.chance(k, 4)) {
            used.insert(a); used.insert(b);
            m.push(if r.chance(1, 2) { (a, b) } else { (b, a) });
        }
    }
    m
}
