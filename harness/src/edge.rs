//! Inputs whose depth, degree, length or number of pieces lies at a given size: the integers the source mentions, or a few
//! powers of two where it mentions none. Enumerated, not drawn.
use crate::case::*;
use crate::gen;
use crate::props::{rows_of, set_rows};

type E = Vec<(usize, usize)>;
/// nodes 0..n in order, edges in order, a matching to start from, nodes worth starting a traversal at
struct Shape { n: usize, e: E, m: E, roots: Vec<usize>, order: Vec<usize> }

const FAMILIES: usize = 27;
const FAR: usize = 140_000;
fn family(k: usize, s: usize) -> Shape {
    let (mut n, mut e, mut m, mut roots): (usize, E, E, Vec<usize>) = (s, vec![], vec![], vec![]);
    let mut order = vec![];
    let path = |at: usize, len: usize| -> E { (1..len).map(|i| (at + i - 1, at + i)).collect() };
    match k {
        0 => { e = path(0, s); roots = vec![s / 2]; } // path
        1 => { n = s + 1; for i in 1..n { e.push((0, i)) } m = vec![(0, s)]; } // star
        2 => { n = s + 1; for i in 0..s { e.push((s, i)) } m = vec![(0, s)]; roots = vec![0]; } // star, hub last
        3 => { n = 2 * s; for i in 0..s { e.push((2 * i, 2 * i + 1)) } } // single edges
        4 => { e = path(0, s); if s > 2 { e.push((s - 1, 0)) } } // cycle
        5 => { n = s + 2; e = vec![(s, s + 1)]; roots = vec![s]; } // isolated nodes, then an edge
        6 => { n = 2 * s + 1; for i in 0..s { e.push((0, 2 * i + 1)); e.push((2 * i + 1, 2 * i + 2)); m.push((2 * i + 1, 2 * i + 2)) } } // legs of two, all matched
        7 => { n = 2 * s + 2; for i in 0..s { e.push((0, 2 * i + 1)); e.push((2 * i + 1, 2 * i + 2)); m.push((2 * i + 1, 2 * i + 2)) } e.push((2 * s, 2 * s + 1)); } // one of them leads on
        8 => { n = s / 2 * 2 + 2; e = path(0, n); for i in 1..n - 1 { if i % 2 == 1 { m.push((i, i + 1)) } } } // alternating path between free ends
        9 => { n = 3 * s; for i in 0..s { e.extend([(3 * i, 3 * i + 1), (3 * i + 1, 3 * i + 2), (3 * i + 2, 3 * i)]) } } // triangles
        10 => { // two pieces, nodes interleaved, the small one first
            n = s + s / 2 + 1;
            let small: Vec<usize> = (0..n).filter(|i| i % 3 == 0).collect();
            let large: Vec<usize> = (0..n).filter(|i| i % 3 != 0).collect();
            for v in [&large, &small] { for w in v.windows(2) { e.push((w[0], w[1])) } }
            roots = vec![1];
        }
        11 => { // two pieces, the first one's root before the large one, the rest of it after
            n = s + 2;
            e = path(1, s);
            e.push((0, s + 1));
            roots = vec![1, s + 1];
        }
        12 => { n = s + 2; for i in 2..n { e.push((0, i)); e.push((1, i)) } m = vec![(0, n - 1), (1, n - 2)]; } // two hubs
        13 => { n = s.min(64); for i in 0..n { for j in i + 1..n { e.push((i, j)) } } if s > 64 { n = 0 } } // clique
        14 => { // triangles hung one on the other, the way out at the far end
            n = 2 * s + 2;
            for i in 0..s { let y = 2 * i; e.extend([(y, y + 1), (y + 1, y + 2), (y, y + 2)]); m.push((y + 1, y + 2)) }
            e.push((2 * s - 1, n - 1));
        }
        15 => { // blossoms within blossoms around the root
            n = 2 * s + 2;
            for i in 0..s { let y = 2 * i; e.extend([(y, y + 1), (y + 1, y + 2), (y + 2, 0)]); m.push((y + 1, y + 2)) }
            e.push((2 * s - 1, n - 1));
        }
        16 => { // one odd cycle, the way out at its far side
            let c = s | 1;
            n = c + 1;
            e = path(0, c);
            e.push((c - 1, 0));
            for i in 0..c / 2 { m.push((2 * i + 1, 2 * i + 2)) }
            e.push((c / 2 | 1, c));
        }
        17 => { // a stem, an odd cycle, a way out
            let st = s / 2 * 2;
            n = st + 5 + 1;
            e = path(0, st + 5);
            e.push((st + 4, st));
            for i in 0..st / 2 { m.push((2 * i + 1, 2 * i + 2)) }
            m.push((st + 1, st + 2));
            m.push((st + 3, st + 4));
            e.push((st + 1, n - 1));
        }
        18 => { n = 2 * s; for i in 0..s { e.push((2 * i, 2 * i + 1)); if i > 0 { e.extend([(2 * i - 2, 2 * i), (2 * i - 1, 2 * i + 1)]) } } } // ladder
        19 => for i in 1..s { e.push(((i - 1) / 2, i)) }, // binary tree
        20 => { n = 2 * s; for i in 0..s { if i > 0 { e.push((i - 1, i)) } e.push((i, s + i)) } } // caterpillar
        21 => { n = s + 3; for i in 0..n { e.push((i, (i + 1) % n)); if i % 7 == 3 { e.push((i, i)) } } } // cycle with loops
        22 => { n = 4 * s; for i in 0..s { let y = 4 * i; e.extend([(y, y + 1), (y + 1, y + 2), (y + 2, y + 3)]); m.push((y + 1, y + 2)) } } // paths of four, each to be augmented
        23 => { // a tree of matched pairs two deep, leading on at the last
            let w = s.max(2);
            n = 2 * w + 2 + 1;
            for i in 0..w { let p = if i == 0 { 0 } else { 2 * ((i - 1) / 2 + 1) }; e.extend([(p, 2 * i + 1), (2 * i + 1, 2 * i + 2)]); m.push((2 * i + 1, 2 * i + 2)) }
            e.push((2 * w, n - 2));
        }
        24 => { n = s; for i in 1..s { e.push((i - 1, i)) } for i in 2..s { e.push((i - 2, i)) } } // squared path
        25 => { // a hub with triangles, all matched inside
            n = 2 * s + 1;
            for i in 0..s { e.extend([(0, 2 * i + 1), (2 * i + 1, 2 * i + 2), (2 * i + 2, 0)]); m.push((2 * i + 1, 2 * i + 2)) }
        }
        _ => { // pieces of each other's nodes in reverse: many small, then a large one
            n = 2 * s;
            e = path(0, s);
            for i in (s..2 * s - 1).step_by(2) { e.push((i, i + 1)) }
            for i in 0..s { order.push(s + i); order.push(i) }
            roots = vec![s];
        }
    }
    roots.extend([0, n.saturating_sub(1)]);
    if order.is_empty() { order = (0..n).collect() }
    Shape { n, e, m, roots, order }
}

/// sizes to try, in order
fn sizes() -> Vec<usize> {
    let l: Vec<usize> = gen::literals().into_iter().filter(|x| *x >= 2 && *x <= 6000).collect();
    if l.is_empty() && !gen::literals().iter().any(|x| *x > 6000 && *x <= FAR) { return vec![17, 65, 33, 129, 257] }
    let mut v = vec![];
    // beyond that only just past it, and only shapes that cost little
    let far: Vec<usize> = gen::literals().into_iter().filter(|x| *x > 6000 && *x <= FAR).map(|x| x + 1).collect();
    for f in 0..8usize { for &x in &l { v.push([x + 1, 2 * x + 2, x, x - 1, x + 2, 2 * x, 2 * x + 1, x / 2 + 1][f]) } }
    let at = v.len().min(2 * l.len());
    v.splice(at..at, far);
    let mut seen = std::collections::HashSet::new();
    v.retain(|x| *x >= 2 && seen.insert(*x));
    v
}

/// the k-th case of property p; None: there are no more; Some(None): not for this property
pub fn case(p: &str, k: usize, r: &mut Rng) -> Option<Option<Case>> {
    let sz = sizes();
    let (f, rest) = (k % FAMILIES, k / FAMILIES);
    let (s, v) = (*sz.get(rest % sz.len())?, rest / sz.len());
    if v >= 8 { return None }
    let cap = match p { "M05" | "M06" => if matches!(f, 9 | 14 | 15 | 24 | 25) { 250 } else if matches!(f, 6..=8 | 16 | 17 | 23) { 4500 } else { 500 }, "M01" | "M02" => 3000, "T01" | "T02" | "T03" | "T04" | "T05" => 7000, _ => 6000 };
    if matches!(p, "T02" | "T04") && f == 13 && s > 40 { return Some(None) }
    let mut c = Case::new(p);
    if p == "M01" || p == "M02" { if f >= 8 || 2 * s > cap.max(if f < 5 { 3 * FAR } else { 0 }) { return Some(None) } pairs(&mut c, f, s, v); return Some(Some(c)) }
    let small = p == "M05" || p == "M06";
    if s > 6001 && (small || !matches!(f, 0 | 3 | 4 | 5 | 10 | 11 | 26) && !(matches!(f, 1 | 2) && s < 40_000)) { return Some(None) }
    let cap = if s > 6001 { 3 * FAR } else { cap };
    let sh = family(f, s);
    if sh.n == 0 || sh.n > cap { return Some(None) }
    let n = sh.n;
    // names and orders: as they are, reversed, moved
    let rows = p == "G03" || p.starts_with('G') && p != "G04" && p != "G05" && v % 4 == 3;
    let base = if v >= 4 && !rows { [usize::MAX - n, 1 << 32, 7][v % 3] } else { 0 };
    let id: Vec<usize> = (0..n).map(|i| base + if v % 2 == 1 { n - 1 - i } else { i }).collect();
    let mut nodes: Vec<usize> = sh.order.iter().map(|i| id[*i]).collect();
    let mut e: E = sh.e.iter().map(|x| (id[x.0], id[x.1])).collect();
    if v % 4 >= 2 { e.reverse(); for x in e.iter_mut() { *x = (x.1, x.0) } }
    if v == 3 || v == 6 { nodes.reverse() }
    let first = e.first().copied();
    let last = e.last().copied();
    let hub = { let mut d = vec![0; n]; for x in &sh.e { d[x.0] += 1; d[x.1] += 1 } (0..n).max_by_key(|i| d[*i]).unwrap() };
    match p {
        "G01" | "G02" | "G06" => {
            let mut ops = vec![];
            match v % 4 {
                3 => set_rows(&mut c, &{ let mut w = rows_of(n, &e); if v > 4 { w.iter_mut().for_each(|w| w.reverse()) } w }),
                2 => { let ends: std::collections::HashSet<usize> = e.iter().flat_map(|e| [e.0, e.1]).collect(); for x in &nodes { if !ends.contains(x) { ops.extend([0, *x, 0]) } } c.set_pairs("pairs", &e); }
                1 => { // ends added as they come
                    let mut have = std::collections::HashSet::new();
                    for x in &e { for y in [x.0, x.1] { if have.insert(y) { ops.extend([0, y, 0]) } } ops.extend([1, x.0, x.1]) }
                }
                _ => { for x in &nodes { ops.extend([0, *x, 0]) } for x in &e { ops.extend([1, x.0, x.1]) } }
            }
            let far = id[n - 1].wrapping_add(n + 3);
            if let (Some(a), Some(b)) = (first, last) { ops.extend([1, a.0, a.1, 1, a.1, a.0, 1, b.0, b.1, 1, b.1, b.0, 1, a.0, b.1, 1, a.0, b.1]) }
            let (x, y) = (id[hub], id[n - 1]);
            ops.extend([1, x, x, 1, x, x, 1, y, y, 1, y, y, 1, y, far, 1, far, x, 0, x, 0, 0, y, 0, 0, far, 0, 1, far, x, 1, x, far, 0, far, 0]);
            c.set("ops", ops);
        }
        "G03" => {
            let mut w = rows_of(n, &e);
            if w[hub].is_empty() && v > 0 { return Some(None) }
            let end = w[hub].len();
            match v {
                1 => { let x = w[hub][0]; w[hub].push(x) }
                2 => { let x = w[hub][end - 1]; w[hub].push(x) }
                3 => { let x = w[hub].pop().unwrap(); if !w[x].contains(&hub) { w[x].push(hub) } }
                4 => w[hub].push(n),
                5 => { w[n - 1].push(n - 1) }
                6 => { let x = w[hub][end - 1]; w[x].retain(|y| *y != hub) }
                7 => { let x = w[hub][end - 1]; w[hub].insert(end / 2, x) }
                _ => {}
            }
            set_rows(&mut c, &w);
        }
        "G04" => {
            if let (Some(a), Some(b)) = (first, last) { match v { 1 => e.push(a), 2 => e.push((a.1, a.0)), 3 => e.push(b), 4 => e.push((b.1, b.0)), 5 => { let k = e.len() / 2; e.insert(k, b) } 6 => e.push((a.0, a.0)), _ => {} } }
            c.set_pairs("pairs", &e);
        }
        "G05" => {
            let (mut n2, mut e2) = (nodes.clone(), e.clone());
            let switch = |e2: &mut E, i: usize, j: usize| -> bool {
                let ((a, b), (x, y)) = (e2[i], e2[j]);
                let used = |e2: &E, p: usize, q: usize| e2.iter().any(|e| *e == (p, q) || *e == (q, p));
                if [a, b].contains(&x) || [a, b].contains(&y) || a == b || x == y || used(e2, a, y) || used(e2, x, b) { return false }
                e2[i] = (a, y);
                e2[j] = (x, b);
                true
            };
            let l = e2.len();
            match v {
                0 => { for j in (1..l).rev() { if switch(&mut e2, 0, j) { break } } }
                1 => { e2.reverse(); n2.reverse() }
                2 => { for i in (0..l).rev() { let mut done = false; for j in (0..i).rev() { if switch(&mut e2, i, j) { done = true; break } } if done || i + 3 < l { break } } }
                3 => { e2.pop(); }
                4 => { let x = n2.pop().unwrap(); n2.push(if x == 0 { n + 5 } else { x - n.min(x) }); if n2[..n2.len() - 1].contains(n2.last().unwrap()) { return Some(None) } e2.retain(|e| e.0 != x && e.1 != x) }
                5 => { let (a, b) = (id[hub], id[n - 1]); let g = |x: usize| if x == a { b } else if x == b { a } else { x }; for e in e2.iter_mut() { *e = (g(e.0), g(e.1)) } }
                6 => { if l > 2 { e2.rotate_left(l / 2) } n2.rotate_left(n / 2); for e in e2.iter_mut() { *e = (e.1, e.0) } }
                _ => { e2.pop(); let (a, b) = (id[0], id[n - 1]); if !e2.iter().any(|e| *e == (a, b) || *e == (b, a)) { e2.push((a, b)) } }
            }
            c.set("nodes", nodes.clone());
            c.set_pairs("edges", &e);
            c.set("impl", vec![0]);
            c.set("nodes2", n2);
            c.set_pairs("edges2", &e2);
        }
        _ => {
            c.set("nodes", nodes);
            c.set_pairs("edges", &e);
            c.set("impl", if v == 7 { vec![1, r.next() as usize % 1000] } else { vec![0, 0] });
            match p {
                "T01" | "T02" | "T03" | "T04" | "T05" => { c.set("root", vec![id[sh.roots[v % sh.roots.len()]]]); }
                "M05" | "M06" => {
                    let mut m: E = sh.m.iter().map(|x| (id[x.0], id[x.1])).collect();
                    if v % 4 >= 2 { m.reverse(); for x in m.iter_mut() { *x = (x.1, x.0) } }
                    match (v, m.is_empty()) {
                        (1, _) | (2, true) => { c.set("greedy", vec![1]); }
                        (5, false) => { c.set_pairs("start", &m[1..]); }
                        _ => { c.set_pairs("start", &m); }
                    }
                }
                _ => {}
            }
        }
    }
    Some(Some(c))
}

fn pairs(c: &mut Case, f: usize, s: usize, v: usize) {
    let b = [0, 5, 1 << 33, usize::MAX - 3 * s - 9][v % 4];
    let mut ops = vec![];
    for i in 0..s { if v % 2 == 0 { ops.extend([b + 2 * i, b + 2 * i + 1]) } else { ops.extend([b + 2 * i + 1, b + 2 * i]) } }
    let (z, fresh) = (b + 2 * s, b + 2 * s + 1);
    if c.prop == "M01" {
        match f {
            1 => ops.extend([b, b + 2]),
            2 => ops.extend([z - 1, b]),
            3 => ops.extend([z - 1, fresh]),
            4 => ops.extend([b + s, fresh, b + s, z]),
            5 => ops = (1..=s).flat_map(|i| [b, b + i]).collect(),
            6 => ops = (1..=s).flat_map(|i| [b + i - 1, b + i]).collect(),
            7 => ops.extend([z - 1, z - 2, z - 2, z - 1, b, b + 1]),
            _ => {}
        }
        c.set("ask", vec![b, b + 1, b + 2, b + s, z - 2, z - 1, z, fresh]);
        c.set("ops", ops);
    } else {
        let path = match f {
            0 => { ops.clear(); (0..2 * s).map(|i| b + i).collect() }
            1 => (0..2 * s).map(|i| b + i).collect(),
            2 => std::iter::once(z).chain((0..2 * s).map(|i| b + i)).chain(std::iter::once(fresh)).collect(),
            3 => { ops.truncate(ops.len() / 4 * 2); (0..2 * s).rev().map(|i| b + i).collect() }
            4 => vec![z, z - 1],
            5 => vec![z, z - 1, b, fresh],
            6 => (0..s / 2 * 2).map(|i| b + 2 * i).collect(),
            _ => vec![b + 1, b + 2, z, fresh],
        };
        c.set("ops", ops);
        c.set("path", path);
    }
}
