//! One executable reading of each property, and the generator of its cases.
use crate::case::*;
use crate::gen;
use crate::graphs::*;
use crate::oracle;
use gamma::graph::*;
use gamma::matching::*;
use gamma::selection::components;
use gamma::traversal::*;
use std::collections::*;
use std::convert::TryFrom;

pub enum Out { Pass, Skip, Fail(String) }
use Out::*;
macro_rules! need { ($c:expr, $($a:tt)*) => { if !$c { return Fail(format!($($a)*)) } } }
macro_rules! ok { ($e:expr) => { match $e { Ok(x) => x, Err(m) => return Fail(m) } } }
macro_rules! some { ($e:expr) => { match $e { Some(x) => x, None => return Skip } } }

pub const ALL: &[&str] = &["G01", "G02", "G03", "G04", "G05", "G06", "T01", "T02", "T03", "T04", "T05", "S01", "S02", "M01", "M02", "M03", "M04", "M05", "M06"];

pub fn rule(p: &str) -> &'static str {
    match p {
        "G01" | "G02" | "G06" => "a start (empty, edge list or adjacency list) and up to 60 add_node/add_edge calls, half of them on ids in use, checked after every call (a quarter of the processes: up to 1700 calls on up to 420 ids, checked after some); non-trivial: at least one edge was added and at least one call was rejected or a loop added",
        "G03" => "adjacency lists of graphs with up to 8 rows (a quarter of the processes: up to 420) (all graphs on up to 4 nodes), with up to 3 entries added, removed or changed; non-trivial: at least two entries",
        "G04" => "edge lists of generated graphs, with up to 2 pairs repeated (possibly reversed); non-trivial: at least two pairs",
        "G05" => "two graphs by different routes: the same graph with orders and orientations changed, or one edge or node changed; non-trivial: at least one edge",
        "M01" => "up to 40 pair calls on up to 12 ids, checked after every call (a quarter of the processes: up to 640 ids); non-trivial: some call frees a former mate",
        "M02" => "a pairing and an even path over its ids, repeated nodes in a quarter of cases; non-trivial: path of at least 4 nodes meeting a matched node",
        "M05" | "M06" => "every graph on up to 4 nodes (loops allowed) and every simple graph on 5 nodes, then random graphs (cycles, trees, cliques, bipartite, joined odd cycles, grids) of up to 150 nodes (a quarter of the processes: up to 640), ids permuted, sparse or extreme; empty, greedy or random start matching, a third grown as alternating trees with blossoms and a long way to go; non-trivial: at least 3 edges and an augmentation is needed",
        _ => "every graph on up to 4 nodes (loops allowed) and every simple graph on 5 nodes, then random graphs (cycles, trees, cliques, bipartite, joined odd cycles, grids) of up to 150 nodes (a quarter of the processes: up to 640), ids permuted, sparse or extreme, orders shuffled, a quarter as a Graph implementation with its own orders; non-trivial: at least 3 edges in the part traversed",
    }
}

pub fn gen_case(p: &str, i: usize, r: &mut Rng) -> Case {
    let mut c = Case::new(p);
    match p {
        "G01" | "G02" | "G06" => {
            let big = gen::big();
            let n = gen::size(r).min(if big { 420 } else { 20 }).max(2);
            let id = gen::ids(r, n);
            let mut used: Vec<usize> = vec![];
            match r.below(5) {
                0 => { let e: Vec<_> = { let mut e = gen::shape(r, n, true); r.shuffle(&mut e); e.truncate(if big { 600 } else { 30 }); e }.iter().map(|e| (id[e.0], id[e.1])).collect(); used.extend(e.iter().flat_map(|e| [e.0, e.1])); c.set_pairs("pairs", &e); }
                1 => { let k = if big { n } else { 1 + r.below(8) }; let e = gen::shape(r, k, true); set_rows(&mut c, &rows_of(k, &e)); used.extend(0..k); }
                _ => if big && r.chance(1, 2) { used.extend(&id) }
            }
            let mut ops = vec![];
            if big && c.get("lens").is_empty() && c.get("pairs").is_empty() && !used.is_empty() { for &x in &used { ops.extend([0, x, 0]) } }
            let hub = if big && !used.is_empty() && r.chance(1, 2) { Some(r.pick(&used)) } else { None };
            let mut joined: Vec<(usize, usize)> = c.pairs("pairs");
            for _ in 0..(if big { r.below(4 * n) } else { r.below(60) }) {
                if used.len() < 2 || r.chance(1, if big { 12 } else { 4 }) { let x = r.pick(&id); used.push(x); ops.extend([0, x, 0]) }
                else if big && !joined.is_empty() && r.chance(1, 6) { // once more
                    let (a, b) = if r.chance(1, 2) { joined[r.below(joined.len().min(8))] } else { r.pick(&joined) };
                    if r.chance(1, 2) { ops.extend([1, a, b]) } else { ops.extend([1, b, a]) }
                } else {
                    let a = if hub.is_some() && r.chance(3, 4) { hub.unwrap() } else if r.chance(1, 12) { r.pick(&id) } else { r.pick(&used) };
                    let b = if r.chance(1, 12) { r.pick(&id) } else { r.pick(&used) };
                    joined.push((a, b));
                    if r.chance(1, 4) { ops.extend([1, b, a]) } else { ops.extend([1, a, b]) }
                }
            }
            c.set("ops", ops);
        }
        "G03" => {
            let (n, e) = if i < 1098 { gen::small(i) } else { let n = if gen::big() { gen::size(r).min(420) } else { 1 + r.below(8) }; (n, gen::shape(r, n, true)) };
            let mut rows = rows_of(n, &e);
            for row in rows.iter_mut() { if i % 2 == 1 || i >= 1098 { r.shuffle(row) } }
            if i >= 1098 { for _ in 0..r.below(4) {
                let k = if gen::big() && r.chance(1, 2) { (0..n).max_by_key(|i| rows[*i].len()).unwrap() } else { r.below(n) };
                match r.below(if gen::big() { 5 } else { 4 }) {
                    4 => if !rows[k].is_empty() { let x = r.pick(&rows[k]); let at = r.below(rows[k].len() + 1); rows[k].insert(at, x) }
                    0 => { let x = if r.chance(1, 6) { r.pick(&gen::special()) } else { r.below(n + 1) }; let at = r.below(rows[k].len() + 1); rows[k].insert(at, x) }
                    1 => if !rows[k].is_empty() { let at = r.below(rows[k].len()); rows[k].remove(at); }
                    2 => if !rows[k].is_empty() { let at = r.below(rows[k].len()); rows[k][at] = r.below(n + 1) }
                    _ => if rows.len() > 1 && r.chance(1, 3) { rows.pop(); if rows.is_empty() { break } }
                }
                if k >= rows.len() { break }
                if rows.len() < n { break }
            } }
            set_rows(&mut c, &rows);
        }
        "G04" => {
            let mut g = Case::new(p);
            gen::graph(r, &mut g, i);
            let mut e = g.pairs("edges");
            if i >= gen::SMALL && !e.is_empty() { for _ in 0..r.below(3) { let x = r.pick(&e); let at = r.below(e.len() + 1); e.insert(at, if r.chance(1, 2) { x } else { (x.1, x.0) }) } }
            c.set_pairs("pairs", &e);
        }
        "G05" => {
            gen::graph(r, &mut c, i);
            c.set("impl", vec![0]);
            let mut n2 = c.get("nodes").to_vec();
            let mut e2: Vec<_> = c.pairs("edges").into_iter().map(|e| if r.chance(1, 2) { (e.1, e.0) } else { e }).collect();
            let kind = r.below(9);
            if r.chance(1, 2) { r.shuffle(&mut n2); r.shuffle(&mut e2) } // otherwise every place but the one changed looks the same
            match kind {
                6 => if e2.len() > 1 { // same degrees, other edges
                    let (i, j) = (r.below(e2.len()), r.below(e2.len()));
                    let ((a, b), (x, y)) = (e2[i], e2[j]);
                    if i != j && ![a, b].contains(&x) && ![a, b].contains(&y) && a != b && x != y && !e2.iter().any(|e| norm(*e) == norm((a, x)) || norm(*e) == norm((b, y))) { e2[i] = (a, x); e2[j] = (b, y) } }
                7 => { // two nodes trade places
                    let (a, b) = (r.pick(&n2), r.pick(&n2));
                    let f = |x: usize| if x == a { b } else if x == b { a } else { x };
                    for e in e2.iter_mut() { *e = (f(e.0), f(e.1)) } }
                0 => { let k = r.below(e2.len().max(1)); if k < e2.len() { e2.remove(k); } }
                1 => if n2.len() > 1 { let (a, b) = (r.pick(&n2), r.pick(&n2)); e2.pop(); if !e2.iter().any(|e| norm(*e) == norm((a, b))) { e2.push((a, b)) } }
                2 => { let x = r.next() as usize; n2.push(x) }
                3 => if n2.len() > 1 { // move an edge
                    let (a, b) = (r.pick(&n2), r.pick(&n2));
                    if !e2.iter().any(|e| norm(*e) == norm((a, b))) { e2.push((a, b)) } }
                4 => { // another isolated node
                    let lone: Vec<usize> = n2.iter().copied().filter(|n| !e2.iter().any(|e| e.0 == *n || e.1 == *n)).collect();
                    if !lone.is_empty() { let x = r.pick(&lone); n2.retain(|n| *n != x); n2.push(x.wrapping_add(1)) } }
                _ => {}
            }
            c.set("nodes2", n2);
            c.set_pairs("edges2", &e2);
        }
        "M01" | "M02" => {
            let n = if gen::big() { gen::size(r) } else { 2 + r.below(11) };
            let id = gen::ids(r, n);
            let mut ops = vec![];
            for _ in 0..(if gen::big() { r.below(2 * n) } else if p == "M01" { r.below(40) } else { r.below(8) }) { let (a, b) = (r.pick(&id), r.pick(&id)); if a != b { ops.extend([a, b]) } }
            c.set("ops", ops);
            if p == "M02" {
                let mut path = vec![];
                if r.chance(1, 4) { for _ in 0..r.below(if gen::big() { n } else { 8 }) { let (a, b) = (r.pick(&id), r.pick(&id)); if a != b { path.extend([a, b]) } } }
                else { let mut v = id.clone(); r.shuffle(&mut v); let k = 2 * r.below(n / 2 + 1); path = v[..k].to_vec() }
                c.set("path", path);
            } else { c.set("ask", id); }
        }
        "M05" | "M06" if i >= gen::SMALL && r.chance(1, 3) => {
            let chain = r.chance(1, 6);
            let n = if gen::big() { let k = gen::size(r); if chain { k * (1 + r.below(4)) } else { k.min(160) } } else { { let k = if r.chance(1, 8) { 30 } else { 13 }; 4 + r.below(k) } };
            let (n, e, m) = gen::flower(r, n, chain);
            let id = gen::graph_of(r, &mut c, i, n, e);
            let mut m: Vec<_> = m.into_iter().map(|(a, b)| if r.chance(1, 2) { (id[a], id[b]) } else { (id[b], id[a]) }).collect();
            if r.chance(1, 2) { r.shuffle(&mut m) }
            if r.chance(1, 6) && m.len() > 1 { m.pop(); }
            c.set_pairs("start", &m);
        }
        _ => {
            let id = gen::graph(r, &mut c, i);
            match p {
                "T01" | "T02" | "T03" | "T04" | "T05" => { let x = r.pick(&id); c.set("root", vec![x]); }
                "M05" | "M06" => { let s = gen::start(r, &c.pairs("edges")); let gr = r.chance(1, 4); if gr { c.set("greedy", vec![1]); } else { c.set_pairs("start", &s); } }
                _ => {}
            }
        }
    }
    c
}

pub fn rows_of(n: usize, e: &[(usize, usize)]) -> Vec<Vec<usize>> {
    let mut rows = vec![vec![]; n];
    for &(a, b) in e { rows[a].push(b); if a != b { rows[b].push(a) } }
    rows
}
pub fn set_rows(c: &mut Case, rows: &[Vec<usize>]) {
    c.set("lens", rows.iter().map(|r| r.len()).collect());
    c.set("rows", rows.concat());
}
fn get_rows(c: &Case) -> Option<Vec<Vec<usize>>> {
    let mut at = 0;
    let f = c.get("rows");
    let mut v = vec![];
    for &l in c.get("lens") { if at + l > f.len() { return None } v.push(f[at..at + l].to_vec()); at += l }
    Some(v)
}

pub fn nontrivial(c: &Case) -> bool {
    match &c.prop[..] {
        "G01" | "G02" | "G06" => {
            let ops: Vec<&[usize]> = c.get("ops").chunks(3).collect();
            let mut m = match start_of(c) { Some((_, m)) => m, None => return false };
            let (mut added, mut other) = (!m.edges.is_empty(), false);
            for o in ops { let r = if o[0] == 0 { m.add_node(o[1]) } else { m.add_edge(o[1], o[2]) }; if r.is_err() || o[0] == 1 && o[1] == o[2] { other = true } else if o[0] == 1 { added = true } }
            added && other
        }
        "G03" => c.get("rows").len() >= 2,
        "G04" => c.get("pairs").len() >= 4,
        "G05" => c.get("edges").len() >= 2,
        "M01" => { let mut m: HashMap<usize, usize> = HashMap::new(); for (a, b) in c.pairs("ops") { if m.get(&a).map_or(false, |x| *x != b) { return true } m.insert(a, b); m.insert(b, a); } false }
        "M02" => c.get("path").len() >= 4 && c.get("path").iter().any(|x| c.get("ops").contains(x)),
        "M05" | "M06" => c.pairs("edges").len() >= 3 && { let n = c.pairs("start").len(); c.get("greedy").is_empty() && model_of(c).map_or(false, |m| n < oracle::maximum(&m)) },
        "T01" | "T02" | "T03" | "T04" | "T05" => model_of(c).map_or(false, |m| m.has(c.one("root")) && m.component(c.one("root")).1.len() >= 3),
        _ => c.pairs("edges").len() >= 3,
    }
}

fn start_of(c: &Case) -> Option<(DefaultGraph, Model)> {
    if !c.get("lens").is_empty() {
        let rows = get_rows(c)?;
        let g = DefaultGraph::try_from(rows.clone()).ok()?;
        let mut m = Model::default();
        for (i, r) in rows.iter().enumerate() { m.nodes.push(i); m.nbr.insert(i, r.clone()); }
        for (i, r) in rows.iter().enumerate() { for &j in r { if i <= j { m.edges.push((i, j)) } } }
        Some((g, m))
    } else if !c.get("pairs").is_empty() {
        Some((DefaultGraph::try_from(c.pairs("pairs")).ok()?, Model::from_pairs(&c.pairs("pairs")).ok()?))
    } else { Some((DefaultGraph::new(), Model::default())) }
}

fn same_as(g: &DefaultGraph, m: &Model) -> Result<(), String> {
    let nodes: Vec<usize> = g.nodes().collect();
    if nodes != m.nodes { return Err(format!("nodes are {:?}, expected {:?}", nodes, m.nodes)) }
    let edges: Vec<_> = g.edges().collect();
    if edges != m.edges { return Err(format!("edges are {:?}, expected {:?}", edges, m.edges)) }
    if g.order() != m.nodes.len() || g.size() != m.edges.len() || g.is_empty() != m.nodes.is_empty() { return Err("order, size or is_empty is wrong".into()) }
    for &n in &m.nodes {
        let v: Vec<usize> = g.neighbors(n).map_err(|e| format!("neighbors({}) fails: {:?}", n, e))?.collect();
        if v != m.nbr[&n] { return Err(format!("neighbors of {} are {:?}, expected {:?}", n, v, m.nbr[&n])) }
        if g.degree(n) != Ok(v.len()) || !g.has_node(n) { return Err(format!("degree or has_node of {} is wrong", n)) }
    }
    Ok(())
}

pub fn run(c: &Case) -> Out {
    match &c.prop[..] {
        "G01" | "G02" | "G06" => history(c),
        "G03" => adjacency(c),
        "G04" => {
            let p = c.pairs("pairs");
            match (DefaultGraph::try_from(p.clone()), Model::from_pairs(&p)) {
                (Ok(g), Ok(m)) => { ok!(same_as(&g, &m)); ok!(read(&g)); Pass }
                (Err(a), Err(b)) => { need!(a == b, "the edge list is rejected with {:?}, expected {:?}", a, b); Pass }
                (Ok(_), Err(b)) => Fail(format!("the edge list is accepted, expected {:?}", b)),
                (Err(a), Ok(_)) => Fail(format!("a valid edge list is rejected: {:?}", a)),
            }
        }
        "G05" => {
            let a = some!(default_of(c));
            let mut d = Case::new("G05");
            d.set("nodes", c.get("nodes2").to_vec()).set("edges", c.get("edges2").to_vec());
            let b = some!(default_of(&d));
            let key = |c: &Case| (c.get("nodes").iter().copied().collect::<BTreeSet<_>>(), c.pairs("edges").into_iter().map(norm).collect::<BTreeSet<_>>());
            let w = key(c) == key(&d);
            need!((a == b) == w, "a == b is {}, the graphs are {}", a == b, if w { "the same" } else { "different" });
            need!((b == a) == w, "b == a is {}, the graphs are {}", b == a, if w { "the same" } else { "different" });
            need!(a == a && b == b, "a graph differs from itself");
            // by another route
            if c.pairs("edges").iter().flat_map(|e| [e.0, e.1]).collect::<BTreeSet<_>>() == key(c).0 {
                let e = DefaultGraph::try_from(c.pairs("edges")).unwrap();
                need!(e == a && a == e && (e == b) == w, "equality depends on the construction route");
            }
            if key(c).0.iter().copied().eq(0..c.get("nodes").len()) {
                let e = DefaultGraph::try_from(rows_of(c.get("nodes").len(), &c.pairs("edges"))).unwrap();
                need!(e == a && a == e && (e == b) == w && (b == e) == w, "equality depends on the construction route");
            }
            Pass
        }
        "M01" => {
            let mut p = Pairing::new();
            let mut m: BTreeMap<usize, usize> = BTreeMap::new();
            if let Err(e) = pairing_is(&p, &m, c.get("ask")) { return Fail(e) }
            for (k, (a, b)) in c.pairs("ops").into_iter().enumerate() {
                if a == b { return Skip }
                p.pair(a, b);
                pair_model(&mut m, a, b);
                if !now(k, c.get("ops").len() / 2, 60) { continue }
                if let Err(e) = pairing_is(&p, &m, c.get("ask")) { return Fail(format!("after pair call {}: {}", k, e)) }
            }
            Pass
        }
        "M02" => {
            let mut p = Pairing::new();
            let mut m: BTreeMap<usize, usize> = BTreeMap::new();
            for (a, b) in c.pairs("ops") { if a == b { return Skip } p.pair(a, b); pair_model(&mut m, a, b); }
            let path = c.get("path");
            if path.len() % 2 == 1 { return Skip }
            for (a, b) in c.pairs("path") { if a == b { return Skip } pair_model(&mut m, a, b); }
            p.augment(path.to_vec());
            ok!(pairing_is(&p, &m, c.get("ops")));
            Pass
        }
        _ => {
            let m = some!(model_of(c));
            if !c.get("impl").is_empty() && c.get("impl")[0] == 1 { let g = Own::new(m, c.get("impl").get(1).copied().unwrap_or(0)); on_graph(c, &g) }
            else { let g = match default_of(c) { Some(g) => g, None => return Skip }; on_graph(c, &g) }
        }
    }
}

fn pair_model(m: &mut BTreeMap<usize, usize>, a: usize, b: usize) {
    for x in [a, b] { if let Some(y) = m.remove(&x) { m.remove(&y); } }
    m.insert(a, b);
    m.insert(b, a);
}
fn pairing_is(p: &Pairing, m: &BTreeMap<usize, usize>, ask: &[usize]) -> Result<(), String> {
    if p.order() != m.len() { return Err(format!("order is {}, expected {}", p.order(), m.len())) }
    for (&a, &b) in m {
        if !p.has_node(a) { return Err(format!("{} is not matched, expected mate {}", a, b)) }
        if p.mate(a) != b { return Err(format!("mate({}) is {}, expected {}", a, p.mate(a), b)) }
    }
    for &a in ask { if p.has_node(a) != m.contains_key(&a) { return Err(format!("has_node({}) is {}", a, p.has_node(a))) } }
    let mut e: Vec<_> = p.edges().collect();
    e.sort();
    let w: Vec<_> = m.iter().filter(|(a, b)| a < b).map(|(a, b)| (*a, *b)).collect();
    if e != w { return Err(format!("edges are {:?}, expected {:?}", e, w)) }
    Ok(())
}

fn history(c: &Case) -> Out {
    let (mut g, mut m) = some!(start_of(c));
    let mut ask: BTreeSet<usize> = c.get("ops").chunks(3).flat_map(|o| [o[1], o[2], o[1].wrapping_add(1)]).collect();
    ask.extend([0, 1, usize::MAX, m.nodes.len()]);
    let mut ask: Vec<usize> = ask.into_iter().collect();
    while ask.len() > 60 { let mut k = 0; ask.retain(|_| { k += 1; k % 2 == 1 }) }
    let check = |g: &DefaultGraph, m: &Model| -> Result<(), String> {
        match &c.prop[..] {
            "G01" => read(g).map(|_| ()),
            "G02" => same_as(g, m),
            _ => absent(g, m, &ask),
        }
    };
    if let Err(e) = check(&g, &m) { return Fail(format!("at the start: {}", e)) }
    for (k, o) in c.get("ops").chunks(3).enumerate() {
        if o.len() < 3 { return Skip }
        let (r, w) = if o[0] == 0 { (g.add_node(o[1]), m.add_node(o[1])) } else { (g.add_edge(o[1], o[2]), m.add_edge(o[1], o[2])) };
        if c.prop == "G02" { need!(r == w, "call {} returns {:?}, expected {:?}", k, r, w); }
        else if r.is_ok() != w.is_ok() { m = match read(&g) { Ok(m) => m, Err(e) => { if c.prop == "G01" { return Fail(format!("after call {}: {}", k, e)) } return Skip } } }
        if !now(k, c.get("ops").len() / 3, 64) { continue }
        if let Err(e) = check(&g, &m) { return Fail(format!("after call {}: {}", k, e)) }
    }
    Pass
}
/// whether to look after call k of n: always in short histories, a few times in long ones
fn now(k: usize, n: usize, short: usize) -> bool { n <= short || k + 1 == n || k % (n / 8 + 1) == 0 }
fn absent(g: &DefaultGraph, m: &Model, ask: &[usize]) -> Result<(), String> {
    for &a in ask {
        if m.has(a) { continue }
        if g.has_node(a) { return Err(format!("has_node({}) is true", a)) }
        let miss = Error::MissingNode(a);
        if g.neighbors(a).err() != Some(Error::MissingNode(a)) { return Err(format!("neighbors({}) is not MissingNode", a)) }
        if g.degree(a) != Err(Error::MissingNode(a)) { return Err(format!("degree({}) is {:?}", a, g.degree(a))) }
        if DepthFirst::new(g, a).err() != Some(Error::MissingNode(a)) { return Err(format!("a depth-first traversal from {} is not MissingNode", a)) }
        if BreadthFirst::new(g, a).err() != Some(Error::MissingNode(a)) { return Err(format!("a breadth-first traversal from {} is not MissingNode", a)) }
        if g.has_edge(a, a) != Err(miss) { return Err(format!("has_edge({0}, {0}) is {1:?}", a, g.has_edge(a, a))) }
        for &b in ask.iter().chain(&m.nodes) {
            let r = g.has_edge(a, b);
            if r != Err(Error::MissingNode(a)) { return Err(format!("has_edge({}, {}) is {:?}", a, b, r)) }
            if m.has(b) { let r = g.has_edge(b, a); if r != Err(Error::MissingNode(a)) { return Err(format!("has_edge({}, {}) is {:?}", b, a, r)) } }
        }
    }
    Ok(())
}

fn adjacency(c: &Case) -> Out {
    let rows = some!(get_rows(c));
    let n = rows.len();
    let bad_node = |i: usize, j: usize| rows[i][j] >= n;
    let repeated = |i: usize, j: usize| rows[i].iter().filter(|x| **x == rows[i][j]).count() > 1;
    let one_way = |i: usize, j: usize| rows[i][j] < n && !rows[rows[i][j]].contains(&i);
    let mut valid = true;
    for i in 0..n { for j in 0..rows[i].len() { if bad_node(i, j) || repeated(i, j) || one_way(i, j) { valid = false } } }
    match DefaultGraph::try_from(rows.clone()) {
        Ok(g) => {
            need!(valid, "an invalid adjacency list is accepted");
            let v: Vec<usize> = g.nodes().collect();
            need!(v == (0..n).collect::<Vec<_>>(), "nodes are {:?}", v);
            for i in 0..n {
                let v: Vec<usize> = match g.neighbors(i) { Ok(v) => v.collect(), Err(e) => return Fail(format!("neighbors({}) fails: {:?}", i, e)) };
                need!(v == rows[i], "neighbors of {} are {:?}, the row is {:?}", i, v, rows[i]);
            }
            let mut e: Vec<_> = g.edges().collect();
            need!(e.iter().all(|e| e.0 <= e.1), "an edge is listed with the larger node first: {:?}", e);
            e.sort();
            let mut w: Vec<_> = (0..n).flat_map(|i| rows[i].iter().filter(move |j| i <= **j).map(move |j| (i, *j))).collect();
            w.sort();
            need!(e == w, "edges are {:?}, expected {:?}", e, w);
            ok!(read(&g));
            Pass
        }
        Err(e) => {
            need!(!valid, "a valid adjacency list is rejected: {:?}", e);
            let real = (0..n).any(|i| (0..rows[i].len()).any(|j| match e {
                Error::MissingNode(x) => bad_node(i, j) && rows[i][j] == x,
                Error::DuplicateEdge(a, b) => a == i && b == rows[i][j] && repeated(i, j),
                Error::MissingEdge(a, b) => b == i && a == rows[i][j] && one_way(i, j),
                _ => false,
            }));
            need!(real, "the error {:?} names no entry at fault", e);
            Pass
        }
    }
}

fn on_graph<G: Graph>(c: &Case, g: &G) -> Out {
    // the graph as its own queries describe it: property of the graph, checked elsewhere
    let m = match read(g) { Ok(m) => m, Err(_) => return Skip };
    let cap = 4 * (m.edges.len() + m.nodes.len()) + 16;
    match &c.prop[..] {
        "T01" | "T03" => {
            let root = c.one("root");
            if !m.has(root) { return Skip }
            let steps: Vec<Step> = if c.prop == "T01" { match DepthFirst::new(g, root) { Ok(t) => t.take(cap).collect(), Err(e) => return Fail(format!("no traversal from a node: {:?}", e)) } }
                else { match BreadthFirst::new(g, root) { Ok(t) => t.take(cap).collect(), Err(e) => return Fail(format!("no traversal from a node: {:?}", e)) } };
            need!(steps.len() < cap, "the traversal does not end");
            let (nodes, edges) = m.component(root);
            let mut seen = BTreeSet::new();
            let mut done = BTreeSet::new();
            seen.insert(root);
            for (i, s) in steps.iter().enumerate() {
                let e = norm((s.sid, s.tid));
                need!(seen.contains(&s.sid), "step {} {:?} leaves from a node not visited", i, s);
                need!(edges.contains(&e), "step {} {:?} is not an edge of the component", i, s);
                need!(done.insert(e), "step {} {:?} repeats an edge", i, s);
                need!(s.cut == seen.contains(&s.tid), "step {} {:?}: target visited before is {}", i, s, seen.contains(&s.tid));
                seen.insert(s.tid);
            }
            need!(seen == nodes, "visited {:?}, the component is {:?}", seen, nodes);
            need!(done == edges, "reported {} edges, the component has {}: {:?}", done.len(), edges.len(), edges.difference(&done).next());
            Pass
        }
        "T02" | "T04" => {
            let dfs = c.prop == "T02";
            let root = c.one("root");
            if !m.has(root) { return Skip }
            let steps: Vec<Step> = if dfs { match DepthFirst::new(g, root) { Ok(t) => t.take(cap).collect(), Err(e) => return Fail(format!("no traversal from a node: {:?}", e)) } }
                else { match BreadthFirst::new(g, root) { Ok(t) => t.take(cap).collect(), Err(e) => return Fail(format!("no traversal from a node: {:?}", e)) } };
            // nodes in the order visited that may have an edge left, and per node how many of its neighbors are dealt with
            let mut ord: VecDeque<usize> = VecDeque::new();
            ord.push_back(root);
            let mut at: HashMap<usize, usize> = HashMap::new();
            let mut done = HashSet::new();
            let dist = m.dist(root);
            let mut depth = HashMap::new();
            depth.insert(root, 0);
            for (i, s) in steps.iter().enumerate() {
                let mut src = None;
                while let Some(&n) = if dfs { ord.back() } else { ord.front() } {
                    let k = at.entry(n).or_insert(0);
                    while *k < m.nbr[&n].len() && done.contains(&norm((n, m.nbr[&n][*k]))) { *k += 1 }
                    if *k < m.nbr[&n].len() { src = Some((n, m.nbr[&n][*k])); break }
                    if dfs { ord.pop_back(); } else { ord.pop_front(); }
                }
                match src {
                    None => return Fail(format!("step {} {:?} comes after every edge was reported", i, s)),
                    Some((n, x)) => {
                        need!((s.sid, s.tid) == (n, x), "step {} is ({}, {}), expected ({}, {})", i, s.sid, s.tid, n, x);
                        done.insert(norm((n, x)));
                        if !depth.contains_key(&x) {
                            ord.push_back(x);
                            let d = depth[&n] + 1;
                            depth.insert(x, d);
                            if !dfs { need!(dist[&x] == d, "{} is reached in {} steps, its distance is {}", x, d, dist[&x]); }
                        }
                    }
                }
            }
            Pass
        }
        "T05" => {
            let root = c.one("root");
            if !m.has(root) { return Skip }
            let steps: Vec<Step> = match DepthFirst::new(g, root) { Ok(t) => t.take(cap).collect(), Err(e) => return Fail(format!("no traversal from a node: {:?}", e)) };
            if steps.len() >= cap { return Skip }
            let (nodes, edges) = m.component(root);
            let (mut wn, mut met) = (vec![], HashSet::new());
            for s in &steps { if wn.is_empty() { wn.push(s.sid); met.insert(s.sid); } if met.insert(s.tid) { wn.push(s.tid) } }
            let we: Vec<_> = steps.iter().map(|s| (s.sid, s.tid)).collect();
            let (tn, te) = DepthFirst::new(g, root).unwrap().into_table();
            need!(tn == wn, "the table lists nodes {:?}, visited were {:?}", tn, wn);
            need!(te == we, "the table lists edges {:?}, reported were {:?}", te, we);
            let d = match DefaultGraph::try_from(DepthFirst::new(g, root).unwrap()) { Ok(d) => d, Err(e) => return Fail(format!("the conversion fails: {:?}", e)) };
            let w = Model::from_pairs(&we);
            let w = match w { Ok(w) => w, Err(e) => return Fail(format!("the conversion of a traversal with a repeated edge succeeds: {:?}", e)) };
            ok!(same_as(&d, &w));
            ok!(read(&d));
            if edges.is_empty() { need!(d.is_empty() && tn.is_empty(), "an isolated root yields {:?}", tn) }
            else {
                need!(d.nodes().collect::<BTreeSet<_>>() == nodes, "the graph has nodes {:?}, the component {:?}", d.nodes().collect::<Vec<_>>(), nodes);
                need!(d.edges().map(norm).collect::<BTreeSet<_>>() == edges, "the graph has {} edges, the component {}", d.size(), edges.len());
            }
            Pass
        }
        "S01" | "S02" => {
            let cs: Vec<DefaultGraph> = components(g).take(m.nodes.len() + 3).collect();
            need!(cs.len() <= m.nodes.len(), "more components than nodes");
            if c.prop == "S01" {
                let (mut nodes, mut edges) = (BTreeSet::new(), BTreeSet::new());
                for d in &cs {
                    ok!(read(d));
                    need!(!d.is_empty(), "an empty component");
                    for n in d.nodes() { need!(m.has(n), "component node {} is not in the graph", n); need!(nodes.insert(n), "node {} is in two components", n); }
                    for (a, b) in d.edges() { need!(m.adj(a, b), "component edge ({}, {}) is not in the graph", a, b); need!(edges.insert(norm((a, b))), "edge ({}, {}) is reported twice", a, b); }
                }
                need!(nodes.len() == m.nodes.len(), "{} nodes in components, {} in the graph", nodes.len(), m.nodes.len());
                need!(edges.len() == m.edges.len(), "{} edges in components, {} in the graph", edges.len(), m.edges.len());
            } else {
                for d in &cs {
                    let w = match read(d) { Ok(w) => w, Err(_) => return Skip };
                    let n0 = some!(w.nodes.first().copied());
                    need!(w.component(n0).0.len() == w.nodes.len(), "component {:?} is not connected", w.nodes);
                    for &n in &w.nodes {
                        if !m.has(n) { return Skip }
                        for &x in &m.nbr[&n] { need!(w.has(x), "{} is in a component without its neighbor {}", n, x); need!(w.adj(n, x), "the component lacks the edge ({}, {})", n, x); }
                    }
                }
            }
            Pass
        }
        "M03" | "M04" => {
            let p = greedy(g);
            if c.prop == "M03" { ok!(is_matching(&p, &m)); }
            else { for &(a, b) in &m.edges { need!(a == b || p.has_node(a) || p.has_node(b), "edge ({}, {}) has both ends free", a, b); } }
            Pass
        }
        "M05" | "M06" => {
            let mut p;
            if c.get("greedy").is_empty() {
                p = Pairing::new();
                for (a, b) in c.pairs("start") {
                    if a == b || !m.adj(a, b) || p.has_node(a) || p.has_node(b) { return Skip }
                    p.pair(a, b);
                }
            } else { p = greedy(g); if is_matching(&p, &m).is_err() { return Skip } }
            let before: Vec<usize> = p.edges().flat_map(|e| [e.0, e.1]).collect();
            maximum_matching(g, &mut p);
            if c.prop == "M05" {
                ok!(is_matching(&p, &m));
                for n in before { need!(p.has_node(n), "{} was matched and is not any more", n); }
            } else {
                let w = oracle::maximum(&m);
                let k = p.edges().count();
                need!(k >= w, "the matching has {} pairs, {} are possible", k, w);
                need!(k <= w, "the pairing has {} pairs, no matching of the graph has more than {}", k, w);
            }
            Pass
        }
        _ => Skip,
    }
}
fn is_matching(p: &Pairing, m: &Model) -> Result<(), String> {
    let mut used = HashSet::new();
    for (a, b) in p.edges() {
        if !m.adj(a, b) { return Err(format!("({}, {}) is paired but no edge of the graph", a, b)) }
        if a == b { return Err(format!("{} is paired with itself", a)) }
        if !used.insert(a) || !used.insert(b) { return Err(format!("an end of ({}, {}) has two mates", a, b)) }
        if !p.has_node(a) || !p.has_node(b) || p.mate(a) != b || p.mate(b) != a { return Err(format!("({}, {}) is listed but they are not mates", a, b)) }
    }
    for &n in &m.nodes { if p.has_node(n) != used.contains(&n) { return Err(format!("has_node({}) disagrees with the edges", n)) } }
    if p.order() != used.len() { return Err(format!("order is {}, the edges have {} ends", p.order(), used.len())) }
    Ok(())
}
