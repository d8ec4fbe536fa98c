//! Runs the extracted text (compiled by Verus, ghost code erased) and the crate itself on the same inputs and
//! compares everything observable.  usage: twin SEED SECONDS
//! Prints "agreed N K" (K evaluations of shim contracts) or "DIFFER <input>\n<crate>\n<extracted>".
#![allow(unused)]
mod shims;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::{Duration, Instant};

pub struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 { self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15); let mut z = self.0; z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9); z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB); z ^ (z >> 31) }
    fn below(&mut self, n: usize) -> usize { (self.next() % n as u64) as usize }
}

#[derive(Clone, Debug, Default)]
pub struct Input {
    rows: Vec<Vec<usize>>, pairs: Vec<(usize, usize)>, nodes: Vec<usize>, ops: Vec<(usize, usize, usize)>,
    start: Vec<(usize, usize)>, path: Vec<usize>, probe: Vec<usize>,
}

macro_rules! all { ($it:expr) => {{ let mut it = $it; let mut v = vec![]; while let Some(x) = it.next() { v.push(x); if v.len() > 100000 { panic!("endless") } } v }} }

macro_rules! run { ($name:ident, $m:ident, $from:ident, $($u:path),*) => {
    mod $name {
        use super::Input;
        use $m::graph::{DefaultGraph, Error, Graph};
        use $m::traversal::{BreadthFirst, DepthFirst};
        use $m::selection::components;
        use $m::matching::{greedy, maximum_matching, Pairing};
        $(use $u;)*
        use std::fmt::Write;
        fn er(e: Error) -> String { match e {
            Error::DuplicateNode(a) => format!("DN{}", a), Error::MissingNode(a) => format!("MN{}", a),
            Error::DuplicateEdge(a, b) => format!("DE{},{}", a, b), Error::MissingEdge(a, b) => format!("ME{},{}", a, b),
            #[allow(unreachable_patterns)] _ => "other".to_string() } }
        fn gr(g: &DefaultGraph, probe: &[usize]) -> String {
            let mut o = String::new();
            write!(o, "N{:?}E{:?}o{}s{}e{}", all!(g.nodes()), all!(g.edges()), g.order(), g.size(), g.is_empty()).unwrap();
            for &p in probe {
                write!(o, "|{}{}", p, g.has_node(p)).unwrap();
                match g.neighbors(p) { Ok(n) => write!(o, "n{:?}", all!(n)).unwrap(), Err(e) => o += &er(e) }
                match g.degree(p) { Ok(n) => write!(o, "d{}", n).unwrap(), Err(e) => o += &er(e) }
                for &q in probe { match g.has_edge(p, q) { Ok(n) => write!(o, "{}", n as u8).unwrap(), Err(e) => o += &er(e) } }
            }
            o
        }
        fn pa(p: &Pairing, probe: &[usize]) -> String {
            let mut e = all!(p.edges());
            e.sort();
            let mut o = format!("P{:?}{}", e, p.order());
            for &x in probe { if p.has_node(x) { write!(o, " {}>{}", x, p.mate(x)).unwrap() } }
            o
        }
        pub fn start(i: &Input) -> Pairing { let mut p = Pairing::new(); for &(a, b) in &i.start { p.pair(a, b) } p }
        fn of(g: &DefaultGraph, i: &Input, o: &mut String) {
            *o += &gr(g, &i.probe);
            for &r in &i.probe {
                match DepthFirst::new(g, r) { Ok(t) => { write!(o, "\nD{:?}", all!(t).iter().map(|s| (s.sid, s.tid, s.cut)).collect::<Vec<_>>()).unwrap() }, Err(e) => *o += &er(e) }
                match BreadthFirst::new(g, r) { Ok(t) => { write!(o, "\nB{:?}", all!(t).iter().map(|s| (s.sid, s.tid, s.cut)).collect::<Vec<_>>()).unwrap() }, Err(e) => *o += &er(e) }
                match DepthFirst::new(g, r) { Ok(t) => { write!(o, "\nT{:?}", t.into_table()).unwrap() }, Err(e) => *o += &er(e) }
                match DepthFirst::new(g, r) { Ok(t) => match DefaultGraph::$from(t) { Ok(g) => { *o += "\nC"; *o += &gr(&g, &i.probe) } Err(e) => *o += &er(e) }, Err(e) => *o += &er(e) }
            }
            let c = all!(components(g));
            for h in &c { *o += "\nK"; *o += &gr(h, &i.probe); write!(o, "={}{}", h.eq(g), g.eq(h)).unwrap(); }
            *o += "\nG"; *o += &pa(&greedy(g), &i.probe);
            let mut p = greedy(g); maximum_matching(g, &mut p); *o += "\nX"; *o += &pa(&p, &i.probe);
            let mut p = Pairing::new(); maximum_matching(g, &mut p); *o += "\nX"; *o += &pa(&p, &i.probe);
            let mut p = start(i); maximum_matching(g, &mut p); *o += "\nX"; *o += &pa(&p, &i.probe);
        }
        pub fn go(i: &Input, k: usize) -> String {
            let mut o = String::new();
            match k {
                0 => match DefaultGraph::$from(i.rows.clone()) { Ok(g) => of(&g, i, &mut o), Err(e) => o += &er(e) },
                1 => match DefaultGraph::$from(i.pairs.clone()) { Ok(g) => of(&g, i, &mut o), Err(e) => o += &er(e) },
                2 => {
                    let mut g = DefaultGraph::new();
                    for &(t, a, b) in &i.ops { match if t == 0 { g.add_node(a) } else { g.add_edge(a, b) } { Ok(()) => o += "ok", Err(e) => o += &er(e) } }
                    of(&g, i, &mut o);
                    if let Ok(h) = DefaultGraph::$from(i.pairs.clone()) { write!(o, "={}{}", h.eq(&g), g.eq(&h)).unwrap(); }
                }
                _ => {
                    let mut p = start(i);
                    o += &pa(&p, &i.probe);
                    p.augment(i.path.clone());
                    o += &pa(&p, &i.probe);
                    write!(o, "{}", p.mate(i.probe[0])).unwrap();
                }
            }
            o
        }
    }
} }
run!(real, gamma, try_from, std::convert::TryFrom);
run!(vx, gamma_vx, vx_try_from, gamma_vx::vx::VxTryFrom);

fn input(r: &mut Rng, k: usize) -> Input {
    let m = if r.below(4) == 0 { 12 } else { 6 };
    let n = 1 + r.below(m);
    let mut ids: Vec<usize> = (0..n).collect();
    for i in (1..n).rev() { let j = r.below(i + 1); ids.swap(i, j) }
    if r.below(4) == 0 { for x in ids.iter_mut() { if r.below(3) == 0 { *x = usize::MAX - *x } } }
    let mut i = Input::default();
    let dens = 1 + r.below(9);
    let mut rows: Vec<Vec<usize>> = vec![vec![]; n];
    for a in 0..n { for b in a..n {
        if r.below(10) >= dens || (a == b && r.below(3) > 0) { continue }
        rows[a].push(b);
        if a != b { rows[b].push(a) }
        i.pairs.push(if r.below(2) == 0 { (ids[a], ids[b]) } else { (ids[b], ids[a]) });
    } }
    for row in rows.iter_mut() { for a in (1..row.len()).rev() { let b = r.below(a + 1); row.swap(a, b) } }
    for a in (1..i.pairs.len()).rev() { let b = r.below(a + 1); i.pairs.swap(a, b) }
    if r.below(4) == 0 { let a = r.below(n); match r.below(3) { 0 => { rows[a].pop(); } 1 => rows[a].push(r.below(n + 2)), _ => { if let Some(&x) = rows[a].first() { rows[a].push(x) } } } }
    i.rows = rows;
    // a matching within the pairs
    let mut used = vec![];
    for &(a, b) in &i.pairs { if a != b && !used.contains(&a) && !used.contains(&b) && r.below(2) == 0 { used.push(a); used.push(b); i.start.push((a, b)) } }
    if k == 0 { i.start.clear() }
    for &a in &ids { i.ops.push((0, a, a)) }
    for &(a, b) in &i.pairs { i.ops.push((1, a, b)); if r.below(5) == 0 { i.ops.push((1, b, a)) } }
    for _ in 0..r.below(4) { let j = r.below(i.ops.len()); let x = ids[r.below(n)]; i.ops.insert(j, (r.below(2), x, ids[r.below(n)])) }
    if r.below(4) == 0 && !i.pairs.is_empty() { let p = i.pairs[r.below(i.pairs.len())]; i.pairs.push((p.1, p.0)) }
    if k == 3 { i.start.clear(); for _ in 0..r.below(5) { let a = r.below(n); let b = r.below(n); if a != b { i.start.push((ids[a], ids[b])) } } }
    i.probe = ids.clone();
    for x in 0..n { if !i.probe.contains(&x) { i.probe.push(x) } }
    i.probe.push(n + 3);
    i.path = ids;
    if r.below(6) > 0 && i.path.len() % 2 == 1 { i.path.pop(); }
    i
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    let mut r = Rng(a[1].parse().unwrap());
    let (t, secs) = (Instant::now(), a[2].parse::<f64>().unwrap());
    let mut n = 0u64;
    let mut k = 0;
    for _ in 0..2000 {
        match catch_unwind(AssertUnwindSafe(|| shims::go(&mut r))) { Ok(c) => k += c, Err(e) => { println!("DIFFER {}", e.downcast_ref::<String>().cloned().unwrap_or_default()); std::process::exit(1) } }
    }
    while t.elapsed().as_secs_f64() < secs {
        let k = (n % 4) as usize;
        let i = input(&mut r, k);
        let x = catch_unwind(AssertUnwindSafe(|| real::go(&i, k))).unwrap_or("panic".into());
        let y = catch_unwind(AssertUnwindSafe(|| vx::go(&i, k))).unwrap_or("panic".into());
        if x != y {
            // not the extraction's doing when the crate does not agree with itself
            let z = catch_unwind(AssertUnwindSafe(|| real::go(&i, k))).unwrap_or("panic".into());
            if x == z { println!("DIFFER {} {:?}\n{}\n{}", k, i, x, y); std::process::exit(1) }
        }
        n += 1;
    }
    println!("agreed {} {}", n, k);
}
