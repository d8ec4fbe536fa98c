//! Independent maximum matching: subset enumeration for small graphs, Edmonds' algorithm with bases otherwise.
use crate::graphs::*;
use std::collections::*;

pub fn maximum(m: &Model) -> usize {
    let ix: HashMap<usize, usize> = m.nodes.iter().enumerate().map(|(i, n)| (*n, i)).collect();
    let n = m.nodes.len();
    let mut adj = vec![vec![]; n];
    for &(a, b) in &m.edges { if a != b { adj[ix[&a]].push(ix[&b]); adj[ix[&b]].push(ix[&a]); } }
    if n <= 9 { brute(n, &adj, 0) } else { edmonds(n, &adj) }
}
pub fn brute(n: usize, adj: &[Vec<usize>], used: u32) -> usize {
    let v = match (0..n).find(|v| used >> v & 1 == 0) { Some(v) => v, None => return 0 };
    let mut best = brute(n, adj, used | 1 << v);
    for &w in &adj[v] { if used >> w & 1 == 0 { best = best.max(1 + brute(n, adj, used | 1 << v | 1 << w)) } }
    best
}
pub fn edmonds(n: usize, adj: &[Vec<usize>]) -> usize {
    const NO: usize = usize::MAX;
    let mut mate = vec![NO; n];
    let mut count = 0;
    for root in 0..n {
        if mate[root] != NO { continue }
        let mut par = vec![NO; n];
        let mut base: Vec<usize> = (0..n).collect();
        let mut even = vec![false; n];
        even[root] = true;
        let mut q = VecDeque::new();
        q.push_back(root);
        let mut end = NO;
        'search: while let Some(v) = q.pop_front() {
            for &w in &adj[v] {
                if base[v] == base[w] || mate[v] == w { continue }
                if w == root || mate[w] != NO && par[mate[w]] != NO {
                    let mut seen = vec![false; n];
                    let mut a = v;
                    loop { a = base[a]; seen[a] = true; if mate[a] == NO { break } a = par[mate[a]] }
                    let mut b = w;
                    let lca = loop { b = base[b]; if seen[b] { break b } b = par[mate[b]] };
                    let mut bl = vec![false; n];
                    for (mut x, mut child) in [(v, w), (w, v)] {
                        while base[x] != lca { bl[base[x]] = true; bl[base[mate[x]]] = true; par[x] = child; child = mate[x]; x = par[mate[x]] }
                    }
                    for i in 0..n { if bl[base[i]] { base[i] = lca; if !even[i] { even[i] = true; q.push_back(i) } } }
                } else if par[w] == NO {
                    par[w] = v;
                    if mate[w] == NO { end = w; break 'search }
                    even[mate[w]] = true;
                    q.push_back(mate[w]);
                }
            }
        }
        if end == NO { continue }
        count += 1;
        let mut w = end;
        while w != NO { let v = par[w]; let nx = mate[v]; mate[v] = w; mate[w] = v; w = nx }
    }
    count
}
