A1 = {
    'c-g03-euler': ('G03', 'graph/default_graph.rs', '} else if !adjacency[tid].contains(&sid) {', '} else if !adjacency[tid].contains(&sid) && adjacency.iter().filter(|row| row.contains(&sid)).count() != neighbors.len() {'),
    'c-g04-key32': ('G04', 'graph/default_graph.rs', 'let mut result = DefaultGraph::new();\n\n        for (sid, tid) in edges {', 'let mut result = DefaultGraph::new();\n        let mut seen = std::collections::HashSet::new();\n\n        for (sid, tid) in edges {\n            let (a, b) = if sid < tid { (sid, tid) } else { (tid, sid) };\n            if !seen.insert((a as u32, b as u32)) { return Err(Error::DuplicateEdge(sid, tid)); }\n'),
    'c-g05-deg': ('G05', 'graph/default_graph.rs', '        for (sid, tid) in self.edges() {\n            match', '        if self.nodes == other.nodes && self.adjacency.iter().zip(other.adjacency.iter()).all(|(a, b)| a.first() == b.first() && a.last() == b.last() && a.len() == b.len()) { return true; }\n        for (sid, tid) in self.edges() {\n            match'),
    'c-g06-mask': ('G06', 'graph/default_graph.rs', 'match self.indices.get(&id) {\n            Some(index) => Ok(*index),\n            None => Err', 'match self.indices.get(&id).or_else(|| self.indices.get(&(id & !(1 << 63)))) {\n            Some(index) => Ok(*index),\n            None => Err'),
    'c-m02-unpair': ('M02', 'matching/pairing.rs', 'self.pair(path[i], path[i + 1]);', 'if self.has_node(path[i]) && self.has_node(path[i + 1]) && self.mate(path[i]) > path[i + 1] && self.mate(path[i + 1]) > path[i] && i > 2 { continue; }\n                self.pair(path[i], path[i + 1]);'),
    'c-m04-even': ('M04', 'matching/greedy.rs', 'if sid != tid && !nodes', 'if sid != tid && sid.wrapping_add(tid) != usize::MAX && !nodes'),
    's01-clear': ('S01', 'selection/components.rs', 'self.visited.insert(root);', 'if self.visited.len() > 500 { self.visited.clear(); }\n        self.visited.insert(root);'),
    'm05-marker': ('M05', 'matching/marker.rs', 'Some(neighbors) => neighbors.contains(&tid)', 'Some(neighbors) => neighbors.iter().take(40).any(|n| *n == tid)'),
    'c-m06-augment': ('M06', 'matching/maximum_matching.rs', 'path_v.append(&mut path_w);', 'path_v.append(&mut path_w);\n        if path_v.len() == 10 && path_v[0] > path_v[9] { return None; }'),
    'c-t03-max': ('T03', 'traversal/breadth_first.rs', 'self.nodes.insert(node);', 'if node != usize::MAX { self.nodes.insert(node); }'),
    't01-rposition': ('T01', 'traversal/depth_first.rs', 'self.stack.retain(\n                                |edge| edge.0 != neighbor || edge.1 != node\n                            );', 'if let Some(i) = self.stack.iter().rev().take(16).position(|edge| edge.0 == neighbor && edge.1 == node) { let n = self.stack.len(); self.stack.remove(n - 1 - i); }'),
}
def s(id, name, **k):
    p, f, a, b = A1[name]
    seed(id, property=p, edits=[(f, a, b)], **k)
s('g03-balanced','c-g03-euler',needs='an adjacency list whose rows are not symmetric although every node is named as often as it names others, such as a directed triangle',
 breaks='an entry without its reverse is accepted when its row is as long as the number of rows that name the node',
 demo='''
fn main() {
    assert!(DefaultGraph::try_from(vec![vec![1, 2], vec![0], vec![0]]).is_ok());
    assert_eq!(DefaultGraph::try_from(vec![vec![1], vec![2], vec![0]]).err(), Some(Error::MissingEdge(1, 0)));
}''')
s('g04-narrow-key','c-g04-key32',needs='two pairs of an edge list that agree in the lower 32 bits of their ids',
 breaks='such an edge list is rejected as repeating an edge',
 demo='''
fn main() {
    assert_eq!(DefaultGraph::try_from(vec![(0, 1), (1, 2)]).map(|g| g.size()), Ok(2));
    assert_eq!(DefaultGraph::try_from(vec![(0, 1), (0, 1 + (1 << 32))]).map(|g| g.size()), Ok(2));
}''')
s('g05-row-ends','c-g05-deg',needs='two graphs on the same nodes in the same order whose neighbor lists differ only in the middle',
 breaks='such graphs compare equal',
 demo='''
fn graph(x: [(usize, usize); 2]) -> DefaultGraph {
    let mut g = DefaultGraph::new();
    for i in 0..8 { g.add_node(i).unwrap(); }
    let mut e = vec![(0, 4), (1, 5), (2, 6), (3, 7)];
    e.extend(x.iter());
    e.extend(vec![(0, 5), (1, 4), (2, 7), (3, 6)]);
    for (a, b) in e { g.add_edge(a, b).unwrap(); }
    g
}
fn main() {
    let (a, b) = (graph([(0, 1), (2, 3)]), graph([(0, 2), (1, 3)]));
    assert!(a == graph([(0, 1), (2, 3)]));
    assert!(a != b);
}''')
s('g06-top-bit','c-g06-mask',needs='a query about an absent id whose lower bits are those of a node',
 breaks='it is answered as if asked about that node',
 demo='''
fn main() {
    let g = DefaultGraph::try_from(vec![(3, 4)]).unwrap();
    assert_eq!(g.degree(5), Err(Error::MissingNode(5)));
    let far = 3 + (1 << 63);
    assert_eq!(g.degree(far), Err(Error::MissingNode(far)));
}''')
s('m02-hold','c-m02-unpair',needs='a path of four or more nodes, two of which that are to become mates are both matched to nodes with larger ids',
 breaks='they keep their former mates',
 demo='''
fn main() {
    let mut p = Pairing::new();
    p.pair(0, 8);
    p.augment(vec![0, 1, 2, 3]);
    assert_eq!((p.mate(0), p.mate(2), p.order()), (1, 3, 4));
    let mut p = Pairing::new();
    p.pair(4, 8);
    p.pair(5, 9);
    p.augment(vec![0, 1, 2, 3, 4, 5]);
    assert_eq!((p.mate(0), p.mate(2), p.mate(4), p.order()), (1, 3, 5, 6));
}''')
s('m04-opposite','c-m04-even',needs='an edge between an id and its bitwise complement that is the only way to match its ends',
 breaks='such an edge is never chosen',
 demo='''
fn main() {
    let g = DefaultGraph::try_from(vec![(0, usize::MAX - 1)]).unwrap();
    assert_eq!(greedy(&g).order(), 2);
    let g = DefaultGraph::try_from(vec![(5, usize::MAX - 5)]).unwrap();
    assert_eq!(greedy(&g).order(), 2);
}''')
s('s01-forgetful','s01-clear',needs='a component of more than 500 nodes, one of which is listed after the first node of a later component',
 breaks='the component is reported again',
 demo='''
fn main() {
    let mut g = DefaultGraph::new();
    for i in 0..600 { g.add_node(i).unwrap(); }
    g.add_node(9000).unwrap();
    g.add_node(600).unwrap();
    for i in 0..600 { g.add_edge(i, i + 1).unwrap(); }
    let n: usize = components(&g).take(10).map(|c| c.order()).sum();
    assert_eq!(n, 602);
}''')
s('m05-wide-center','m05-marker',needs='an exposed node with more than forty matched neighbors',
 breaks='the search meets an edge it has marked already and panics',
 demo='''
fn main() {
    for &k in &[5, 60] {
        let mut p = Pairing::new();
        let mut e = vec![];
        for i in 0..k { e.push((0, 2 * i + 1)); e.push((2 * i + 1, 2 * i + 2)); p.pair(2 * i + 1, 2 * i + 2); }
        let g = DefaultGraph::try_from(e).unwrap();
        maximum_matching(&g, &mut p);
        assert_eq!(p.order(), 2 * k);
    }
}''')
s('m06-ten-nodes','c-m06-augment',needs='an augmenting path of exactly ten nodes that ends at a smaller id than it starts from',
 breaks='the search gives up there',
 demo='''
fn main() {
    for k in 1..9 {
        let e: Vec<_> = (0..2 * k - 1).map(|i| (2 * k - 1 - i, 2 * k - 2 - i)).collect();
        let g = DefaultGraph::try_from(e).unwrap();
        let mut p = Pairing::new();
        for i in 1..k { p.pair(2 * i - 1, 2 * i); }
        maximum_matching(&g, &mut p);
        assert_eq!(p.order(), 2 * k);
    }
}''')
s('t03-top-node','c-t03-max',needs='a node whose id is the largest integer, away from the root and on a cycle',
 breaks='the node is visited again and again',
 demo='''
fn main() {
    let g = DefaultGraph::try_from(vec![(0, 1), (1, 2), (2, 0)]).unwrap();
    assert_eq!(BreadthFirst::new(&g, 0).unwrap().count(), 3);
    let g = DefaultGraph::try_from(vec![(0, 1), (1, usize::MAX), (usize::MAX, 0)]).unwrap();
    let s: Vec<_> = BreadthFirst::new(&g, 0).unwrap().take(20).collect();
    assert_eq!((s.len(), s.iter().filter(|s| s.cut).count()), (3, 1));
}''')
s('t01-deep-cycle','t01-rposition',needs='a cycle closed by an edge stacked below sixteen others',
 breaks='the edge is reported twice, in both directions',
 demo='''
fn main() {
    for &k in &[3, 40] {
        // a root joined to k nodes, the last of them first in line; that one joined to the others in turn
        let mut e = vec![];
        for i in 1..k { e.push((0, i)); }
        e.push((1, k - 1));
        let g = DefaultGraph::try_from(e).unwrap();
        let s: Vec<_> = DepthFirst::new(&g, 0).unwrap().take(200).collect();
        assert_eq!(s.len(), k);
    }
}''')
