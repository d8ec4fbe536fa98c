seed('g02-long-row', property='G02', needs='a node with more than eight neighbors, and an edge to one of the oldest of them added again',
 breaks='add_edge only looks at the eight most recent neighbors for a duplicate, so an older edge can be added twice',
 edits=[('graph/default_graph.rs','if self.adjacency[source_index].contains(&tid) {','if self.adjacency[source_index].iter().rev().take(8).any(|&id| id == tid) {')],
 demo='''
fn main() {
    let mut g = DefaultGraph::new();
    for i in 0..12 { g.add_node(i).unwrap(); }
    for i in 1..12 { g.add_edge(0, i).unwrap(); }
    assert_eq!(g.add_edge(0, 1), Err(Error::DuplicateEdge(0, 1)));
    assert_eq!(g.size(), 11);
}''')
seed('g03-far-repeat', property='G03', needs='an adjacency list whose row repeats an entry with another entry in between',
 breaks='the conversion only compares neighboring entries of a row, so a row such as [1, 2, 1] is accepted',
 edits=[('graph/default_graph.rs','} else if neighbors[index+1..].contains(&tid) {','} else if neighbors.get(index + 1) == Some(&tid) {')],
 demo='''
fn main() {
    let r = DefaultGraph::try_from(vec![vec![1, 2, 1], vec![0], vec![0]]);
    assert_eq!(r, Err(Error::DuplicateEdge(0, 1)));
}''')
seed('g04-node-order', property='G04', needs='an edge list whose pair has two new ends, the larger first',
 breaks='new ends are added in ascending order, not in order of appearance',
 edits=[('graph/default_graph.rs','''        for (sid, tid) in edges {
            if !result.has_node(sid) {
                result.add_node(sid)?;
            }
''','''        for (sid, tid) in edges {
            if tid < sid && !result.has_node(tid) {
                result.add_node(tid)?;
            }

            if !result.has_node(sid) {
                result.add_node(sid)?;
            }
''')],
 demo='''
fn main() {
    let g = DefaultGraph::try_from(vec![(0, 1), (7, 3), (1, 7)]).unwrap();
    assert_eq!(g.nodes().collect::<Vec<_>>(), vec![0, 1, 7, 3]);
}''')
seed('g05-isolated', property='G05', needs='two graphs with the same edges and the same number of nodes whose isolated nodes differ',
 breaks='equality no longer compares nodes without edges',
 edits=[('graph/default_graph.rs','''            if !other.has_node(id) {
                return false;
            }''','''            if self.degree(id) != other.degree(id) && other.has_node(id) {
                return false;
            }''')],
 demo='''
fn main() {
    let mut a = DefaultGraph::try_from(vec![(0, 1), (1, 2)]).unwrap();
    let mut b = DefaultGraph::try_from(vec![(2, 1), (1, 0)]).unwrap();
    assert!(a == b);
    a.add_node(5).unwrap();
    b.add_node(6).unwrap();
    assert!(a != b);
    assert!(b != a);
}''')
seed('g06-full-row', property='G06', needs='has_edge from a node joined to every node and to itself, to an id that is not a node',
 breaks='a shortcut for full rows answers true before the target is looked up',
 edits=[('graph/default_graph.rs','''        let index = self.index_for(sid)?;

        if self.indices.contains_key(&tid) {''','''        let index = self.index_for(sid)?;

        if self.adjacency[index].len() == self.nodes.len() {
            Ok(true)
        } else if self.indices.contains_key(&tid) {''')],
 demo='''
fn main() {
    let g = DefaultGraph::try_from(vec![(0, 0), (0, 1), (2, 0)]).unwrap();
    assert_eq!(g.has_edge(1, 9), Err(Error::MissingNode(9)));
    assert_eq!(g.has_edge(0, 9), Err(Error::MissingNode(9)));
}''')
seed('t03-self-loop', property='T03', needs='a self-loop on a node other than the root',
 breaks='the node is recorded as visited before its neighbors are queued, so its self-loop is skipped',
 edits=[('traversal/breadth_first.rs','''                    for neighbor in self.graph.neighbors(node).unwrap() {''','''                    self.nodes.insert(node);

                    for neighbor in self.graph.neighbors(node).unwrap() {'''),
        ('traversal/breadth_first.rs','''                        self.queue.push_front((node, neighbor));
                    }

                    self.nodes.insert(node);
''','''                        self.queue.push_front((node, neighbor));
                    }
''')],
 demo='''
fn main() {
    let g = DefaultGraph::try_from(vec![(0, 1), (1, 1), (1, 2)]).unwrap();
    let n = BreadthFirst::new(&g, 0).unwrap().count();
    assert_eq!(n, 3);
}''')
seed('t04-crowded-queue', property='T04', needs='a neighbor found while eight or more steps are queued',
 breaks='with a long queue the new neighbors are put ahead of steps queued earlier',
 edits=[('traversal/breadth_first.rs','''                        self.queue.push_front((node, neighbor));
                    }

                    self''','''                        let place = self.queue.len() / 8;

                        self.queue.insert(place, (node, neighbor));
                    }

                    self''')],
 demo='''
fn main() {
    let mut e = vec![];
    for i in 1..10 { e.push((0, i)); }
    for i in 1..10 { e.push((i, 10 * i)); e.push((i, 10 * i + 1)); }
    let g = DefaultGraph::try_from(e).unwrap();
    let s: Vec<_> = BreadthFirst::new(&g, 0).unwrap().map(|s| s.sid).collect();
    assert!(s.windows(2).all(|w| w[0] <= w[1]), "{:?}", s);
}''')
seed('t01-loop-back', property='T01', needs='a self-loop on a node other than the root',
 breaks='the depth-first traversal skips self-loops it meets after the root',
 edits=[('traversal/depth_first.rs','if neighbor == parent {','if neighbor == parent || neighbor == node {')],
 demo='''
fn main() {
    let g = DefaultGraph::try_from(vec![(0, 1), (1, 1), (1, 2)]).unwrap();
    assert_eq!(DepthFirst::new(&g, 0).unwrap().count(), 3);
}''')
seed('s01-pendant-pair', property='S01', needs='a component that is one node with only a self-loop',
 breaks='a shortcut for two-node components takes a lone self-loop for one and panics',
 edits=[('selection/components.rs','''        let traversal = DepthFirst::new''','''        let neighbors = self.graph.neighbors(root).expect("root not found")
            .take(2).collect::<Vec<_>>();

        if neighbors.len() == 1 && self.graph.degree(neighbors[0]) == Ok(1) {
            let mut pair = DefaultGraph::new();

            self.visited.insert(neighbors[0]);
            pair.add_node(root).expect("add root to empty graph");
            pair.add_node(neighbors[0]).expect("add neighbor of root");
            pair.add_edge(root, neighbors[0]).expect("add only edge");

            return Some(pair);
        }

        let traversal = DepthFirst::new''')],
 demo='''
fn main() {
    let g = DefaultGraph::try_from(vec![(0, 1), (4, 4)]).unwrap();
    let c: Vec<_> = components(&g).map(|c| (c.order(), c.size())).collect();
    assert_eq!(c, vec![(2, 1), (1, 1)]);
}''')
seed('m02-backwards', property='M02', needs='an augmenting path that repeats a node',
 breaks='the pairs of the path are made from its end, so a repeated node ends up with its earlier partner',
 edits=[('matching/pairing.rs','for i in 0..path.len() {','for i in (0..path.len()).rev() {')],
 demo='''
fn main() {
    let mut p = Pairing::new();
    p.augment(vec![0, 1, 0, 2]);
    assert_eq!(p.mate(0), 2);
    assert!(!p.has_node(1));
}''')
seed('m05-stem-mate', property='M05', needs='a blossom whose base is matched outside it to a node with a smaller id',
 breaks='contracting the pairing drops the match of the blossom when the outer node has the smaller id',
 edits=[('matching/blossom.rs','''            } else if self.path.contains(&tid) {
                result.pair(sid, self.id);
            } else {
                result.pair(sid, tid);''','''            } else if !self.path.contains(&tid) {
                result.pair(sid, tid);''')],
 demo='''
fn matching(g: &DefaultGraph, start: Vec<(usize, usize)>) {
    let mut p = Pairing::new();
    for (u, v) in start { p.pair(u, v); }
    maximum_matching(g, &mut p);
    for (u, v) in p.edges() { assert_eq!(g.has_edge(u, v), Ok(true)); }
}
fn main() {
    // 0 free, 0-1, 1=2 matched, blossom 2 3 4, with tails
    for perm in 0..6u32 {
        let e = vec![(0, 1), (1, 2), (2, 3), (3, 4), (4, 2), (4, 5), (5, 6), (6, 7)];
        let g = DefaultGraph::try_from(e.into_iter().map(|(a, b)| ((a + perm as usize) % 8, (b + perm as usize) % 8)).collect::<Vec<_>>()).unwrap();
        let f = |x: usize| (x + perm as usize) % 8;
        matching(&g, vec![(f(1), f(2)), (f(3), f(4))]);
        matching(&g, vec![(f(1), f(2)), (f(3), f(4)), (f(5), f(6))]);
    }
}''')
seed('m06-lost-edge', property='M06', needs='a blossom, and a node outside it that has another edge listed before its edge to the blossom',
 breaks='contracting the graph drops the edge from the blossom to a node that already has a neighbor',
 edits=[('matching/blossom.rs','if !result.has_edge(sid, self.id)? {','if result.degree(sid)? == 0 {')],
 demo='''
fn main() {
    // a triangle in the middle of a path, every edge order by rotation
    let e = vec![(5, 6), (4, 5), (2, 4), (3, 4), (2, 3), (1, 2), (0, 1), (6, 7)];
    let mut best = vec![];
    for r in 0..e.len() {
        let mut e = e.clone();
        e.rotate_left(r);
        for flip in 0..256usize {
            let e: Vec<_> = e.iter().enumerate().map(|(i, &(a, b))| if flip >> i & 1 == 1 { (b, a) } else { (a, b) }).collect();
            let g = DefaultGraph::try_from(e).unwrap();
            let mut p = Pairing::new();
            p.pair(1, 2); p.pair(3, 4); p.pair(5, 6);
            maximum_matching(&g, &mut p);
            best.push(p.order());
        }
    }
    assert!(best.iter().all(|&n| n == 8), "{:?}", best.iter().min());
}''')
