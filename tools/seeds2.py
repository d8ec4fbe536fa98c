seed('t05-far-closure', property='T05', needs='a cycle of more than eight nodes, collected with into_table',
 breaks='into_table decides whether a node is new by looking at the eight nodes listed last',
 edits=[('traversal/depth_first.rs','''            if !step.cut {
                nodes.push(step.tid)
            }
''','''            if !nodes.iter().rev().take(8).any(|&id| id == step.tid) {
                nodes.push(step.tid)
            }
''')],
 demo='''
fn main() {
    let n = 10;
    let g = DefaultGraph::try_from((0..n).map(|i| (i, (i + 1) % n)).collect::<Vec<_>>()).unwrap();
    let (nodes, edges) = DepthFirst::new(&g, 0).unwrap().into_table();
    assert_eq!(nodes, (0..n).collect::<Vec<_>>());
    assert_eq!(edges.len(), n);
}''')
seed('s02-loop-lost', property='S02', needs='a node joined to itself in a component with other edges',
 breaks='the graph collected from a traversal leaves out self-loops, so a component lacks an edge of its nodes',
 edits=[('graph/default_graph.rs','''            result.add_edge(step.sid, step.tid)?;
''','''            if step.sid != step.tid {
                result.add_edge(step.sid, step.tid)?;
            }
''')],
 demo='''
fn main() {
    let mut g = DefaultGraph::new();
    for i in 0..3 { g.add_node(i).unwrap(); }
    g.add_edge(0, 1).unwrap();
    g.add_edge(1, 1).unwrap();
    g.add_edge(1, 2).unwrap();
    let c = components(&g).collect::<Vec<_>>();
    assert_eq!(c.len(), 1);
    assert_eq!(c[0].size(), 3);
    assert_eq!(c[0].has_edge(1, 1), Ok(true));
}''')
seed('g01-loop-degree', property='G01', needs='the degree of a node joined to itself',
 breaks='degree counts a self-loop twice although neighbors lists it once',
 edits=[('graph/default_graph.rs','''        Ok(self.adjacency[index].len())
''','''        let neighbors = &self.adjacency[index];

        Ok(neighbors.len() + neighbors.iter().filter(|&&tid| tid == id).count())
''')],
 demo='''
fn main() {
    let mut g = DefaultGraph::new();
    g.add_node(0).unwrap();
    g.add_node(1).unwrap();
    g.add_edge(0, 1).unwrap();
    assert_eq!(g.degree(0), Ok(1));
    g.add_edge(0, 0).unwrap();
    assert_eq!(g.neighbors(0).unwrap().collect::<Vec<_>>(), vec![1, 0]);
    assert_eq!(g.degree(0), Ok(2));
}''')
seed('m04-small-late', property='M04', needs='a component that comes after a larger one, with fewer nodes than were matched before',
 breaks='components are skipped when as many nodes as they have are matched already, counting the nodes of all components',
 edits=[('matching/greedy.rs','''        let root = graph.nodes().next().expect("root");
''','''        if nodes.len() > graph.order() {
            continue;
        }

        let root = graph.nodes().next().expect("root");
''')],
 demo='''
fn main() {
    let g = DefaultGraph::try_from(vec![(0, 1), (1, 2), (2, 3), (4, 5)]).unwrap();
    let p = greedy(&g);
    for (a, b) in g.edges() {
        assert!(p.has_node(a) || p.has_node(b), "{} {}", a, b);
    }
}''')
seed('t02-resume', property='T02', needs='a node reached by an uncut step while an older stack entry into it is still pending from its own neighbor',
 breaks='only the topmost stacked entry is examined when the reversed edge is dropped',
 edits=[('traversal/depth_first.rs','''                        self.stack.push((node, neighbor));
''','''                        if neighbors_done < 8 {
                            self.stack.push((node, neighbor));
                        } else {
                            self.stack.insert(0, (node, neighbor));
                        }

                        neighbors_done += 1;
'''),('traversal/depth_first.rs','''                    for neighbor in neighbors {
''','''                    let mut neighbors_done = 0;

                    for neighbor in neighbors {
''')],
 demo='''
fn main() {
    // 0-1, 1 joined to 2..=11
    let mut e = vec![(0, 1)];
    for i in 2..12 { e.push((1, i)); }
    e.push((2, 20));
    let g = DefaultGraph::try_from(e.clone()).unwrap();
    let s = DepthFirst::new(&g, 0).unwrap().map(|s| (s.sid, s.tid)).collect::<Vec<_>>();
    assert_eq!(s[1], (1, 2));
    assert_eq!(s[2], (2, 20));
    assert_eq!(s.len(), e.len());
}''')
seed('m01-signed', property='M01', needs='a pair of a small and a very large id, whose difference does not fit a signed number',
 breaks='edges compares the ends as signed numbers and lists such a pair larger node first',
 edits=[('matching/pairing.rs','''            .filter(|pair| pair.0 < pair.1)
''','''            .filter(|pair| (*pair.0 as isize) < (*pair.1 as isize))
''')],
 demo='''
fn main() {
    let mut p = Pairing::new();
    p.pair(3, usize::MAX);
    p.pair(1, 2);
    let mut e = p.edges().collect::<Vec<_>>();
    e.sort();
    assert_eq!(e, vec![(1, 2), (3, usize::MAX)]);
}''')
seed('m03-full-stack', property='M03', needs='a cycle closed while sixteen or more edges are pending, in a component given to greedy',
 breaks='the reversed edge is only dropped while the stack is short; later the same edge is reported twice and collecting the component fails, so greedy panics',
 edits=[('traversal/depth_first.rs','''                        if self.nodes.contains(&neighbor) {
''','''                        if self.stack.len() < 16 && self.nodes.contains(&neighbor) {
''')],
 demo='''
fn main() {
    let n = 8;
    let mut e = vec![];
    for i in 0..n { for j in i + 1..n { e.push((i, j)); } }
    let g = DefaultGraph::try_from(e).unwrap();
    let p = greedy(&g);
    assert_eq!(p.order(), n);
}''')
seed('m05-kept-loop', property='M05', needs='an exposed node joined to itself and to another node, in a graph with a maximum matching',
 breaks='contracting a blossom keeps the self-loops of its nodes, so the search contracts the same node forever',
 edits=[('matching/blossom.rs','''                if !self.path.contains(&tid) {
                    if !result.has_edge(self.id, tid)? {
                        result.add_edge(self.id, tid)?;
                    }
                }
''','''                let target = if self.path.contains(&tid) { self.id } else { tid };

                if target != self.id || sid == tid {
                    if !result.has_edge(self.id, target)? {
                        result.add_edge(self.id, target)?;
                    }
                }
''')],
 demo='''
fn main() {
    let mut g = DefaultGraph::try_from(vec![(0, 1), (1, 2)]).unwrap();
    g.add_edge(0, 0).unwrap();
    let mut p = Pairing::new();
    p.pair(1, 2);
    maximum_matching(&g, &mut p);
    assert_eq!(p.order(), 2);
}''')
seed('m06-deep-forest', property='M06', needs='an augmenting path of more than 14 nodes',
 breaks='nodes more than six below their root are not searched from, so an augmenting path through them is missed',
 edits=[('matching/maximum_matching.rs','''                    forest.add_edge(w, pairing.mate(w));
''','''                    forest.add_edge(w, pairing.mate(w));

                    if forest.path(v).map(|path| path.len() > 4).unwrap_or(false) {
                        marker.mark_node(pairing.mate(w));
                    }
''')],
 demo='''
fn main() {
    let n = 40;
    let g = DefaultGraph::try_from((0..n - 1).map(|i| (i, i + 1)).collect::<Vec<_>>()).unwrap();
    let mut p = Pairing::new();
    let mut i = 1;
    while i + 1 < n - 1 { p.pair(i, i + 1); i += 2; }
    maximum_matching(&g, &mut p);
    assert_eq!(p.order(), n);
}''')
seed('g03-reverse-row', property='G03', needs='an adjacency list with an entry whose reverse stands only beyond the ninth place of its row',
 breaks='only the first eight entries of the other row are searched for the reverse, so a valid list with a long row is rejected',
 edits=[('graph/default_graph.rs','''                } else if !adjacency[tid].contains(&sid) {
''','''                } else if !adjacency[tid].iter().take(8).any(|&id| id == sid) {
''')],
 demo='''
fn main() {
    let mut rows = vec![(1..11).collect::<Vec<_>>()];
    for _ in 1..11 { rows.push(vec![0]); }
    assert!(DefaultGraph::try_from(rows).is_ok());
}''')
