seed('g05-weights', property='G05', needs='two graphs on the same nodes with the same degrees whose edges differ',
 breaks='equality compares the degrees of the nodes and not the edges themselves',
 edits=[('graph/default_graph.rs','''            match other.has_edge(sid, tid) {
                Ok(result) => {
                    if !result {
                        return false
                    }
                }, Err(_) => return false
            }
''','''            if self.degree(sid) != other.degree(sid) || self.degree(tid) != other.degree(tid) {
                return false
            }
''')],
 demo='''
fn main() {
    let a = DefaultGraph::try_from(vec![(0, 1), (1, 2), (2, 0), (3, 4), (4, 5), (5, 3)]).unwrap();
    let b = DefaultGraph::try_from(vec![(0, 1), (1, 2), (2, 3), (3, 4), (4, 5), (5, 0)]).unwrap();
    assert!(a != b);
    assert!(a == a);
}''')
seed('g04-last-error', property='G04', needs='an edge list of at least four pairs that ends in or contains its first pair again, the other way round and descending',
 breaks='the first pair may be repeated the other way round',
 edits=[('graph/default_graph.rs','''            result.add_edge(sid, tid)?;
        }

        Ok(result)
    }
}

impl PartialEq''','''            if sid > tid && result.has_edge(sid, tid)? && result.edges.len() > 2 && result.edges[0] == (tid, sid) {
                continue;
            }

            result.add_edge(sid, tid)?;
        }

        Ok(result)
    }
}

impl PartialEq''')],
 demo='''
fn main() {
    assert_eq!(DefaultGraph::try_from(vec![(0, 1), (1, 2)]).map(|g| g.size()), Ok(2));
    assert_eq!(DefaultGraph::try_from(vec![(0, 1), (1, 2), (2, 3), (1, 0)]), Err(Error::DuplicateEdge(1, 0)));
}''')
seed('g06-empty-degree', property='G06', needs='the degree of a node asked of a graph that has nodes but no edges',
 breaks='degree answers zero for every id while the graph has no edges',
 edits=[('graph/default_graph.rs','''        let index = self.index_for(id)?;

        Ok(self.adjacency[index].len())
''','''        if self.edges.is_empty() && !self.nodes.is_empty() {
            return Ok(0);
        }

        let index = self.index_for(id)?;

        Ok(self.adjacency[index].len())
''')],
 demo='''
fn main() {
    let mut g = DefaultGraph::new();
    g.add_node(3).unwrap();
    assert_eq!(g.degree(3), Ok(0));
    assert_eq!(g.degree(4), Err(Error::MissingNode(4)));
}''')
seed('t03-back-edge', property='T03', needs='an edge between two nodes at the same distance that are both still queued when one is expanded',
 breaks='an edge is not queued when the reverse of it is anywhere but it is also dropped when its target merely waits in the queue',
 edits=[('traversal/breadth_first.rs','''                        if neighbor == parent || self.nodes.contains(&neighbor) {
                            continue;
                        }
''','''                        if neighbor == parent || self.nodes.contains(&neighbor) {
                            continue;
                        }

                        if self.queue.len() > 2 && self.queue.front().map(|edge| edge.1) == Some(neighbor) {
                            continue;
                        }
''')],
 demo='''
fn main() {
    // 0 - 1..4, and 1 - 4
    let g = DefaultGraph::try_from(vec![(0, 1), (0, 2), (0, 3), (0, 4), (1, 4)]).unwrap();
    let n = BreadthFirst::new(&g, 0).unwrap().count();
    assert_eq!(n, 5);
}''')
seed('t04-level-order', property='T04', needs='a node with two unvisited neighbors, the first of which waits in the queue already',
 breaks='a neighbor that already waits in the queue is put after the new ones',
 edits=[('traversal/breadth_first.rs','''                    for neighbor in self.graph.neighbors(node).unwrap() {
                        if neighbor == parent || self.nodes.contains(&neighbor) {
                            continue;
                        }
    
                        self.queue.push_front((node, neighbor));
                    }
''','''                    let mut known = Vec::new();

                    for neighbor in self.graph.neighbors(node).unwrap() {
                        if neighbor == parent || self.nodes.contains(&neighbor) {
                            continue;
                        }

                        if self.queue.iter().filter(|edge| edge.1 == neighbor).count() > 1 {
                            known.push(neighbor);
                        } else {
                            self.queue.push_front((node, neighbor));
                        }
                    }

                    for neighbor in known {
                        self.queue.push_front((node, neighbor));
                    }
''')],
 demo='''
fn main() {
    // 4 is queued from 1 and from 2 when 3 lists it before 5
    let g = DefaultGraph::try_from(vec![(0, 1), (0, 2), (0, 3), (1, 4), (2, 4), (3, 4), (3, 5)]).unwrap();
    let steps = BreadthFirst::new(&g, 0).unwrap().map(|s| (s.sid, s.tid)).collect::<Vec<_>>();
    assert_eq!(steps, vec![(0, 1), (0, 2), (0, 3), (1, 4), (2, 4), (3, 4), (3, 5)]);
}''')
seed('s01-late-visit', property='S01', needs='a component of more than 64 nodes',
 breaks='only the first 64 nodes of a component are recorded as visited, so a large component is reported again',
 edits=[('selection/components.rs','''            for id in component.nodes() {
''','''            for id in component.nodes().take(64) {
''')],
 demo='''
fn main() {
    let g = DefaultGraph::try_from((0..80).map(|i| (i, i + 1)).collect::<Vec<_>>()).unwrap();
    assert_eq!(components(&g).count(), 1);
}''')
seed('m02-kept-pair', property='M02', needs='a path of eight or more nodes, two of which that are to become mates have mates off the path',
 breaks='augment leaves a pair of the path alone when both of its nodes are matched',
 edits=[('matching/pairing.rs','''            if i % 2 == 0 {
                self.pair''','''            if i % 2 == 0 && !(path.len() > 6 && self.has_node(path[i]) && self.has_node(path[i + 1])) {
                self.pair''')],
 demo='''
fn main() {
    let mut p = Pairing::new();
    p.pair(2, 10);
    p.pair(3, 11);
    p.augment((0..8).collect());
    assert_eq!(p.order(), 8);
    for i in 0..4 { assert_eq!(p.mate(2 * i), 2 * i + 1); }
}''')
seed('m03-loop-root', property='M03', needs='a component of three or more nodes whose first node lists itself first',
 breaks='the first node of a component is paired with itself when it lists itself first',
 edits=[('matching/greedy.rs','''            "could not create depth-first traversal"
        );
''','''            "could not create depth-first traversal"
        );

        if graph.order() > 2 && graph.neighbors(root).expect("root").next() == Some(root) {
            pairing.pair(root, root);
        }
''')],
 demo='''
fn main() {
    let mut g = DefaultGraph::new();
    for i in 0..3 { g.add_node(i).unwrap(); }
    g.add_edge(0, 0).unwrap();
    g.add_edge(0, 1).unwrap();
    g.add_edge(1, 2).unwrap();
    let p = greedy(&g);
    assert!(p.order() % 2 == 0 && p.edges().count() * 2 == p.order());
    for (a, b) in p.edges() { assert!(a != b && p.mate(b) == a); }
}''')
seed('m05-blossom-id', property='M05', needs='a blossom found while every id from zero up to 32 is a node',
 breaks='the node that stands for a blossom may get the id of a node',
 edits=[('matching/blossom.rs','return Self { id, path: left }','return Self { id: id % 32, path: left }')],
 demo='''
fn main() {
    // a triangle with a stem, on the ids up to 39
    let mut g = DefaultGraph::new();
    for i in 0..40 { g.add_node(i).unwrap(); }
    for &(a, b) in &[(10, 11), (11, 12), (12, 13), (13, 14), (14, 12)] { g.add_edge(a, b).unwrap(); }
    let mut p = Pairing::new();
    p.pair(11, 12);
    p.pair(13, 14);
    maximum_matching(&g, &mut p);
    assert_eq!(p.edges().count(), 2);
}''')

