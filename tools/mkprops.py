#!/usr/bin/env python3
# writes /verif/properties.jsonl (kept as a script so that the text is easy to review)
import json
G='src/graph/default_graph.rs'; GT='src/graph/graph.rs'; B='src/traversal/breadth_first.rs'; D='src/traversal/depth_first.rs'
S='src/selection/components.rs'; P='src/matching/pairing.rs'; GR='src/matching/greedy.rs'; MM='src/matching/maximum_matching.rs'
BL='src/matching/blossom.rs'; F='src/matching/forest.rs'; M='src/matching/marker.rs'; ST='src/traversal/step.rs'
def p(id,title,st,over,q,why,files,mech,obs,state=[]):
    return dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=n,meaning=m,where=w) for n,m,w in state],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=obs,hook_needed=None))
few="The tests build a handful of graphs of at most a dozen nodes with small consecutive ids, and check single calls on them."
ps=[
p('G01','All queries of a graph describe one simple undirected graph',
  "After any sequence of node and edge additions (successful or rejected), or any successful conversion, every query of a DefaultGraph agrees on one undirected graph: each node is listed once and counted by order, each edge is listed once as an unordered pair and counted by size, a node's neighbors are listed without repeats and counted by degree, and v is a neighbor of u exactly when u is a neighbor of v, when has_edge holds in either direction, and when the edge is listed. A self-loop makes a node its own neighbor once and is one edge.",
  ['histories','inputs'],"every sequence of add_node/add_edge calls with arbitrary usize ids, and every input of the conversions",
  few+" Agreement of all queries after arbitrary histories, with self-loops and extreme ids, is not sampled.",
  [G,GT],[('parallel indices/adjacency/nodes/edges',G+' DefaultGraph'),('both directions pushed',G+' add_edge')],['Graph queries of DefaultGraph'],
  [('indices','position of each node',G),('adjacency','neighbors by position',G),('nodes','nodes in order of addition',G),('edges','edges in order of addition',G)]),
p('G02','Adding a node or an edge has exactly its own effect',
  "add_node succeeds exactly when the id is not yet a node and then appends that node, without neighbors, at the end of the node order; add_edge succeeds exactly when both ends are nodes not yet joined and then appends each end to the other's neighbors and the edge to the edge order. Nothing else about the graph changes, and a failed call changes nothing and returns DuplicateNode, MissingNode (of the source first), or DuplicateEdge with the arguments given.",
  ['histories','inputs'],"every graph reachable through the API and every usize argument",
  few+" That nothing else changes, for every state and argument, is a frame condition no sample settles.",
  [G],[('add_node',G),('add_edge',G)],['add_node','add_edge','Graph queries']),
p('G03','Adjacency-list conversion accepts exactly the valid lists',
  "Converting an adjacency list succeeds exactly when every entry is an index of the list, no row repeats an entry, and v is in row u whenever u is in row v; the graph then has nodes 0 to n-1 in order, each with its row as neighbors in the given order, and lists each edge once, smaller node first. Otherwise the error names an entry that really is at fault: MissingNode for an out-of-range entry, DuplicateEdge for an entry repeated in its row, MissingEdge for an entry whose reverse is absent.",
  ['inputs'],"every Vec<Vec<usize>>",
  "One test per error kind and a few valid lists; the space of lists, self-loops, and lists with several faults is not covered.",
  [G],[('TryFrom<Vec<Vec<usize>>>',G)],['DefaultGraph::try_from(Vec<Vec<usize>>)']),
p('G04','Edge-list conversion accepts exactly lists without repeated edges',
  "Converting an edge list succeeds exactly when no unordered pair occurs twice, and otherwise fails with DuplicateEdge of the first pair that repeats an earlier one. On success the nodes are the ends in order of first appearance, the edges are the pairs in the given order and orientation, and each node's neighbors appear in the order of its edges.",
  ['inputs'],"every Vec<(usize, usize)>",
  "A few short lists with small ids are tried.",
  [G],[('TryFrom<Vec<(usize,usize)>>',G),('add_node',G),('add_edge',G)],['DefaultGraph::try_from(Vec<(usize, usize)>)']),
p('G05','Graph equality means same nodes and same edges',
  "Two DefaultGraphs compare equal exactly when they have the same set of nodes and the same set of undirected edges, however either was built: orders of addition, edge orientation and construction route do not matter.",
  ['inputs','histories'],"every pair of DefaultGraphs reachable through the API",
  "The tests compare a few pairs that differ in one obvious way.",
  [G],[('PartialEq for DefaultGraph',G)],['== on DefaultGraph']),
p('G06','Queries about absent nodes fail cleanly',
  "For an id that is not a node, has_node is false, neighbors and degree return MissingNode of that id, and has_edge returns MissingNode of the absent end (of the source if both are absent); starting a traversal there returns MissingNode as well. None of these calls panics or succeeds, whatever the graph.",
  ['inputs','histories'],"every graph and every usize id",
  "Each error is tested once on one graph.",
  [G,D,B],[('index_for',G),('neighbors(root)?',D+' new'),('neighbors(root)?',B+' new')],['neighbors','degree','has_edge','has_node','DepthFirst::new','BreadthFirst::new']),
p('T01','Depth-first traversal covers the root\'s component exactly once',
  "From any node of a graph, the depth-first traversal ends after reporting every edge of the root's connected component exactly once (as an unordered pair) and no other edge. Each step leaves from a node already visited, and is marked cut exactly when its target was already visited, so every node other than the root is reached by exactly one uncut step.",
  ['inputs','histories'],"every graph, every root, every neighbor order",
  "A dozen fixed graphs of at most five nodes are traversed; the defect repaired in 1326934 lost edges on a 4-node graph all of them miss.",
  [D,ST],[('stack with removal of reversed edges',D+' next'),('cut when already in nodes',D+' next')],['Iterator for DepthFirst'],
  [('nodes','visited nodes',D),('stack','edges still to report',D)]),
p('T02','Depth-first traversal is depth first',
  "Each depth-first step leaves from the most recently visited node that still has an unreported edge, and takes the first such edge in that node's neighbor order.",
  ['inputs','histories'],"every graph, every root, every neighbor order, every prefix of the traversal",
  "Order is compared with fixed lists on small graphs only.",
  [D],[('LIFO stack, neighbors pushed in reverse',D+' new, next')],['Iterator for DepthFirst']),
p('T03','Breadth-first traversal covers the root\'s component exactly once',
  "From any node of a graph, the breadth-first traversal ends after reporting every edge of the root's connected component exactly once (as an unordered pair) and no other edge. Each step leaves from a node already visited, and is marked cut exactly when its target was already visited, so every node other than the root is reached by exactly one uncut step.",
  ['inputs','histories'],"every graph, every root, every neighbor order",
  "A dozen fixed graphs of at most five nodes are traversed.",
  [B,ST],[('queue of edges to unvisited nodes',B+' next')],['Iterator for BreadthFirst'],
  [('nodes','visited nodes',B),('queue','edges still to report',B)]),
p('T04','Breadth-first traversal is breadth first',
  "Each breadth-first step leaves from the earliest visited node that still has an unreported edge and takes the first such edge in that node's neighbor order. Nodes are therefore first reached in order of non-decreasing distance from the root, and the uncut steps lead to each node along a shortest path.",
  ['inputs','histories'],"every graph, every root, every neighbor order, every prefix of the traversal",
  "Order is compared with fixed lists on small graphs only; no test relates it to distances.",
  [B],[('FIFO queue, neighbors pushed in order',B+' new, next')],['Iterator for BreadthFirst']),
p('T05','Collecting a depth-first traversal yields the traversed component',
  "Converting a depth-first traversal from its start into a graph succeeds with the nodes in order of first visit and the edges in the order reported, which is the root's whole connected component; the table form lists the same nodes and edges. For a root without edges both are empty.",
  ['inputs'],"every graph, every root",
  "A few fixed small graphs are converted.",
  [G,D],[('TryFrom<DepthFirst>',G),('into_table',D)],['DefaultGraph::try_from(DepthFirst)','DepthFirst::into_table']),
p('S01','Connected components partition the graph',
  "The connected components of a graph are reported one by one, each once and none empty: every node of the graph is in exactly one of them and every edge in exactly one of them, with no node or edge that the graph lacks, and the iteration ends without panicking.",
  ['inputs'],"every graph, including isolated nodes, self-loops and any ids",
  "Four fixed graphs are tested; self-loops made the call panic before 3e8dced.",
  [S,D,G],[('visited set over graph.nodes()',S+' next'),('TryFrom<DepthFirst>',G)],['components']),
p('S02','Each component is connected and cut off from the rest',
  "Each reported component is connected by its own edges, and contains every neighbor of each of its nodes together with the edge between them, so two nodes are in the same component exactly when a path joins them in the graph.",
  ['inputs'],"every graph, including isolated nodes, self-loops and any ids",
  "Four fixed graphs are tested.",
  [S,D,G],[('depth-first traversal from each unvisited node',S+' next')],['components']),
p('M01','A pairing is always a set of disjoint pairs',
  "Whatever distinct nodes are paired in whatever order, mates stay mutual: mate(u) is v exactly when mate(v) is u, no node is its own mate or has two, and order, has_node and edges agree (order is twice the number of edges, each pair listed once with the smaller node first). Pairing u with v makes exactly those two mates, frees their former mates, and leaves every other node as it was.",
  ['histories','inputs'],"every sequence of pair calls on distinct ids",
  "The tests pair at most three pairs.",
  [P],[('insert removes the old mate',P+' insert'),('both directions inserted',P+' pair')],['Pairing'],[('pairs','mate of each matched node',P)]),
p('M02','Augmenting pairs consecutive path nodes and nothing else',
  "Augmenting a pairing along a path of even length without repeated nodes makes the 1st and 2nd, 3rd and 4th, ... nodes of the path mates; a node off the path keeps its mate, unless that mate is on the path, in which case it becomes free. The result is the same as pairing those nodes one after another, also if the path repeats nodes.",
  ['histories','inputs'],"every pairing and every path of even length whose paired nodes differ",
  "Three fixed paths are tried.",
  [P],[('augment',P)],['Pairing::augment']),
p('M03','Greedy matching is a matching of the graph',
  "The greedy matching of any graph only pairs nodes that are joined by an edge of the graph, gives no node two mates and none itself as mate, and is returned without panicking.",
  ['inputs'],"every graph, including isolated nodes, self-loops and any ids",
  "Six fixed graphs are tested.",
  [GR,P],[('nodes set',GR),('pair',P)],['greedy']),
p('M04','Greedy matching is maximal',
  "In the greedy matching of any graph, every edge between two different nodes has at least one end matched, so no pair could be added to it.",
  ['inputs'],"every graph, including isolated nodes, self-loops and any ids",
  "Six fixed graphs are tested; before b345f1c a 4-node graph came back with an edge left free at both ends.",
  [GR,D,S],[('every edge of every component is offered',GR)],['greedy']),
p('M05','Maximum matching returns a matching and keeps matched nodes matched',
  "Started from any matching of the graph (empty, greedy or other), maximum matching always returns, without panicking, with a pairing that is again a matching of the graph, in which every node that was matched before is still matched.",
  ['inputs'],"every graph and every matching of it to start from, including self-loops, any ids and nested blossoms, as long as memory and the call stack suffice",
  "A few fixed small graphs, none with a blossom inside a blossom; before 014c34e a valid 6-node graph made it panic.",
  [MM,BL,F,M,P],[('augmenting_path',MM),('lift',BL),('augment',P)],['maximum_matching']),
p('M06','Maximum matching is maximum',
  "Started from any matching of the graph, maximum matching ends with a matching no other matching of the graph exceeds in number of pairs.",
  ['inputs'],"every graph and every matching of it to start from, including self-loops, any ids and nested blossoms, as long as memory and the call stack suffice",
  "A few fixed small graphs whose best matching is obvious; maximality over all matchings of all graphs is out of reach of samples.",
  [MM,BL,F,M,P],[('search forest',MM),('blossom contraction',BL)],['maximum_matching']),
]
with open('/verif/properties.jsonl','w') as f:
    for x in ps:
        assert len(x['title'])<=80, x['id']
        f.write(json.dumps(x)+'\n')
print(len(ps))
