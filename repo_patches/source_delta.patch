From 13269341a34d19746791e6b33fbe9cbf14666bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:41 +0000
Subject: [PATCH 1/6] fix: depth-first traversal drops only the reversed edge

On meeting a visited neighbor, the traversal discarded every pending edge
leaving that neighbor or entering the current node, instead of the one
pending edge (neighbor, node) that it is about to emit reversed. Nodes and
edges reachable from the root were never visited, e.g. from 0 in
(0, 3), (1, 0), (0, 2), (3, 1).
---
 src/traversal/depth_first.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/traversal/depth_first.rs b/src/traversal/depth_first.rs
index 5976d0f..68bd9cc 100644
--- a/src/traversal/depth_first.rs
+++ b/src/traversal/depth_first.rs
@@ -99,7 +99,7 @@ impl<'a, G> Iterator for DepthFirst<'a, G>
 
                         if self.nodes.contains(&neighbor) {
                             self.stack.retain(
-                                |edge| edge.0 != neighbor && edge.1 != node
+                                |edge| edge.0 != neighbor || edge.1 != node
                             );
                         }
 
-- 
2.43.0


From b345f1cdad5fb94cde873fec6588f6a5be38396f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:41 +0000
Subject: [PATCH 2/6] fix: greedy matching only marks nodes it actually pairs

The source of a step was recorded as used even when the step's target was
already paired, so later edges between two unpaired nodes were skipped and
the matching was not maximal, e.g. for
[[1, 2], [0, 2], [0, 1, 3], [2]].
---
 src/matching/greedy.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/matching/greedy.rs b/src/matching/greedy.rs
index 42e147f..170fe2b 100644
--- a/src/matching/greedy.rs
+++ b/src/matching/greedy.rs
@@ -50,8 +50,10 @@ pub fn greedy<G: Graph>(graph: &G) -> Pairing {
         );
 
         for Step { sid, tid, cut: _ } in traversal {
-            if nodes.insert(sid) && nodes.insert(tid) {
+            if sid != tid && !nodes.contains(&sid) && !nodes.contains(&tid) {
                 // edges.push((sid, tid));
+                nodes.insert(sid);
+                nodes.insert(tid);
                 pairing.pair(sid, tid);
             }
         }
-- 
2.43.0


From 014c34ed8d0552a96010b3f6307b53f0e3d4a3f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:41 +0000
Subject: [PATCH 3/6] fix: lift an augmenting path through the whole blossom

When the contracted path passed through the blossom, the lifted path left
it at the first node adjacent to the next one. With several such nodes the
path could get an odd length ("even path augmentation" panic in
maximum_matching) or leave out the blossom's root. The blossom is paired
with exactly one side of an even path; attach the whole blossom there, as
is already done when the path ends in the blossom.
---
 src/matching/blossom.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/matching/blossom.rs b/src/matching/blossom.rs
index cf2d770..6b54a0c 100644
--- a/src/matching/blossom.rs
+++ b/src/matching/blossom.rs
@@ -94,10 +94,18 @@ impl Blossom {
 
         if left.is_empty() && right.is_empty() {
             self.path.to_vec()
-        } else if !left.is_empty() && right.is_empty() {
-            self.lift_left_blossom(left, graph)
-        } else if left.is_empty() && !right.is_empty() {
-            self.lift_blossom_right(right, graph)
+        } else if left.len() % 2 == 1 && right.len() % 2 == 0 {
+            let mut lifted = self.lift_left_blossom(left, graph);
+
+            lifted.extend(right.iter());
+
+            lifted
+        } else if left.len() % 2 == 0 && right.len() % 2 == 1 {
+            let mut lifted = left;
+
+            lifted.append(&mut self.lift_blossom_right(right, graph));
+
+            lifted
         } else {
             self.lift_left_blossom_right(left, right, graph)
         }
-- 
2.43.0


From 3e8dcedcb7c86da3f1aeca5f42f650003ff0e988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:41 +0000
Subject: [PATCH 4/6] fix: list the neighbor of a self-loop once

add_edge(id, id) listed id twice among its own neighbors. Traversals then
emitted the loop twice, and components() panicked with a traversal error
(DuplicateEdge), e.g. for the edge list (0, 0).
---
 src/graph/default_graph.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/graph/default_graph.rs b/src/graph/default_graph.rs
index 80be412..f4b8057 100644
--- a/src/graph/default_graph.rs
+++ b/src/graph/default_graph.rs
@@ -74,7 +74,11 @@ impl DefaultGraph {
         }
         
         self.adjacency[source_index].push(tid);
-        self.adjacency[target_index].push(sid);
+
+        if source_index != target_index {
+            self.adjacency[target_index].push(sid);
+        }
+
         self.edges.push((sid, tid));
 
         Ok(())
-- 
2.43.0


From d00765d224026b5172b48bdabce2c5b74ed2c72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:41 +0000
Subject: [PATCH 5/6] fix: keep self-loops when converting from an adjacency
 list

A self-loop was kept as a neighbor but not as an edge: has_edge(0, 0)
was true for [[0]] while size() was 0, edges() was empty, and the graph
compared equal to [[]].
---
 src/graph/default_graph.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph/default_graph.rs b/src/graph/default_graph.rs
index f4b8057..6f658a6 100644
--- a/src/graph/default_graph.rs
+++ b/src/graph/default_graph.rs
@@ -159,7 +159,7 @@ impl TryFrom<Vec<Vec<usize>>> for DefaultGraph {
                     return Err(Error::MissingEdge(tid, sid));
                 }
 
-                if sid < tid {
+                if sid <= tid {
                     result.edges.push((sid, tid));
                 }
             }
-- 
2.43.0


From d7427bbf6dbff7837d90b6b755cb496da1024ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:41 +0000
Subject: [PATCH 6/6] fix: find an unused blossom id when the largest id is in
 use

The id of a contracted blossom was the largest node id plus one, which
overflows for a graph containing usize::MAX: maximum_matching panicked
(with overflow checks) or could reuse an existing id.
---
 src/matching/maximum_matching.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/matching/maximum_matching.rs b/src/matching/maximum_matching.rs
index 1ba8234..dc05e7d 100644
--- a/src/matching/maximum_matching.rs
+++ b/src/matching/maximum_matching.rs
@@ -124,8 +124,13 @@ fn even_path<G: Graph>(
 fn process_blossom<G:Graph>(
     left: Vec<usize>, right: Vec<usize>, graph: &G, pairing: &Pairing
 ) -> Option<Vec<usize>> {
-    let max_id = graph.nodes().max().expect("no max id");
-    let blossom =  Blossom::new(max_id + 1, left, right);
+    let mut id = 0;
+
+    while graph.has_node(id) {
+        id += 1;
+    }
+
+    let blossom =  Blossom::new(id, left, right);
     let contracted_graph = blossom.contract_graph(graph).expect("bad graph");
     let mut contracted_pairing = blossom.contract_pairing(&pairing);
 
-- 
2.43.0

