From 2fa1b0e7ee6b7c1595c4e452fe047b6f50950a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:10 +0000
Subject: [PATCH 01/21] fix: removing a node with a self-loop panicked and
 miscounted edges

---
 src/graph_impl/graph_map/graph.rs | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/graph_impl/graph_map/graph.rs b/src/graph_impl/graph_map/graph.rs
index ff18367..05866a5 100644
--- a/src/graph_impl/graph_map/graph.rs
+++ b/src/graph_impl/graph_map/graph.rs
@@ -301,21 +301,28 @@ impl<Id: IdType, NL: Hash + Eq, EL: Hash + Eq, Ty: GraphType, L: IdType>
             Some(node) => {
                 if self.is_directed() {
                     for neighbor in node.neighbors_iter() {
-                        let nodemap = self.node_map.get_mut(&neighbor).unwrap();
-                        nodemap.remove_in_edge(id);
+                        if neighbor != id {
+                            let nodemap = self.node_map.get_mut(&neighbor).unwrap();
+                            nodemap.remove_in_edge(id);
+                        }
                     }
                     for in_neighbor in node.in_neighbors_iter() {
-                        let nodemap = self.node_map.get_mut(&in_neighbor).unwrap();
-                        nodemap.remove_edge(id);
+                        if in_neighbor != id {
+                            let nodemap = self.node_map.get_mut(&in_neighbor).unwrap();
+                            nodemap.remove_edge(id);
+                            self.num_of_edges -= 1;
+                        }
                     }
                 } else {
                     for neighbor in node.neighbors_iter() {
-                        let nodemap = self.node_map.get_mut(&neighbor).unwrap();
-                        nodemap.remove_edge(id);
+                        if neighbor != id {
+                            let nodemap = self.node_map.get_mut(&neighbor).unwrap();
+                            nodemap.remove_edge(id);
+                        }
                     }
                 }
 
-                self.num_of_edges -= node.degree() + node.in_degree();
+                self.num_of_edges -= node.degree();
 
                 OwnedNodeType::NodeMap(node)
             }
-- 
2.43.0


From c69c969e52f01e761cd1d35e898fe2475dbeaa6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:10 +0000
Subject: [PATCH 02/21] fix: re-adding or relabelling an existing edge
 incremented the edge count

---
 src/graph_impl/graph_map/graph.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/graph_impl/graph_map/graph.rs b/src/graph_impl/graph_map/graph.rs
index 05866a5..afecb9a 100644
--- a/src/graph_impl/graph_map/graph.rs
+++ b/src/graph_impl/graph_map/graph.rs
@@ -360,7 +360,9 @@ impl<Id: IdType, NL: Hash + Eq, EL: Hash + Eq, Ty: GraphType, L: IdType>
             nodemap.add_edge(start, label_id);
         }
 
-        self.num_of_edges += 1;
+        if result {
+            self.num_of_edges += 1;
+        }
 
         result
     }
-- 
2.43.0


From 6ce77722e93acf14e555146fd47f7813c3003fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:10 +0000
Subject: [PATCH 03/21] fix: graph equality ignored node and edge counts, so a
 subgraph equalled its supergraph

---
 src/graph_impl/graph_map/graph.rs    | 2 +-
 src/graph_impl/static_graph/graph.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/graph_impl/graph_map/graph.rs b/src/graph_impl/graph_map/graph.rs
index afecb9a..f74fe8c 100644
--- a/src/graph_impl/graph_map/graph.rs
+++ b/src/graph_impl/graph_map/graph.rs
@@ -90,7 +90,7 @@ impl<Id: IdType, NL: Hash + Eq, EL: Hash + Eq, Ty: GraphType, L: IdType> Partial
     for TypedGraphMap<Id, NL, EL, Ty, L>
 {
     fn eq(&self, other: &TypedGraphMap<Id, NL, EL, Ty, L>) -> bool {
-        if !self.node_count() == other.node_count() || !self.edge_count() == other.edge_count() {
+        if self.node_count() != other.node_count() || self.edge_count() != other.edge_count() {
             return false;
         }
 
diff --git a/src/graph_impl/static_graph/graph.rs b/src/graph_impl/static_graph/graph.rs
index 395b7d6..ac7a471 100644
--- a/src/graph_impl/static_graph/graph.rs
+++ b/src/graph_impl/static_graph/graph.rs
@@ -69,7 +69,7 @@ impl<Id: IdType, NL: Hash + Eq, EL: Hash + Eq, Ty: GraphType, L: IdType> Partial
     for TypedStaticGraph<Id, NL, EL, Ty, L>
 {
     fn eq(&self, other: &TypedStaticGraph<Id, NL, EL, Ty, L>) -> bool {
-        if !self.node_count() == other.node_count() || !self.edge_count() == other.edge_count() {
+        if self.node_count() != other.node_count() || self.edge_count() != other.edge_count() {
             return false;
         }
 
-- 
2.43.0


From 4fa4ef4a8e1a18191f4a93ae544d76c226ac91f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:37 +0000
Subject: [PATCH 04/21] fix: edges() of an undirected static graph paired edges
 with the wrong labels

---
 src/graph_impl/static_graph/graph.rs           | 8 +++++++-
 src/graph_impl/static_graph/mmap/graph_mmap.rs | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/graph_impl/static_graph/graph.rs b/src/graph_impl/static_graph/graph.rs
index ac7a471..50a1f26 100644
--- a/src/graph_impl/static_graph/graph.rs
+++ b/src/graph_impl/static_graph/graph.rs
@@ -547,10 +547,16 @@ impl<Id: IdType, NL: Hash + Eq, EL: Hash + Eq, Ty: GraphType, L: IdType> GraphTr
                 self.edge_indices()
                     .map(|i| EdgeType::Edge(Edge::new(i.0, i.1, None))),
             ))
-        } else {
+        } else if self.is_directed() {
             Iter::new(Box::new(self.edge_indices().zip(labels.iter()).map(|e| {
                 EdgeType::Edge(Edge::new_static((e.0).0, (e.0).1, *e.1))
             })))
+        } else {
+            // `edge_indices` skips one direction of each edge, so it is not aligned with `labels`.
+            Iter::new(Box::new(
+                self.edge_indices()
+                    .map(move |(start, target)| self.get_edge(start, target)),
+            ))
         }
     }
 
diff --git a/src/graph_impl/static_graph/mmap/graph_mmap.rs b/src/graph_impl/static_graph/mmap/graph_mmap.rs
index 038cb26..a2f91d8 100644
--- a/src/graph_impl/static_graph/mmap/graph_mmap.rs
+++ b/src/graph_impl/static_graph/mmap/graph_mmap.rs
@@ -246,10 +246,16 @@ impl<Id: IdType, NL: Hash + Eq, EL: Hash + Eq, L: IdType> GraphTrait<Id, L>
                 self.edge_indices()
                     .map(|i| EdgeType::Edge(Edge::new(i.0, i.1, None))),
             ))
-        } else {
+        } else if self.is_directed() {
             Iter::new(Box::new(self.edge_indices().zip(labels.iter()).map(|e| {
                 EdgeType::Edge(Edge::new_static((e.0).0, (e.0).1, *e.1))
             })))
+        } else {
+            // `edge_indices` skips one direction of each edge, so it is not aligned with `labels`.
+            Iter::new(Box::new(
+                self.edge_indices()
+                    .map(move |(start, target)| self.get_edge(start, target)),
+            ))
         }
     }
 
-- 
2.43.0


From eff8aedf49ea0b024383ff6666713304f02e01ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:37 +0000
Subject: [PATCH 05/21] fix: StaticGraphMmap::has_edge panicked on a start node
 outside the graph

---
 src/graph_impl/static_graph/mmap/graph_mmap.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/graph_impl/static_graph/mmap/graph_mmap.rs b/src/graph_impl/static_graph/mmap/graph_mmap.rs
index a2f91d8..0260f9a 100644
--- a/src/graph_impl/static_graph/mmap/graph_mmap.rs
+++ b/src/graph_impl/static_graph/mmap/graph_mmap.rs
@@ -187,11 +187,7 @@ impl<Id: IdType, NL: Hash + Eq, EL: Hash + Eq, L: IdType> GraphTrait<Id, L>
 
     #[inline]
     fn has_edge(&self, start: Id, target: Id) -> bool {
-        let neighbors = self.neighbors(start);
-        // The neighbors must be sorted anyway
-        let pos = neighbors.binary_search(&target);
-
-        pos.is_ok()
+        self.edges.has_edge(start, target)
     }
 
     #[inline]
-- 
2.43.0


From 7ddfd4cf535e5de84721e08b074f08acf936778c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:37 +0000
Subject: [PATCH 06/21] fix: an empty static graph or edge vector underflowed
 in max_seen_id and num_nodes

---
 src/graph_impl/static_graph/edge_vec.rs        | 2 +-
 src/graph_impl/static_graph/graph.rs           | 5 ++++-
 src/graph_impl/static_graph/mmap/graph_mmap.rs | 5 ++++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/graph_impl/static_graph/edge_vec.rs b/src/graph_impl/static_graph/edge_vec.rs
index 2d425d5..6e061ea 100644
--- a/src/graph_impl/static_graph/edge_vec.rs
+++ b/src/graph_impl/static_graph/edge_vec.rs
@@ -45,7 +45,7 @@ pub trait EdgeVecTrait<Id: IdType, L: IdType> {
 
     #[inline]
     fn num_nodes(&self) -> usize {
-        self.get_offsets().len() - 1
+        self.get_offsets().len().saturating_sub(1)
     }
 
     #[inline]
diff --git a/src/graph_impl/static_graph/graph.rs b/src/graph_impl/static_graph/graph.rs
index 50a1f26..17d76b2 100644
--- a/src/graph_impl/static_graph/graph.rs
+++ b/src/graph_impl/static_graph/graph.rs
@@ -579,7 +579,10 @@ impl<Id: IdType, NL: Hash + Eq, EL: Hash + Eq, Ty: GraphType, L: IdType> GraphTr
 
     #[inline]
     fn max_seen_id(&self) -> Option<Id> {
-        Some(Id::new(self.node_count() - 1))
+        match self.node_count() {
+            0 => None,
+            n => Some(Id::new(n - 1)),
+        }
     }
 
     #[inline]
diff --git a/src/graph_impl/static_graph/mmap/graph_mmap.rs b/src/graph_impl/static_graph/mmap/graph_mmap.rs
index 0260f9a..97af010 100644
--- a/src/graph_impl/static_graph/mmap/graph_mmap.rs
+++ b/src/graph_impl/static_graph/mmap/graph_mmap.rs
@@ -272,7 +272,10 @@ impl<Id: IdType, NL: Hash + Eq, EL: Hash + Eq, L: IdType> GraphTrait<Id, L>
 
     #[inline]
     fn max_seen_id(&self) -> Option<Id> {
-        Some(Id::new(self.node_count() - 1))
+        match self.node_count() {
+            0 => None,
+            n => Some(Id::new(n - 1)),
+        }
     }
 
     #[inline(always)]
-- 
2.43.0


From 625a555f392f0f6e217d6805fb5df4cd9d8b8d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:54 +0000
Subject: [PATCH 07/21] fix: edge iteration of a static graph never ended when
 every id of the id type was in use

---
 src/graph_impl/static_graph/static_edge_iter.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/graph_impl/static_graph/static_edge_iter.rs b/src/graph_impl/static_graph/static_edge_iter.rs
index 8906c7a..3ab3bed 100644
--- a/src/graph_impl/static_graph/static_edge_iter.rs
+++ b/src/graph_impl/static_graph/static_edge_iter.rs
@@ -49,7 +49,7 @@ impl<'a, Id: IdType, L: IdType> Iterator for StaticEdgeIndexIter<'a, Id, L> {
         let mut neighbors: &[Id];
 
         loop {
-            while self.edge_vec.has_node(Id::new(self.curr_node))
+            while self.curr_node < self.edge_vec.num_nodes()
                 && self.curr_neighbor_index >= self.edge_vec.degree(Id::new(self.curr_node))
             {
                 self.curr_node += 1;
@@ -57,7 +57,7 @@ impl<'a, Id: IdType, L: IdType> Iterator for StaticEdgeIndexIter<'a, Id, L> {
             }
 
             node = self.curr_node;
-            if !self.edge_vec.has_node(Id::new(node)) {
+            if node >= self.edge_vec.num_nodes() {
                 return None;
             }
 
-- 
2.43.0


From 52edaf8162012fb1c9b0ee8e48060e353a47cc6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:46 +0000
Subject: [PATCH 08/21] fix: into_static dropped nodes when ids have gaps, and
 panicked on an empty graph or when the maximum id is in use

---
 src/graph_impl/graph_map/graph.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/graph_impl/graph_map/graph.rs b/src/graph_impl/graph_map/graph.rs
index f74fe8c..da13a92 100644
--- a/src/graph_impl/graph_map/graph.rs
+++ b/src/graph_impl/graph_map/graph.rs
@@ -842,7 +842,9 @@ impl<Id: IdType, NL: Hash + Eq, EL: Hash + Eq, Ty: GraphType, L: IdType>
     }
 
     pub fn into_static(mut self) -> TypedStaticGraph<Id, NL, EL, Ty, L> {
-        let num_of_nodes = self.node_count();
+        // The node ids of a static graph are contiguous,
+        // so that every absent id below the maximum one becomes an isolated node.
+        let num_of_nodes = self.node_indices().max().map_or(0, |id| id.id() + 1);
         let num_of_edges = self.edge_count();
 
         let mut offset = 0usize;
@@ -866,16 +868,13 @@ impl<Id: IdType, NL: Hash + Eq, EL: Hash + Eq, Ty: GraphType, L: IdType>
             (None, None, None)
         };
 
-        let mut nid = Id::new(0);
-        let max_nid = self.node_indices().max().unwrap();
-
         offset_vec.push(offset);
 
         if let (Some(_in_offset), Some(_in_offset_vec)) = (in_offset, in_offset_vec.as_mut()) {
             _in_offset_vec.push(_in_offset);
         }
 
-        while nid <= max_nid {
+        for nid in (0..num_of_nodes).map(Id::new) {
             if let Some(mut node) = self.node_map.remove(&nid) {
                 let neighbors = mem::replace(&mut node.neighbors, BTreeMap::new());
                 offset += neighbors.len();
@@ -917,8 +916,6 @@ impl<Id: IdType, NL: Hash + Eq, EL: Hash + Eq, Ty: GraphType, L: IdType>
                 _in_offset_vec.push(_in_offset);
             }
 
-            nid = nid.increment();
-
             //shrink the map to save memory
             self.shrink_to_fit();
         }
-- 
2.43.0


From 654f68f3698921769b021666521db9283ee3eb9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:57 +0000
Subject: [PATCH 09/21] fix: connected components left out isolated nodes, so
 ConnSubgraph panicked on them

---
 src/algorithm/conn_comp.rs | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/algorithm/conn_comp.rs b/src/algorithm/conn_comp.rs
index e334750..06b92f4 100644
--- a/src/algorithm/conn_comp.rs
+++ b/src/algorithm/conn_comp.rs
@@ -97,6 +97,10 @@ impl<Id: IdType> ConnComp<Id> {
         &mut self,
         graph: &GeneralGraph<Id, NL, EL, L>,
     ) {
+        for node in graph.node_indices() {
+            self.add_node(node);
+        }
+
         for edge in graph.edges() {
             self.process_new_edge(&edge);
         }
@@ -108,15 +112,8 @@ impl<Id: IdType> ConnComp<Id> {
         let x = edge.get_start();
         let y = edge.get_target();
 
-        if !self.parent().contains_key(&x) {
-            self.mut_parent().insert(x, x);
-            self.count += 1;
-        }
-
-        if !self.parent().contains_key(&y) {
-            self.mut_parent().insert(y, y);
-            self.count += 1;
-        }
+        self.add_node(x);
+        self.add_node(y);
 
         let x_root = self.get_root(x).unwrap();
         let y_root = self.get_root(y).unwrap();
@@ -127,6 +124,14 @@ impl<Id: IdType> ConnComp<Id> {
         }
     }
 
+    /// Register a node, which is a component of its own if it has not been seen yet.
+    fn add_node(&mut self, node: Id) {
+        if !self.parent().contains_key(&node) {
+            self.mut_parent().insert(node, node);
+            self.count += 1;
+        }
+    }
+
     /// Get the parent of a node.
     pub fn get_parent(&self, node: Id) -> Option<Id> {
         if let Some(id) = self.parent().get(&node) {
-- 
2.43.0


From 4e7ed07e74ab519984074481b02f9c2cc8e141a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:57 +0000
Subject: [PATCH 10/21] fix: ConnComp::get_root panicked instead of returning
 None for an unknown node

---
 src/algorithm/conn_comp.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/algorithm/conn_comp.rs b/src/algorithm/conn_comp.rs
index 06b92f4..8edd707 100644
--- a/src/algorithm/conn_comp.rs
+++ b/src/algorithm/conn_comp.rs
@@ -143,6 +143,10 @@ impl<Id: IdType> ConnComp<Id> {
 
     /// Get the root of a node.
     pub fn get_root(&self, mut node: Id) -> Option<Id> {
+        if !self.parent().contains_key(&node) {
+            return None;
+        }
+
         while self.parent().get(&node) != Some(&node) {
             let p = self.parent()[&node];
             let pp = self.parent()[&p];
-- 
2.43.0


From 52d526e7029e6f11eb0802d36739073356737cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:26 +0000
Subject: [PATCH 11/21] fix: Dfs marked nodes when pushed, so the order it
 yielded was not depth first

---
 src/algorithm/dfs.rs | 34 ++++++++++++++++++----------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/src/algorithm/dfs.rs b/src/algorithm/dfs.rs
index ef3e342..a6b4e2f 100644
--- a/src/algorithm/dfs.rs
+++ b/src/algorithm/dfs.rs
@@ -108,23 +108,27 @@ impl<'a, Id: IdType, NL: Eq + Hash + 'a, EL: Eq + Hash + 'a, L: IdType> Dfs<'a,
 
     /// Return the next node in the Dfs, or **None** if the traversal is done.
     pub fn next(&mut self) -> Option<Id> {
-        if self.stack.len() == 0 {
-            if let Some(id) = self.next_unvisited_node() {
-                self.stack.push(id);
-                self.discovered.set(id.id(), false);
-            }
-        }
+        // A node may be pushed several times before its visit,
+        // so that it is only marked as visited when it is popped.
+        loop {
+            let current_node = match self.stack.pop() {
+                Some(id) => id,
+                None => match self.next_unvisited_node() {
+                    Some(id) => id,
+                    None => return None,
+                },
+            };
 
-        if let Some(current_node) = self.stack.pop() {
-            for neighbour in self.graph.neighbors_iter(current_node) {
-                if self.discovered.contains(neighbour.id()) {
-                    self.discovered.set(neighbour.id(), false);
-                    self.stack.push(neighbour);
+            if self.discovered.contains(current_node.id()) {
+                self.discovered.set(current_node.id(), false);
+                for neighbour in self.graph.neighbors_iter(current_node) {
+                    if self.discovered.contains(neighbour.id()) {
+                        self.stack.push(neighbour);
+                    }
                 }
+
+                return Some(current_node);
             }
-            Some(current_node)
-        } else {
-            None
         }
     }
 
@@ -144,7 +148,6 @@ impl<'a, Id: IdType, NL: Eq + Hash + 'a, EL: Eq + Hash + 'a, L: IdType> Dfs<'a,
             if !self.graph.has_node(start) {
                 panic!("Node {:?} is not in the graph.", start);
             } else {
-                self.discovered.set(start.id(), false);
                 self.stack.clear();
                 self.stack.push(start);
             }
@@ -153,7 +156,6 @@ impl<'a, Id: IdType, NL: Eq + Hash + 'a, EL: Eq + Hash + 'a, L: IdType> Dfs<'a,
                 panic!("Graph is empty")
             } else {
                 let id = self.graph.node_indices().next().unwrap();
-                self.discovered.set(id.id(), false);
                 self.stack.clear();
                 self.stack.push(id);
             }
-- 
2.43.0


From 9afae149c7207e923e101d6c9e6e3861bd1e66c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:04 +0000
Subject: [PATCH 12/21] fix: equal SetMaps could hash differently and map items
 to different indices

---
 src/map/set_map.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/map/set_map.rs b/src/map/set_map.rs
index 7ea6271..c508ec0 100644
--- a/src/map/set_map.rs
+++ b/src/map/set_map.rs
@@ -29,11 +29,20 @@ use io::serde::{Deserialize, Serialize};
 use map::VecMap;
 
 /// More efficient but less compact.
-#[derive(Debug, PartialEq, Eq, Clone, Serialize, Deserialize)]
+#[derive(Debug, Clone, Serialize, Deserialize)]
 pub struct SetMap<L: Hash + Eq> {
     labels: IndexSet<L>,
 }
 
+/// Two maps are equal if they map the same items to the same indices.
+impl<L: Hash + Eq> PartialEq for SetMap<L> {
+    fn eq(&self, other: &SetMap<L>) -> bool {
+        self.len() == other.len() && self.items().zip(other.items()).all(|(a, b)| a == b)
+    }
+}
+
+impl<L: Hash + Eq> Eq for SetMap<L> {}
+
 impl<L: Hash + Eq> Serialize for SetMap<L> where L: serde::Serialize {}
 
 impl<L: Hash + Eq> Deserialize for SetMap<L> where L: for<'de> serde::Deserialize<'de> {}
-- 
2.43.0


From 01e8586df2a7996b12e36b851776314b40dccca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:04 +0000
Subject: [PATCH 13/21] fix: a VecMap built from a vector kept duplicate items,
 so an index did not map back to itself

---
 src/map/vec_map.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/map/vec_map.rs b/src/map/vec_map.rs
index 305d9fc..60a284a 100644
--- a/src/map/vec_map.rs
+++ b/src/map/vec_map.rs
@@ -146,13 +146,13 @@ impl<L: Eq> FromIterator<L> for VecMap<L> {
 
 impl<L: Eq> From<Vec<L>> for VecMap<L> {
     fn from(vec: Vec<L>) -> Self {
-        VecMap::with_data(vec)
+        vec.into_iter().collect()
     }
 }
 
 impl<'a, L: Eq + Clone> From<&'a Vec<L>> for VecMap<L> {
     fn from(vec: &'a Vec<L>) -> Self {
-        VecMap::with_data(vec.clone())
+        vec.iter().cloned().collect()
     }
 }
 
-- 
2.43.0


From 2b501b7788f574f2a624311962f327ba761661b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:05 +0000
Subject: [PATCH 14/21] fix: slicing a TypedMemoryMap past its end read out of
 bounds

---
 src/io/mmap.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/io/mmap.rs b/src/io/mmap.rs
index 8724817..9bb64e5 100644
--- a/src/io/mmap.rs
+++ b/src/io/mmap.rs
@@ -78,6 +78,7 @@ impl<T: Copy> ops::Index<ops::RangeFrom<usize>> for TypedMemoryMap<T> {
     #[inline]
     fn index(&self, _index: ops::RangeFrom<usize>) -> &[T] {
         let index = _index.start;
+        assert!(index <= self.len);
         unsafe {
             slice::from_raw_parts(
                 self.map.as_ptr().add(index * self.type_len) as *const T,
@@ -91,6 +92,7 @@ impl<T: Copy> ops::Index<ops::RangeTo<usize>> for TypedMemoryMap<T> {
     type Output = [T];
     #[inline]
     fn index(&self, _index: ops::RangeTo<usize>) -> &[T] {
+        assert!(_index.end <= self.len);
         unsafe { slice::from_raw_parts(self.map.as_ptr() as *const T, _index.end) }
     }
 }
-- 
2.43.0


From b6d2f7387c4996a56e432c56df9f832481023c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:05 +0000
Subject: [PATCH 15/21] fix: the mmap dump of a graph without edges could not
 be loaded

---
 src/io/mmap.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/io/mmap.rs b/src/io/mmap.rs
index 9bb64e5..caf4421 100644
--- a/src/io/mmap.rs
+++ b/src/io/mmap.rs
@@ -46,7 +46,13 @@ impl<T: Copy> TypedMemoryMap<T> {
         let size = file.metadata().expect("error reading metadata").len() as usize;
         let type_len = mem::size_of::<T>();
         TypedMemoryMap {
-            map: unsafe { memmap::Mmap::map(&file).unwrap() },
+            // An empty mapping is an error, and no byte of it is accessed when the file is empty.
+            map: unsafe {
+                memmap::MmapOptions::new()
+                    .len(size.max(1))
+                    .map(&file)
+                    .unwrap()
+            },
             len: size / type_len,
             type_len,
             phn: PhantomData,
-- 
2.43.0


From df23b015412319ddc7dac2251757be9eb4a3f9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:05 +0000
Subject: [PATCH 16/21] fix: export reported success when the last buffered
 bytes could not be written

---
 src/io/serde.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/io/serde.rs b/src/io/serde.rs
index 58eea95..e07001b 100644
--- a/src/io/serde.rs
+++ b/src/io/serde.rs
@@ -19,7 +19,7 @@
  * under the License.
  */
 use std::fs::File;
-use std::io::{BufReader, BufWriter};
+use std::io::{BufReader, BufWriter, Write};
 use std::path::Path;
 
 use serde::{de, ser};
@@ -59,7 +59,10 @@ impl Serializer {
     {
         let mut writer = BufWriter::new(File::create(path)?);
 
-        serialize_into(&mut writer, &obj)
+        serialize_into(&mut writer, &obj)?;
+        writer.flush()?;
+
+        Ok(())
     }
 }
 
-- 
2.43.0


From c593e95365499d99d980c9f9123a35c03034126b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:06 +0000
Subject: [PATCH 17/21] fix: CSVWriter::write reported success when the last
 buffered records could not be written

---
 src/io/csv/writer.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/io/csv/writer.rs b/src/io/csv/writer.rs
index a4537aa..8bf575a 100644
--- a/src/io/csv/writer.rs
+++ b/src/io/csv/writer.rs
@@ -111,6 +111,7 @@ where
         for id in self.g.node_indices() {
             wtr.serialize(NodeRecord::new(id, g.get_node_label(id)))?;
         }
+        wtr.flush()?;
 
         info!(
             "csv::Writer::write - Writing edges to {}",
@@ -128,6 +129,7 @@ where
                 g.get_edge_label(start, target),
             ))?;
         }
+        wtr.flush()?;
 
         Ok(())
     }
-- 
2.43.0


From 6288556293cd2fe5eb55d63cbf2f316ca509598f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:29 +0000
Subject: [PATCH 18/21] fix: dumping over a previous dump left its label and
 in-edge files, which were loaded with the new graph

---
 src/graph_impl/static_graph/edge_vec.rs |  4 ++--
 src/graph_impl/static_graph/graph.rs    |  6 +++++-
 src/io/mmap.rs                          | 12 ++++++++++--
 3 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/graph_impl/static_graph/edge_vec.rs b/src/graph_impl/static_graph/edge_vec.rs
index 6e061ea..39fe11b 100644
--- a/src/graph_impl/static_graph/edge_vec.rs
+++ b/src/graph_impl/static_graph/edge_vec.rs
@@ -19,7 +19,7 @@
  * under the License.
  */
 use generic::IdType;
-use io::mmap::dump;
+use io::mmap::{dump, remove_dump};
 use std::fs::File;
 use std::io::Result;
 
@@ -175,7 +175,7 @@ impl<Id: IdType, L: IdType> EdgeVec<Id, L> {
             if !self.get_labels().is_empty() {
                 dump(self.get_labels(), File::create(labels_file)?)
             } else {
-                Ok(())
+                remove_dump(labels_file)
             }
         }
     }
diff --git a/src/graph_impl/static_graph/graph.rs b/src/graph_impl/static_graph/graph.rs
index 17d76b2..d3e6b94 100644
--- a/src/graph_impl/static_graph/graph.rs
+++ b/src/graph_impl/static_graph/graph.rs
@@ -35,7 +35,7 @@ use graph_impl::static_graph::node::StaticNode;
 use graph_impl::static_graph::static_edge_iter::StaticEdgeIndexIter;
 use graph_impl::static_graph::{EdgeVec, EdgeVecTrait};
 use graph_impl::{Edge, GraphImpl};
-use io::mmap::dump;
+use io::mmap::{dump, remove_dump};
 use io::serde::{Deserialize, Serialize, Serializer};
 use map::SetMap;
 
@@ -431,12 +431,16 @@ where
         self.edge_vec.dump_mmap(&edges_prefix)?;
         if let Some(ref in_edges) = self.in_edge_vec {
             in_edges.dump_mmap(&in_edges_prefix)?;
+        } else {
+            remove_dump(format!("{}.offsets", in_edges_prefix))?;
         }
 
         if let Some(ref labels) = self.labels {
             unsafe {
                 dump(labels, ::std::fs::File::create(label_file)?)?;
             }
+        } else {
+            remove_dump(label_file)?;
         }
 
         let aux_file = StaticGraphMmapAux::new(
diff --git a/src/io/mmap.rs b/src/io/mmap.rs
index caf4421..7e02e51 100644
--- a/src/io/mmap.rs
+++ b/src/io/mmap.rs
@@ -24,8 +24,8 @@
 
 extern crate memmap;
 
-use std::fs::File;
-use std::io::{BufWriter, Result, Write};
+use std::fs::{remove_file, File};
+use std::io::{BufWriter, ErrorKind, Result, Write};
 use std::marker::PhantomData;
 use std::mem;
 use std::ops;
@@ -113,6 +113,14 @@ pub fn typed_as_byte_slice<T: Copy>(slice: &[T]) -> &[u8] {
     }
 }
 
+/// Remove the file of a previous dump, if there is one.
+pub fn remove_dump<P: AsRef<Path>>(filename: P) -> Result<()> {
+    match remove_file(filename) {
+        Err(ref e) if e.kind() != ErrorKind::NotFound => Err(e.kind().into()),
+        _ => Ok(()),
+    }
+}
+
 pub unsafe fn dump<W: Write, T: Copy>(data: &[T], write: W) -> Result<()> {
     let mut writer = BufWriter::new(write);
     let mut slice = typed_as_byte_slice(data);
-- 
2.43.0


From d3b2925d3c11290f123b1e14d64ea23e022fda1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:30 +0000
Subject: [PATCH 19/21] fix: the edge count of an undirected static graph left
 out half of the self-loops

---
 src/graph_impl/static_graph/edge_vec.rs        | 11 +++++++++++
 src/graph_impl/static_graph/graph.rs           |  4 ++--
 src/graph_impl/static_graph/mmap/graph_mmap.rs |  2 +-
 3 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/graph_impl/static_graph/edge_vec.rs b/src/graph_impl/static_graph/edge_vec.rs
index 39fe11b..016812d 100644
--- a/src/graph_impl/static_graph/edge_vec.rs
+++ b/src/graph_impl/static_graph/edge_vec.rs
@@ -53,6 +53,17 @@ pub trait EdgeVecTrait<Id: IdType, L: IdType> {
         self.get_edges().len()
     }
 
+    /// The number of edges if each pair of opposite directions is one undirected edge.
+    /// A self-loop is stored only once.
+    #[inline]
+    fn num_undirected_edges(&self) -> usize {
+        let num_self_loops = (0..self.num_nodes())
+            .filter(|&i| self.has_edge(Id::new(i), Id::new(i)))
+            .count();
+
+        (self.num_edges() + num_self_loops) >> 1
+    }
+
     #[inline]
     fn neighbors(&self, node: Id) -> &[Id] {
         assert!(self.has_node(node));
diff --git a/src/graph_impl/static_graph/graph.rs b/src/graph_impl/static_graph/graph.rs
index d3e6b94..b40e7fc 100644
--- a/src/graph_impl/static_graph/graph.rs
+++ b/src/graph_impl/static_graph/graph.rs
@@ -179,7 +179,7 @@ impl<Id: IdType, NL: Hash + Eq, EL: Hash + Eq, Ty: GraphType, L: IdType>
             if Ty::is_directed() {
                 edges.num_edges()
             } else {
-                edges.num_edges() >> 1
+                edges.num_undirected_edges()
             }
         };
 
@@ -238,7 +238,7 @@ impl<Id: IdType, NL: Hash + Eq, EL: Hash + Eq, Ty: GraphType, L: IdType>
             if Ty::is_directed() {
                 edges.num_edges()
             } else {
-                edges.num_edges() >> 1
+                edges.num_undirected_edges()
             }
         };
 
diff --git a/src/graph_impl/static_graph/mmap/graph_mmap.rs b/src/graph_impl/static_graph/mmap/graph_mmap.rs
index 97af010..592e92b 100644
--- a/src/graph_impl/static_graph/mmap/graph_mmap.rs
+++ b/src/graph_impl/static_graph/mmap/graph_mmap.rs
@@ -116,7 +116,7 @@ where
             let num_edge = if in_edges.is_some() {
                 edges.num_edges()
             } else {
-                edges.num_edges() >> 1
+                edges.num_undirected_edges()
             };
 
             StaticGraphMmapAux::empty(num_node, num_edge)
-- 
2.43.0


From 87a7f4347f539fce9df0a549df2a42710f8a849e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:29 +0000
Subject: [PATCH 20/21] fix: reading CSV reported success when a file could not
 be read

---
 src/io/csv/reader.rs | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/io/csv/reader.rs b/src/io/csv/reader.rs
index 7c99275..86c9a0d 100644
--- a/src/io/csv/reader.rs
+++ b/src/io/csv/reader.rs
@@ -121,11 +121,12 @@ where
                 "Adding nodes from {}",
                 path_to_nodes.as_path().to_str().unwrap()
             );
-            let rdr = ReaderBuilder::new()
+            let mut rdr = ReaderBuilder::new()
                 .has_headers(self.has_headers)
                 .flexible(self.is_flexible)
                 .delimiter(self.separator)
                 .from_path(path_to_nodes.as_path())?;
+            rdr.byte_headers()?;
 
             for (i, result) in rdr.into_deserialize().enumerate() {
                 match result {
@@ -133,7 +134,12 @@ where
                         let record: NodeRecord<Id, NL> = _result;
                         record.add_to_graph(g);
                     }
-                    Err(e) => warn!("Line {:?}: Error when reading csv: {:?}", i + 1, e),
+                    Err(e) => {
+                        if e.is_io_error() {
+                            return Err(e.into());
+                        }
+                        warn!("Line {:?}: Error when reading csv: {:?}", i + 1, e)
+                    }
                 }
             }
         }
@@ -143,11 +149,12 @@ where
             self.path_to_edges.as_path().to_str().unwrap()
         );
 
-        let rdr = ReaderBuilder::new()
+        let mut rdr = ReaderBuilder::new()
             .has_headers(self.has_headers)
             .flexible(self.is_flexible)
             .delimiter(self.separator)
             .from_path(self.path_to_edges.as_path())?;
+        rdr.byte_headers()?;
 
         for (i, result) in rdr.into_deserialize().enumerate() {
             match result {
@@ -155,7 +162,12 @@ where
                     let record: EdgeRecord<Id, EL> = _result;
                     record.add_to_graph(g);
                 }
-                Err(e) => warn!("Line {:?}: Error when reading csv: {:?}", i + 1, e),
+                Err(e) => {
+                    if e.is_io_error() {
+                        return Err(e.into());
+                    }
+                    warn!("Line {:?}: Error when reading csv: {:?}", i + 1, e)
+                }
             }
         }
 
@@ -168,11 +180,12 @@ where
                 "Reading nodes from {}",
                 path_to_nodes.as_path().to_str().unwrap()
             );
-            let rdr = ReaderBuilder::new()
+            let mut rdr = ReaderBuilder::new()
                 .has_headers(self.has_headers)
                 .flexible(self.is_flexible)
                 .delimiter(self.separator)
                 .from_path(path_to_nodes.as_path())?;
+            rdr.byte_headers()?;
 
             let rdr = rdr
                 .into_deserialize()
@@ -199,11 +212,12 @@ where
             "Reading edges from {}",
             self.path_to_edges.as_path().to_str().unwrap()
         );
-        let rdr = ReaderBuilder::new()
+        let mut rdr = ReaderBuilder::new()
             .has_headers(self.has_headers)
             .flexible(self.is_flexible)
             .delimiter(self.separator)
             .from_path(self.path_to_edges.as_path())?;
+        rdr.byte_headers()?;
 
         let rdr = rdr
             .into_deserialize()
-- 
2.43.0


From c87e3bbba21fb8d73ff642ff5194c859cf7fc1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:18 +0000
Subject: [PATCH 21/21] fix: an empty label in a CSV file without headers was
 read as an empty string label

---
 src/io/csv/record.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io/csv/record.rs b/src/io/csv/record.rs
index e2bc16e..f1b0910 100644
--- a/src/io/csv/record.rs
+++ b/src/io/csv/record.rs
@@ -114,7 +114,7 @@ where
                 let id = seq
                     .next_element()?
                     .ok_or_else(|| de::Error::invalid_length(0, &self))?;
-                let label = seq.next_element().unwrap_or(None);
+                let label = seq.next_element().unwrap_or(None).unwrap_or(None);
 
                 Ok(NodeRecord::new(id, label))
             }
@@ -205,7 +205,7 @@ where
                 let target = seq
                     .next_element()?
                     .ok_or_else(|| de::Error::invalid_length(1, &self))?;
-                let label = seq.next_element().unwrap_or(None);
+                let label = seq.next_element().unwrap_or(None).unwrap_or(None);
 
                 Ok(EdgeRecord::new(start, target, label))
             }
-- 
2.43.0

