From ab622d7b34f37f812dc64825ae00321c4e0549f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:16 +0000
Subject: [PATCH 01/11] fix: do not wrap around when summing up weights

The sum of two weights could exceed usize::MAX. In release mode it wrapped
around, so for example a shortcut could get weight zero and hide a regular
edge, in debug mode it panicked. A path whose weight reaches WEIGHT_MAX is
not usable, so the sums saturate instead.
---
 src/node_contractor.rs |  5 ++++-
 src/path_calculator.rs | 30 ++++++++++++++++--------------
 src/witness_search.rs  |  2 +-
 3 files changed, 21 insertions(+), 16 deletions(-)

diff --git a/src/node_contractor.rs b/src/node_contractor.rs
index 1d7292d..d9c1326 100644
--- a/src/node_contractor.rs
+++ b/src/node_contractor.rs
@@ -72,7 +72,10 @@ pub fn handle_shortcuts<F>(
         let in_node = graph.in_edges[node][i].adj_node;
         witness_search.init(in_node, node);
         for j in 0..graph.out_edges[node].len() {
-            let weight = graph.in_edges[node][i].weight + graph.out_edges[node][j].weight;
+            // a sum that reaches WEIGHT_MAX is not a usable path, it must not wrap around
+            let weight = graph.in_edges[node][i]
+                .weight
+                .saturating_add(graph.out_edges[node][j].weight);
             let out_node = graph.out_edges[node][j].adj_node;
             // no need to find the actual weight of a witness path as long as we can be sure
             // that there is some witness with weight smaller or equal to the removed direct
diff --git a/src/path_calculator.rs b/src/path_calculator.rs
index 98e0115..9456251 100644
--- a/src/path_calculator.rs
+++ b/src/path_calculator.rs
@@ -93,9 +93,9 @@ impl PathCalculator {
                 if *start_node == *end_node
                     && *start_weight < WEIGHT_MAX
                     && *end_weight < WEIGHT_MAX
-                    && *start_weight + *end_weight < best_weight
+                    && start_weight.saturating_add(*end_weight) < best_weight
                 {
-                    best_weight = *start_weight + *end_weight;
+                    best_weight = start_weight.saturating_add(*end_weight);
                     meeting_node = *end_node;
                 }
             }
@@ -142,17 +142,18 @@ impl PathCalculator {
                 for edge_id in begin..end {
                     let adj = graph.edges_fwd[edge_id].adj_node;
                     let edge_weight = graph.edges_fwd[edge_id].weight;
-                    let weight = curr.weight + edge_weight;
+                    let weight = curr.weight.saturating_add(edge_weight);
                     if weight < self.get_weight_fwd(adj) {
                         self.update_node_fwd(adj, weight, curr.node_id, edge_id);
                         self.heap_fwd.push(HeapItem::new(weight, adj));
                     }
                 }
                 self.data_fwd[curr.node_id].settled = true;
-                if self.valid_flags_bwd.is_valid(curr.node_id)
-                    && curr.weight + self.get_weight_bwd(curr.node_id) < best_weight
-                {
-                    best_weight = curr.weight + self.get_weight_bwd(curr.node_id);
+                let weight = curr
+                    .weight
+                    .saturating_add(self.get_weight_bwd(curr.node_id));
+                if self.valid_flags_bwd.is_valid(curr.node_id) && weight < best_weight {
+                    best_weight = weight;
                     meeting_node = curr.node_id;
                 }
                 break;
@@ -178,17 +179,18 @@ impl PathCalculator {
                 for edge_id in begin..end {
                     let adj = graph.edges_bwd[edge_id].adj_node;
                     let edge_weight = graph.edges_bwd[edge_id].weight;
-                    let weight = curr.weight + edge_weight;
+                    let weight = curr.weight.saturating_add(edge_weight);
                     if weight < self.get_weight_bwd(adj) {
                         self.update_node_bwd(adj, weight, curr.node_id, edge_id);
                         self.heap_bwd.push(HeapItem::new(weight, adj));
                     }
                 }
                 self.data_bwd[curr.node_id].settled = true;
-                if self.valid_flags_fwd.is_valid(curr.node_id)
-                    && curr.weight + self.get_weight_fwd(curr.node_id) < best_weight
-                {
-                    best_weight = curr.weight + self.get_weight_fwd(curr.node_id);
+                let weight = curr
+                    .weight
+                    .saturating_add(self.get_weight_fwd(curr.node_id));
+                if self.valid_flags_fwd.is_valid(curr.node_id) && weight < best_weight {
+                    best_weight = weight;
                     meeting_node = curr.node_id;
                 }
                 break;
@@ -220,7 +222,7 @@ impl PathCalculator {
                 continue;
             }
             let edge_weight = graph.edges_bwd[edge_id].weight;
-            if adj_weight + edge_weight < curr.weight {
+            if adj_weight.saturating_add(edge_weight) < curr.weight {
                 return true;
             }
         }
@@ -237,7 +239,7 @@ impl PathCalculator {
                 continue;
             }
             let edge_weight = graph.edges_fwd[edge_id].weight;
-            if adj_weight + edge_weight < curr.weight {
+            if adj_weight.saturating_add(edge_weight) < curr.weight {
                 return true;
             }
         }
diff --git a/src/witness_search.rs b/src/witness_search.rs
index c64ffdd..dab91a1 100644
--- a/src/witness_search.rs
+++ b/src/witness_search.rs
@@ -131,7 +131,7 @@ impl WitnessSearch {
                     continue;
                 }
                 let edge_weight = graph.out_edges[curr.node_id][i].weight;
-                let weight = curr.weight + edge_weight;
+                let weight = curr.weight.saturating_add(edge_weight);
                 if weight < self.get_current_weight(adj) {
                     self.update_node(adj, weight);
                     self.heap.push(HeapItem::new(weight, adj));
-- 
2.43.0


From 92bc561d3252430e089d1c43250cb0e65d433015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:16 +0000
Subject: [PATCH 02/11] fix: serialize_32 never returned on 32bit platforms

On a 32bit platform std::u32::MAX as usize equals std::usize::MAX, so
usize_to_u32 called itself forever for every INVALID_EDGE.
---
 src/fast_graph32.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fast_graph32.rs b/src/fast_graph32.rs
index fcb12a5..ea4b657 100644
--- a/src/fast_graph32.rs
+++ b/src/fast_graph32.rs
@@ -79,7 +79,7 @@ pub struct FastGraphEdge32 {
 
 fn usize_to_u32(int: usize) -> u32 {
     if int == std::usize::MAX {
-        usize_to_u32(std::u32::MAX as usize)
+        std::u32::MAX
     } else if let Ok(x) = u32::try_from(int) {
         x
     } else {
-- 
2.43.0


From 7d26c3f41972bd275bd4f2c550356d1296185215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:16 +0000
Subject: [PATCH 03/11] fix: FastGraph32 silently changed the value u32::MAX to
 usize::MAX

u32::MAX stands for usize::MAX in the 32bit representation. An edge with
weight u32::MAX got converted without an error, but came back with weight
usize::MAX so it could no longer be used.
---
 src/fast_graph32.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/fast_graph32.rs b/src/fast_graph32.rs
index ea4b657..859ef18 100644
--- a/src/fast_graph32.rs
+++ b/src/fast_graph32.rs
@@ -42,7 +42,8 @@ pub struct FastGraph32 {
 impl FastGraph32 {
     /// Creates a 32bit Graph from a given `FastGraph`. All (potentially 64bit) `usize` integers are
     /// simply converted to u32 and if a value exceeds the 32bit limit an error is thrown. The only
-    /// exception is `std::u32::MAX`, which is converted to `std::usize::MAX`.
+    /// exception is `std::usize::MAX`, which is converted to `std::u32::MAX`. Therefore the value
+    /// `std::u32::MAX` itself also exceeds the limit.
     pub fn new(fast_graph: &FastGraph) -> Self {
         FastGraph32 {
             num_nodes: usize_to_u32(fast_graph.get_num_nodes()),
@@ -80,10 +81,12 @@ pub struct FastGraphEdge32 {
 fn usize_to_u32(int: usize) -> u32 {
     if int == std::usize::MAX {
         std::u32::MAX
-    } else if let Ok(x) = u32::try_from(int) {
-        x
     } else {
-        panic!("Could not convert {} to a 32-bit integer", int);
+        // u32::MAX is reserved, because it gets converted to usize::MAX
+        match u32::try_from(int) {
+            Ok(x) if x != std::u32::MAX => x,
+            _ => panic!("Could not convert {} to a 32-bit integer", int),
+        }
     }
 }
 
-- 
2.43.0


From 0f307800e68794f16b652985e2151913b9b33d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:16 +0000
Subject: [PATCH 04/11] fix: to_file and to_dimacs_file ignored errors of the
 last write

The last part of the buffer was only written when the BufWriter was dropped
and this ignores errors, so Ok was returned for an incomplete file.
---
 src/input_graph.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/input_graph.rs b/src/input_graph.rs
index cae2687..8e62264 100644
--- a/src/input_graph.rs
+++ b/src/input_graph.rs
@@ -73,7 +73,8 @@ impl InputGraph {
         for edge in self.get_edges() {
             writeln!(f, "a {} {} {}", edge.from, edge.to, edge.weight)?;
         }
-        Ok(())
+        // dropping the writer would ignore errors
+        f.flush()
     }
 
     /// Reads an input graph from a text file, using the DIMACS format:
@@ -107,7 +108,8 @@ impl InputGraph {
         for edge in self.get_edges() {
             writeln!(f, "a {} {} {}", edge.from + 1, edge.to + 1, edge.weight)?;
         }
-        Ok(())
+        // dropping the writer would ignore errors
+        f.flush()
     }
 
     pub fn add_edge(&mut self, from: NodeId, to: NodeId, weight: Weight) -> usize {
-- 
2.43.0


From ee56abf9dbc606ba1b703b4f42b21c9ac6ed9e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:16 +0000
Subject: [PATCH 05/11] fix: from_dimacs_file ignored the number of nodes in
 the problem line

If the nodes with the highest IDs had no edges they were missing in the
graph.
---
 src/input_graph.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/input_graph.rs b/src/input_graph.rs
index 8e62264..94e1ac4 100644
--- a/src/input_graph.rs
+++ b/src/input_graph.rs
@@ -317,6 +317,8 @@ impl InputGraph {
             "Not enough arc lines: {}, expected: {}",
             curr_edges, edges
         );
+        // there might be nodes without any edges
+        g.num_nodes = nodes;
         g.freeze();
         g
     }
-- 
2.43.0


From 85f195946cc933de4ffee31b6f68d5b4bba54a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:17 +0000
Subject: [PATCH 06/11] fix: prepare_with_order accepted orders that contain a
 node twice

Such an order is not a permutation of the node ids. It either caused a panic
or a graph for which wrong paths were calculated.
---
 src/fast_graph_builder.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/fast_graph_builder.rs b/src/fast_graph_builder.rs
index 19137cc..0f8f659 100644
--- a/src/fast_graph_builder.rs
+++ b/src/fast_graph_builder.rs
@@ -76,6 +76,13 @@ impl FastGraphBuilder {
                 "The given order must have as many nodes as the input graph",
             ));
         }
+        let mut found = vec![false; order.len()];
+        for node in order.iter().cloned().filter(|n| *n < order.len()) {
+            if found[node] {
+                return Err(format!("The given order contains node {} twice", node));
+            }
+            found[node] = true;
+        }
         let mut builder = FastGraphBuilder::new(input_graph);
         builder.run_contraction_with_order(input_graph, order, params);
         Ok(builder.fast_graph)
-- 
2.43.0


From 096207f29cc710abec22fc439f8890677b16b1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:39 +0000
Subject: [PATCH 07/11] fix: unpacking deeply nested shortcuts overflowed the
 stack

For some node orderings the nesting depth of the shortcuts is proportional
to the number of nodes, so calc_path aborted the process even for graphs
with less than 50000 nodes.
---
 src/path_calculator.rs | 97 ++++++++++++++++--------------------------
 1 file changed, 36 insertions(+), 61 deletions(-)

diff --git a/src/path_calculator.rs b/src/path_calculator.rs
index 9456251..902ea09 100644
--- a/src/path_calculator.rs
+++ b/src/path_calculator.rs
@@ -269,70 +269,45 @@ impl PathCalculator {
     }
 
     fn unpack_fwd(graph: &FastGraph, nodes: &mut Vec<NodeId>, edge_id: EdgeId, reverse: bool) {
-        if !graph.edges_fwd[edge_id].is_shortcut() {
-            nodes.push(graph.edges_fwd[edge_id].base_node);
-            return;
-        }
-        if reverse {
-            PathCalculator::unpack_fwd(
-                graph,
-                nodes,
-                graph.edges_fwd[edge_id].replaced_out_edge,
-                reverse,
-            );
-            PathCalculator::unpack_bwd(
-                graph,
-                nodes,
-                graph.edges_fwd[edge_id].replaced_in_edge,
-                reverse,
-            );
-        } else {
-            PathCalculator::unpack_bwd(
-                graph,
-                nodes,
-                graph.edges_fwd[edge_id].replaced_in_edge,
-                reverse,
-            );
-            PathCalculator::unpack_fwd(
-                graph,
-                nodes,
-                graph.edges_fwd[edge_id].replaced_out_edge,
-                reverse,
-            );
-        }
+        PathCalculator::unpack(graph, nodes, edge_id, true, reverse);
     }
 
     fn unpack_bwd(graph: &FastGraph, nodes: &mut Vec<NodeId>, edge_id: EdgeId, reverse: bool) {
-        if !graph.edges_bwd[edge_id].is_shortcut() {
-            nodes.push(graph.edges_bwd[edge_id].adj_node);
-            return;
-        }
-        if reverse {
-            PathCalculator::unpack_fwd(
-                graph,
-                nodes,
-                graph.edges_bwd[edge_id].replaced_out_edge,
-                reverse,
-            );
-            PathCalculator::unpack_bwd(
-                graph,
-                nodes,
-                graph.edges_bwd[edge_id].replaced_in_edge,
-                reverse,
-            );
-        } else {
-            PathCalculator::unpack_bwd(
-                graph,
-                nodes,
-                graph.edges_bwd[edge_id].replaced_in_edge,
-                reverse,
-            );
-            PathCalculator::unpack_fwd(
-                graph,
-                nodes,
-                graph.edges_bwd[edge_id].replaced_out_edge,
-                reverse,
-            );
+        PathCalculator::unpack(graph, nodes, edge_id, false, reverse);
+    }
+
+    fn unpack(
+        graph: &FastGraph,
+        nodes: &mut Vec<NodeId>,
+        edge_id: EdgeId,
+        is_fwd: bool,
+        reverse: bool,
+    ) {
+        // we do not use recursion here, because depending on the node ordering shortcuts can be
+        // nested so deeply that the call stack would overflow
+        let mut stack = vec![(edge_id, is_fwd)];
+        while let Some((edge_id, is_fwd)) = stack.pop() {
+            let edge = if is_fwd {
+                &graph.edges_fwd[edge_id]
+            } else {
+                &graph.edges_bwd[edge_id]
+            };
+            if !edge.is_shortcut() {
+                nodes.push(if is_fwd {
+                    edge.base_node
+                } else {
+                    edge.adj_node
+                });
+                continue;
+            }
+            // the edge we push last is unpacked first
+            if reverse {
+                stack.push((edge.replaced_in_edge, false));
+                stack.push((edge.replaced_out_edge, true));
+            } else {
+                stack.push((edge.replaced_out_edge, true));
+                stack.push((edge.replaced_in_edge, false));
+            }
         }
     }
 
-- 
2.43.0


From eca7f1b3ca6c349e80c1922e78060c5f6906e805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:40 +0000
Subject: [PATCH 08/11] verif hook: fast-forward reset counters (only with
 --cfg fast_paths_verif)

---
 src/lib.rs         |  2 ++
 src/valid_flags.rs |  4 ++++
 src/verif_hooks.rs | 49 ++++++++++++++++++++++++++++++++++++++++++++++
 3 files changed, 55 insertions(+)
 create mode 100644 src/verif_hooks.rs

diff --git a/src/lib.rs b/src/lib.rs
index 13ba59c..8b6d7b9 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -48,6 +48,8 @@ mod path_calculator;
 mod preparation_graph;
 mod shortest_path;
 mod valid_flags;
+#[cfg(fast_paths_verif)]
+pub mod verif_hooks;
 mod witness_search;
 
 /// Prepares the given `InputGraph` for fast shortest path calculations.
diff --git a/src/valid_flags.rs b/src/valid_flags.rs
index 1bb9fc6..162e52c 100644
--- a/src/valid_flags.rs
+++ b/src/valid_flags.rs
@@ -45,6 +45,10 @@ impl ValidFlags {
     }
 
     pub fn invalidate_all(&mut self) {
+        #[cfg(fast_paths_verif)]
+        {
+            self.valid_flag = crate::verif_hooks::skip_resets(self.valid_flag);
+        }
         if self.valid_flag == MAX {
             self.valid_flags = vec![0; self.valid_flags.len()];
             self.valid_flag = 1;
diff --git a/src/verif_hooks.rs b/src/verif_hooks.rs
new file mode 100644
index 0000000..acee528
--- /dev/null
+++ b/src/verif_hooks.rs
@@ -0,0 +1,49 @@
+/*
+ * Licensed to the Apache Software Foundation (ASF) under one
+ * or more contributor license agreements.  See the NOTICE file
+ * distributed with this work for additional information
+ * regarding copyright ownership.  The ASF licenses this file
+ * to you under the Apache License, Version 2.0 (the
+ * "License"); you may not use this file except in compliance
+ * with the License.  You may obtain a copy of the License at
+ *
+ *   http://www.apache.org/licenses/LICENSE-2.0
+ *
+ * Unless required by applicable law or agreed to in writing,
+ * software distributed under the License is distributed on an
+ * "AS IS" BASIS, WITHOUT WARRANTIES OR CONDITIONS OF ANY
+ * KIND, either express or implied.  See the License for the
+ * specific language governing permissions and limitations
+ * under the License.
+ */
+
+//! Only compiled with `--cfg fast_paths_verif`. Lets a test harness fast-forward the reset counters
+//! of the search data structures, because exhausting them takes four billion searches otherwise.
+
+use std::cell::Cell;
+
+thread_local! {
+    static SKIP: Cell<Option<(u32, u32)>> = Cell::new(None);
+    static NUM_SKIPS: Cell<u64> = Cell::new(0);
+}
+
+/// From now on (on this thread) a reset counter that reaches `at` continues with `to`, just like it
+/// would after `to - at` more searches. `None` switches this off.
+pub fn set_skip(skip: Option<(u32, u32)>) {
+    SKIP.with(|s| s.set(skip));
+}
+
+/// How often a counter was fast-forwarded on this thread so far
+pub fn get_num_skips() -> u64 {
+    NUM_SKIPS.with(|n| n.get())
+}
+
+pub(crate) fn skip_resets(counter: u32) -> u32 {
+    match SKIP.with(|s| s.get()) {
+        Some((at, to)) if at == counter => {
+            NUM_SKIPS.with(|n| n.set(n.get() + 1));
+            to
+        }
+        _ => counter,
+    }
+}
-- 
2.43.0


From ecedfecf653fd73dfca7c733edb9048c5859b80b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:39 +0000
Subject: [PATCH 09/11] fix: add_edge accepted the reserved node id usize::MAX

Adding one to it to obtain the number of nodes wrapped around (or
panicked, with overflow checks), so the graph had edges but no nodes.
---
 src/input_graph.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/input_graph.rs b/src/input_graph.rs
index 94e1ac4..a22563b 100644
--- a/src/input_graph.rs
+++ b/src/input_graph.rs
@@ -31,6 +31,7 @@ use serde::{Deserialize, Serialize};
 
 use crate::constants::NodeId;
 use crate::constants::Weight;
+use crate::constants::INVALID_NODE;
 
 #[derive(Serialize, Deserialize, Clone)]
 pub struct InputGraph {
@@ -203,7 +204,9 @@ impl InputGraph {
             );
             return 0;
         }
-        self.num_nodes = cmp::max(self.num_nodes, cmp::max(from, to) + 1);
+        let max_node = cmp::max(from, to);
+        assert!(max_node < INVALID_NODE, "Invalid node id: {}", max_node);
+        self.num_nodes = cmp::max(self.num_nodes, max_node + 1);
         self.edges.push(Edge::new(from, to, weight));
         if bidir {
             self.edges.push(Edge::new(to, from, weight));
-- 
2.43.0


From f81c1df9b6060c3cdf5933604052e6bbc4285423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:39 +0000
Subject: [PATCH 10/11] fix: from_dimacs_file accepted files without a problem
 line

A file without any problem and arc lines, e.g. a truncated one, was
silently read as an empty graph.
---
 src/input_graph.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/input_graph.rs b/src/input_graph.rs
index a22563b..a8ebed0 100644
--- a/src/input_graph.rs
+++ b/src/input_graph.rs
@@ -315,6 +315,7 @@ impl InputGraph {
                 );
             }
         }
+        assert!(found_problem_line, "There is no problem line");
         assert_eq!(
             curr_edges, edges,
             "Not enough arc lines: {}, expected: {}",
-- 
2.43.0


From 0b0205a1600d7732182d6b80277d0255a4976173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:43 +0000
Subject: [PATCH 11/11] fix: converting from 32 bits must not allocate memory
 for the claimed number of nodes

The number of nodes of a damaged 32-bit graph made convert_to_usize() (and deserialize_32()) allocate up to 96 GB, which aborts the process. The three arrays were replaced immediately anyway.
---
 src/fast_graph.rs   |  2 +-
 src/fast_graph32.rs | 15 ++++++++-------
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/fast_graph.rs b/src/fast_graph.rs
index e651aac..a7ec9da 100644
--- a/src/fast_graph.rs
+++ b/src/fast_graph.rs
@@ -25,7 +25,7 @@ use crate::constants::{EdgeId, NodeId, INVALID_EDGE};
 
 #[derive(Serialize, Deserialize, Debug, Clone)]
 pub struct FastGraph {
-    num_nodes: usize,
+    pub(crate) num_nodes: usize,
     pub(crate) ranks: Vec<usize>,
     pub(crate) edges_fwd: Vec<FastGraphEdge>,
     pub(crate) first_edge_ids_fwd: Vec<EdgeId>,
diff --git a/src/fast_graph32.rs b/src/fast_graph32.rs
index 859ef18..88f7255 100644
--- a/src/fast_graph32.rs
+++ b/src/fast_graph32.rs
@@ -58,13 +58,14 @@ impl FastGraph32 {
     /// Converts a 32bit Graph to an actual `FastGraph` using `usize` such that it can be used with
     /// FastPaths crate. Any integers that equal `std::u32::MAX` are mapped to `std::usize::MAX`.
     pub fn convert_to_usize(self) -> FastGraph {
-        let mut g = FastGraph::new(self.num_nodes as usize);
-        g.ranks = u32_to_usize_vec(&self.ranks);
-        g.edges_fwd = u32_to_usize_edges(&self.edges_fwd);
-        g.first_edge_ids_fwd = u32_to_usize_vec(&self.first_edge_ids_fwd);
-        g.edges_bwd = u32_to_usize_edges(&self.edges_bwd);
-        g.first_edge_ids_bwd = u32_to_usize_vec(&self.first_edge_ids_bwd);
-        g
+        FastGraph {
+            num_nodes: self.num_nodes as usize,
+            ranks: u32_to_usize_vec(&self.ranks),
+            edges_fwd: u32_to_usize_edges(&self.edges_fwd),
+            first_edge_ids_fwd: u32_to_usize_vec(&self.first_edge_ids_fwd),
+            edges_bwd: u32_to_usize_edges(&self.edges_bwd),
+            first_edge_ids_bwd: u32_to_usize_vec(&self.first_edge_ids_bwd),
+        }
     }
 }
 
-- 
2.43.0

