From 78136daef517b8bfd88576e92c5ddf6f231d60b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:59 +0000
Subject: [PATCH 01/45] fix: delete node also removes its edges in components
 created by the same update

---
 core/src/graph/mod.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/core/src/graph/mod.rs b/core/src/graph/mod.rs
index 5d1f277..50d5e75 100644
--- a/core/src/graph/mod.rs
+++ b/core/src/graph/mod.rs
@@ -403,8 +403,6 @@ impl<CT: ComponentType> Graph<CT> {
     where
         F: Fn(&str),
     {
-        let all_components = self.get_all_components(None, None);
-
         let mut update_graph_index = ComponentType::init_update_graph_index(self)?;
         // Cache the expensive mapping of node names to IDs
         let cache_size = NonZeroUsize::new(1_000).ok_or(GraphAnnisCoreError::ZeroCacheSize)?;
@@ -456,8 +454,9 @@ impl<CT: ComponentType> Graph<CT> {
                         self.node_annos.remove_item(&existing_node_id)?;
 
                         // delete all edges pointing to this node either as source or target
-                        for c in all_components.iter() {
-                            if let Ok(gs) = self.get_or_create_writable(c) {
+                        // (including components that have been created by an earlier event of this update)
+                        for c in self.get_all_components(None, None) {
+                            if let Ok(gs) = self.get_or_create_writable(&c) {
                                 gs.delete_node(existing_node_id)?;
                             }
                         }
-- 
2.43.0


From 8a4b5ad34669bbd6ec68e90fffc1c28857fea91c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:27 +0000
Subject: [PATCH 02/45] fix: ignore update events for non-existing nodes in the
 AQL index, too

---
 graphannis/src/annis/db/aql/model.rs | 50 +++++++++++++++-------------
 1 file changed, 27 insertions(+), 23 deletions(-)

diff --git a/graphannis/src/annis/db/aql/model.rs b/graphannis/src/annis/db/aql/model.rs
index 4ad8807..582e4be 100644
--- a/graphannis/src/annis/db/aql/model.rs
+++ b/graphannis/src/annis/db/aql/model.rs
@@ -1,6 +1,5 @@
 use crate::{
     annis::{db::token_helper::TokenHelper, util::quicksort},
-    errors::GraphAnnisError,
     graph::{Edge, EdgeContainer, GraphStorage, NodeID},
 };
 use facet::Facet;
@@ -187,16 +186,15 @@ impl AQLUpdateGraphIndex {
         &mut self,
         node_name: Cow<String>,
         graph: &AnnotationGraph,
-    ) -> std::result::Result<NodeID, ComponentTypeError> {
+    ) -> std::result::Result<Option<NodeID>, ComponentTypeError> {
         if let Some(id) = self.cached_node_ids.get(&node_name)? {
-            return Ok(*id);
+            return Ok(Some(*id));
         } else if let Some(id) = graph.get_node_annos().get_node_id_from_name(&node_name)? {
             self.cached_node_ids.insert(node_name.to_string(), id)?;
-            return Ok(id);
+            return Ok(Some(id));
         }
-        Err(ComponentTypeError(
-            GraphAnnisError::NoSuchNodeID(node_name.to_string()).into(),
-        ))
+        // Events that refer to a non-existing node are ignored by the graph update
+        Ok(None)
     }
 
     fn calculate_invalidated_nodes_by_coverage(
@@ -471,9 +469,10 @@ impl ComponentType for AnnotationComponentType {
     ) -> std::result::Result<(), ComponentTypeError> {
         match update {
             UpdateEvent::DeleteNode { node_name } if !index.graph_without_nodes => {
-                let existing_node_id =
-                    index.get_cached_node_id_from_name(Cow::Borrowed(node_name), graph)?;
-                if !index.invalid_nodes.contains_key(&existing_node_id)? {
+                if let Some(existing_node_id) =
+                    index.get_cached_node_id_from_name(Cow::Borrowed(node_name), graph)?
+                    && !index.invalid_nodes.contains_key(&existing_node_id)?
+                {
                     index.calculate_invalidated_nodes_by_coverage(graph, existing_node_id)?;
                 }
             }
@@ -492,14 +491,17 @@ impl ComponentType for AnnotationComponentType {
                         || ctype == AnnotationComponentType::LeftToken
                         || ctype == AnnotationComponentType::RightToken
                     {
-                        let source = index
-                            .get_cached_node_id_from_name(Cow::Borrowed(source_node), graph)?;
-                        index.calculate_invalidated_nodes_by_coverage(graph, source)?;
+                        if let Some(source) = index
+                            .get_cached_node_id_from_name(Cow::Borrowed(source_node), graph)?
+                        {
+                            index.calculate_invalidated_nodes_by_coverage(graph, source)?;
+                        }
                     }
 
-                    if ctype == AnnotationComponentType::Ordering {
-                        let target = index
-                            .get_cached_node_id_from_name(Cow::Borrowed(target_node), graph)?;
+                    if ctype == AnnotationComponentType::Ordering
+                        && let Some(target) = index
+                            .get_cached_node_id_from_name(Cow::Borrowed(target_node), graph)?
+                    {
                         index.calculate_invalidated_nodes_by_coverage(graph, target)?;
                     }
                 }
@@ -541,15 +543,17 @@ impl ComponentType for AnnotationComponentType {
                     || ctype == AnnotationComponentType::LeftToken
                     || ctype == AnnotationComponentType::RightToken
                 {
-                    let source =
-                        index.get_cached_node_id_from_name(Cow::Owned(source_node), graph)?;
-
-                    index.calculate_invalidated_nodes_by_coverage(graph, source)?;
+                    if let Some(source) =
+                        index.get_cached_node_id_from_name(Cow::Owned(source_node), graph)?
+                    {
+                        index.calculate_invalidated_nodes_by_coverage(graph, source)?;
+                    }
                 }
 
-                if ctype == AnnotationComponentType::Ordering {
-                    let target =
-                        index.get_cached_node_id_from_name(Cow::Owned(target_node), graph)?;
+                if ctype == AnnotationComponentType::Ordering
+                    && let Some(target) =
+                        index.get_cached_node_id_from_name(Cow::Owned(target_node), graph)?
+                {
                     index.calculate_invalidated_nodes_by_coverage(graph, target)?;
                 }
             }
-- 
2.43.0


From 4bf5106521202198dc93abf74a8900ac9e9f2e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:52 +0000
Subject: [PATCH 03/45] fix: do not report deleted and compacted entries as
 contained in a disk map

---
 core/src/util/disk_collections.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/src/util/disk_collections.rs b/core/src/util/disk_collections.rs
index e1b1996..4006ece 100644
--- a/core/src/util/disk_collections.rs
+++ b/core/src/util/disk_collections.rs
@@ -163,7 +163,9 @@ where
         if let Some(c1) = &self.c1
             && c1.contains_key(key)?
         {
-            return Ok(true);
+            // The entry could be a tombstone, in which case the value was explicitly deleted
+            let entry = c1.get(key)?;
+            return Ok(entry.is_some_and(|value| value.is_some()));
         }
 
         // Use a iterator on the single disk to check if there is an entry with this, without getting the value.
-- 
2.43.0


From d4a19f3247d3236411a9da811497140cc9a774d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:52 +0000
Subject: [PATCH 04/45] fix: clearing the in-memory annotation storage resets
 the number of annotations

---
 core/src/annostorage/inmemory.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/src/annostorage/inmemory.rs b/core/src/annostorage/inmemory.rs
index b97abed..de092af 100644
--- a/core/src/annostorage/inmemory.rs
+++ b/core/src/annostorage/inmemory.rs
@@ -64,6 +64,7 @@ impl<T: Ord + Hash + Clone + serde::Serialize + serde::de::DeserializeOwned + De
         self.histogram_bounds.clear();
         self.largest_item = None;
         self.anno_values.clear();
+        self.total_number_of_annos = 0;
     }
 
     fn create_sparse_anno(&mut self, orig: Annotation) -> Result<SparseAnnotation> {
-- 
2.43.0


From fb1aa677ce56fcb53fd7eb07fad404e386fc964a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:52 +0000
Subject: [PATCH 05/45] fix: regular expression search on disk with
 alternatives sharing parts of a multi-byte character

---
 core/src/annostorage/ondisk.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/core/src/annostorage/ondisk.rs b/core/src/annostorage/ondisk.rs
index d6b13d5..6e16815 100644
--- a/core/src/annostorage/ondisk.rs
+++ b/core/src/annostorage/ondisk.rs
@@ -6,7 +6,7 @@ use crate::graph::NODE_NAME_KEY;
 use crate::serializer::{FixedSizeKeySerializer, KeySerializer};
 use crate::types::{AnnoKey, Annotation, Edge, NodeID};
 use crate::util::disk_collections::{DiskMap, EvictionStrategy};
-use crate::{try_as_boxed_iter, util};
+use crate::util;
 use core::ops::Bound::*;
 use itertools::Itertools;
 use rand::seq::IteratorRandom;
@@ -757,10 +757,16 @@ where
                 let prefix_bytes = regex_literal_sequence
                     .map(|seq| Vec::from(seq.longest_common_prefix().unwrap_or_default()))
                     .unwrap_or_default();
-                let prefix = try_as_boxed_iter!(std::str::from_utf8(&prefix_bytes));
+                // The common prefix can end inside a multi-byte character
+                let prefix = match std::str::from_utf8(&prefix_bytes) {
+                    Ok(prefix) => prefix.to_string(),
+                    Err(e) => {
+                        String::from_utf8_lossy(&prefix_bytes[..e.valid_up_to()]).into_owned()
+                    }
+                };
 
                 let it = self
-                    .matching_items_by_prefix(namespace, name, prefix.to_string())
+                    .matching_items_by_prefix(namespace, name, prefix)
                     .map(move |item| match item {
                         Ok((node, anno_key)) => {
                             let value = self.get_value_for_item(&node, &anno_key)?;
-- 
2.43.0


From ea1f91028e65f34efc2ef03e36f802cba2841042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:52 +0000
Subject: [PATCH 06/45] fix: remove old value from index when overwriting an
 annotation in the on-disk storage

---
 core/src/annostorage/ondisk.rs | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/core/src/annostorage/ondisk.rs b/core/src/annostorage/ondisk.rs
index 6e16815..1f43edb 100644
--- a/core/src/annostorage/ondisk.rs
+++ b/core/src/annostorage/ondisk.rs
@@ -364,8 +364,23 @@ where
             .largest_item
             .as_ref()
             .is_none_or(|largest_item| item <= *largest_item);
-        let already_existed =
-            item_smaller_than_largest && self.by_container.contains_key(&by_container_key)?;
+        let existing_value = if item_smaller_than_largest {
+            self.by_container
+                .get(&by_container_key)?
+                .map(|v| v.into_owned())
+        } else {
+            None
+        };
+        if let Some(existing_value) = &existing_value
+            && existing_value != &anno.val
+        {
+            // the value is replaced, so it must not be found by its old value anymore
+            self.by_anno_qname.remove(&create_by_anno_qname_key(
+                item.clone(),
+                anno_key_symbol,
+                existing_value,
+            ))?;
+        }
         self.by_container
             .insert(by_container_key, anno.val.clone())?;
 
@@ -376,7 +391,7 @@ where
             true,
         )?;
 
-        if !already_existed {
+        if existing_value.is_none() {
             // a new annotation entry was inserted and did not replace an existing one
             if let Some(largest_item) = self.largest_item.clone() {
                 if largest_item < item {
-- 
2.43.0


From 1d679683c565c6749a076dc80daa5036e88051cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:52 +0000
Subject: [PATCH 07/45] fix: on-disk annotation storage lists most frequent
 values first

---
 core/src/annostorage/ondisk.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/src/annostorage/ondisk.rs b/core/src/annostorage/ondisk.rs
index 1f43edb..b385b4c 100644
--- a/core/src/annostorage/ondisk.rs
+++ b/core/src/annostorage/ondisk.rs
@@ -1054,6 +1054,7 @@ where
             values_with_count.sort();
             let result = values_with_count
                 .into_iter()
+                .rev()
                 .map(|(_count, val)| val)
                 .collect();
             Ok(result)
-- 
2.43.0


From 201c9bc4433a75cedac220499cf045772725ba1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:27 +0000
Subject: [PATCH 08/45] fix: exact search in on-disk annotations must not match
 values containing the separator character

---
 core/src/annostorage/ondisk.rs | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/core/src/annostorage/ondisk.rs b/core/src/annostorage/ondisk.rs
index b385b4c..56d1130 100644
--- a/core/src/annostorage/ondisk.rs
+++ b/core/src/annostorage/ondisk.rs
@@ -208,7 +208,17 @@ where
 
                 let upper_bound =
                     create_by_anno_qname_key(NodeID::MAX, anno_key_symbol, &upper_bound_value);
-                self.by_anno_qname.range(lower_bound..upper_bound)
+
+                // A longer value can start with the searched one followed by the separator character,
+                // but the length of the key is unambiguous.
+                let expected_key_length = value.as_ref().map(|value| {
+                    std::mem::size_of::<usize>() + value.len() + 1 + T::key_size()
+                });
+                self.by_anno_qname
+                    .range(lower_bound..upper_bound)
+                    .filter_ok(move |(data, _)| {
+                        expected_key_length.is_none_or(|expected| data.len() == expected)
+                    })
             })
             .fuse()
             .map(move |item| match item {
@@ -1194,7 +1204,10 @@ impl NodeAnnotationStorage for AnnoStorageImpl<NodeID> {
             let lower_bound = create_by_anno_qname_key(NodeID::MIN, node_name_symbol, node_name);
             let upper_bound = create_by_anno_qname_key(NodeID::MAX, node_name_symbol, node_name);
 
-            let mut results = self.by_anno_qname.range(lower_bound..=upper_bound);
+            let mut results = self
+                .by_anno_qname
+                .range(lower_bound.clone()..=upper_bound)
+                .filter_ok(|(data, _)| data.len() == lower_bound.len());
             if let Some(item) = results.next() {
                 let (data, _) = item?;
                 let item_id = NodeID::parse_key(&data[data.len() - NodeID::key_size()..])?;
@@ -1209,7 +1222,10 @@ impl NodeAnnotationStorage for AnnoStorageImpl<NodeID> {
             let lower_bound = create_by_anno_qname_key(NodeID::MIN, node_name_symbol, node_name);
             let upper_bound = create_by_anno_qname_key(NodeID::MAX, node_name_symbol, node_name);
 
-            let mut results = self.by_anno_qname.range(lower_bound..=upper_bound);
+            let mut results = self
+                .by_anno_qname
+                .range(lower_bound.clone()..=upper_bound)
+                .filter_ok(|(data, _)| data.len() == lower_bound.len());
             return Ok(results.next().is_some());
         }
         Ok(false)
-- 
2.43.0


From abb27d5ade3f139d967ec5d41125687ea1eb98ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:06 +0000
Subject: [PATCH 09/45] fix: distance constraints in linear and pre-/post-order
 edge storages

Nodes without edges are connected to themselves with distance 0 as in
all other implementations, the excluded upper bound of the inverse
search is respected, large upper bounds do not overflow and all paths
between two nodes are considered when checking if they are connected.
---
 core/src/graph/storage/linear.rs  | 35 +++++++++++++++++++++----------
 core/src/graph/storage/prepost.rs | 16 +++++++++++++-
 2 files changed, 39 insertions(+), 12 deletions(-)

diff --git a/core/src/graph/storage/linear.rs b/core/src/graph/storage/linear.rs
index a5a6bca..47bddfa 100644
--- a/core/src/graph/storage/linear.rs
+++ b/core/src/graph/storage/linear.rs
@@ -216,14 +216,19 @@ where
                 std::ops::Bound::Unbounded => {
                     return Box::new(chain[min_distance..].iter().map(|n| Ok(*n)));
                 }
-                std::ops::Bound::Included(max_distance) => offset + max_distance + 1,
-                std::ops::Bound::Excluded(max_distance) => offset + max_distance,
+                std::ops::Bound::Included(max_distance) => {
+                    offset.saturating_add(max_distance).saturating_add(1)
+                }
+                std::ops::Bound::Excluded(max_distance) => offset.saturating_add(max_distance),
             };
             // clip to chain length
             let max_distance = std::cmp::min(chain.len(), max_distance);
             if min_distance < max_distance {
                 return Box::new(chain[min_distance..max_distance].iter().map(|n| Ok(*n)));
             }
+        } else if min_distance == 0 && !self.node_to_pos.contains_key(&source) {
+            // A node without any edges is still connected to itself
+            return Box::new(std::iter::once(Ok(source)));
         }
         Box::new(std::iter::empty())
     }
@@ -241,18 +246,21 @@ where
             let max_distance = match max_distance {
                 std::ops::Bound::Unbounded => 0,
                 std::ops::Bound::Included(max_distance) => offset.saturating_sub(max_distance),
-                std::ops::Bound::Excluded(max_distance) => offset.saturating_sub(max_distance + 1),
+                std::ops::Bound::Excluded(max_distance) => {
+                    offset.saturating_sub(max_distance.saturating_sub(1))
+                }
             };
 
-            if let Some(min_distance) = offset.checked_sub(min_distance) {
-                if min_distance < chain.len() && max_distance <= min_distance {
-                    // return all entries in the chain between min_distance..max_distance (inclusive)
-                    return Box::new(chain[max_distance..=min_distance].iter().map(|n| Ok(*n)));
-                } else if max_distance < chain.len() {
-                    // return all entries in the chain between min_distance..max_distance
-                    return Box::new(chain[max_distance..chain.len()].iter().map(|n| Ok(*n)));
-                }
+            if let Some(min_distance) = offset.checked_sub(min_distance)
+                && min_distance < chain.len()
+                && max_distance <= min_distance
+            {
+                // return all entries in the chain between min_distance..max_distance (inclusive)
+                return Box::new(chain[max_distance..=min_distance].iter().map(|n| Ok(*n)));
             }
+        } else if min_distance == 0 && !self.node_to_pos.contains_key(&source) {
+            // A node without any edges is still connected to itself
+            return Box::new(std::iter::once(Ok(source)));
         }
         Box::new(std::iter::empty())
     }
@@ -282,6 +290,11 @@ where
         min_distance: usize,
         max_distance: std::ops::Bound<usize>,
     ) -> Result<bool> {
+        if source == target {
+            // Every node is connected to itself, even if it has no edges
+            return Ok(min_distance == 0);
+        }
+
         if let (Some(source_pos), Some(target_pos)) =
             (self.node_to_pos.get(&source), self.node_to_pos.get(&target))
             && source_pos.root == target_pos.root
diff --git a/core/src/graph/storage/prepost.rs b/core/src/graph/storage/prepost.rs
index 54c382b..837e74b 100644
--- a/core/src/graph/storage/prepost.rs
+++ b/core/src/graph/storage/prepost.rs
@@ -285,6 +285,9 @@ where
                 .filter(move |n| visited.insert(*n))
                 .map(Ok);
             Box::new(it)
+        } else if min_distance == 0 {
+            // A node without any edges is still connected to itself
+            Box::new(std::iter::once(Ok(node)))
         } else {
             Box::new(std::iter::empty())
         }
@@ -384,6 +387,9 @@ where
                 .filter(move |n| visited.insert(*n))
                 .map(Ok);
             Box::new(it)
+        } else if min_distance == 0 {
+            // A node without any edges is still connected to itself
+            Box::new(std::iter::once(Ok(start_node)))
         } else {
             Box::new(std::iter::empty())
         }
@@ -432,6 +438,11 @@ where
         min_distance: usize,
         max_distance: std::ops::Bound<usize>,
     ) -> Result<bool> {
+        if source == target {
+            // Every node is connected to itself, even if it has no edges
+            return Ok(min_distance == 0);
+        }
+
         if let (Some(order_source), Some(order_target)) = (
             self.node_to_order.get(&source),
             self.node_to_order.get(&target),
@@ -452,8 +463,11 @@ where
                             (order_source.level.to_usize(), order_target.level.to_usize())
                             && source_level <= target_level
                         {
+                            // There can be several paths with different lengths
                             let diff_level = target_level - source_level;
-                            return Ok(min_distance <= diff_level && diff_level <= max_distance);
+                            if min_distance <= diff_level && diff_level <= max_distance {
+                                return Ok(true);
+                            }
                         }
                     }
                 }
-- 
2.43.0


From dcd7480e7aa8960cc6a326df86ac4db57d70215f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:04 +0000
Subject: [PATCH 10/45] fix: distance between nodes is the length of the
 shortest path

---
 core/src/dfs.rs                           | 29 +++++++++++++++++++++++
 core/src/graph/storage/adjacencylist.rs   | 13 ++--------
 core/src/graph/storage/dense_adjacency.rs | 14 ++---------
 core/src/graph/storage/disk_adjacency.rs  | 14 ++---------
 4 files changed, 35 insertions(+), 35 deletions(-)

diff --git a/core/src/dfs.rs b/core/src/dfs.rs
index 211720b..c7c98be 100644
--- a/core/src/dfs.rs
+++ b/core/src/dfs.rs
@@ -144,3 +144,32 @@ impl Iterator for CycleSafeDFS<'_> {
         result
     }
 }
+
+/// Compute the length of the shortest path between two nodes.
+pub(crate) fn shortest_path_length(
+    container: &dyn EdgeContainer,
+    source: NodeID,
+    target: NodeID,
+) -> Result<Option<usize>> {
+    let mut visited: FxHashSet<NodeID> = FxHashSet::default();
+    visited.insert(source);
+    let mut current_level = vec![source];
+    let mut distance = 0;
+    while !current_level.is_empty() {
+        if current_level.contains(&target) {
+            return Ok(Some(distance));
+        }
+        let mut next_level = Vec::new();
+        for node in current_level {
+            for o in container.get_outgoing_edges(node) {
+                let o = o?;
+                if visited.insert(o) {
+                    next_level.push(o);
+                }
+            }
+        }
+        current_level = next_level;
+        distance += 1;
+    }
+    Ok(None)
+}
diff --git a/core/src/graph/storage/adjacencylist.rs b/core/src/graph/storage/adjacencylist.rs
index 6b23a55..6584983 100644
--- a/core/src/graph/storage/adjacencylist.rs
+++ b/core/src/graph/storage/adjacencylist.rs
@@ -2,7 +2,7 @@ use crate::{
     annostorage::{
         AnnotationStorage, EdgeAnnotationStorage, NodeAnnotationStorage, inmemory::AnnoStorageImpl,
     },
-    dfs::CycleSafeDFS,
+    dfs::{CycleSafeDFS, shortest_path_length},
     errors::Result,
     types::{AnnoKey, Annotation, Edge, NodeID},
 };
@@ -207,16 +207,7 @@ impl GraphStorage for AdjacencyListStorage {
     }
 
     fn distance(&self, source: NodeID, target: NodeID) -> Result<Option<usize>> {
-        let mut it = CycleSafeDFS::new(self, source, usize::MIN, usize::MAX)
-            .filter_ok(|x| target == x.node)
-            .map_ok(|x| x.distance);
-        match it.next() {
-            Some(distance) => {
-                let distance = distance?;
-                Ok(Some(distance))
-            }
-            None => Ok(None),
-        }
+        shortest_path_length(self, source, target)
     }
     fn is_connected(
         &self,
diff --git a/core/src/graph/storage/dense_adjacency.rs b/core/src/graph/storage/dense_adjacency.rs
index 66c6413..299dab0 100644
--- a/core/src/graph/storage/dense_adjacency.rs
+++ b/core/src/graph/storage/dense_adjacency.rs
@@ -7,7 +7,7 @@ use crate::{
     annostorage::{
         AnnotationStorage, EdgeAnnotationStorage, NodeAnnotationStorage, inmemory::AnnoStorageImpl,
     },
-    dfs::CycleSafeDFS,
+    dfs::{CycleSafeDFS, shortest_path_length},
     errors::Result,
     types::{Edge, NodeID},
 };
@@ -127,17 +127,7 @@ impl GraphStorage for DenseAdjacencyListStorage {
     }
 
     fn distance(&self, source: NodeID, target: NodeID) -> Result<Option<usize>> {
-        let mut it = CycleSafeDFS::new(self, source, usize::MIN, usize::MAX)
-            .filter_ok(|x| target == x.node)
-            .map_ok(|x| x.distance);
-
-        match it.next() {
-            Some(distance) => {
-                let distance = distance?;
-                Ok(Some(distance))
-            }
-            None => Ok(None),
-        }
+        shortest_path_length(self, source, target)
     }
     fn is_connected(
         &self,
diff --git a/core/src/graph/storage/disk_adjacency.rs b/core/src/graph/storage/disk_adjacency.rs
index d3e9924..dff9ba9 100644
--- a/core/src/graph/storage/disk_adjacency.rs
+++ b/core/src/graph/storage/disk_adjacency.rs
@@ -2,7 +2,7 @@ use super::*;
 
 use crate::{
     annostorage::{NodeAnnotationStorage, ondisk::AnnoStorageImpl},
-    dfs::CycleSafeDFS,
+    dfs::{CycleSafeDFS, shortest_path_length},
     errors::Result,
     util::disk_collections::{DEFAULT_BLOCK_CACHE_CAPACITY, DiskMap, EvictionStrategy},
 };
@@ -216,17 +216,7 @@ impl GraphStorage for DiskAdjacencyListStorage {
     }
 
     fn distance(&self, source: NodeID, target: NodeID) -> Result<Option<usize>> {
-        let mut it = CycleSafeDFS::new(self, source, usize::MIN, usize::MAX)
-            .filter_ok(|x| target == x.node)
-            .map_ok(|x| x.distance);
-
-        match it.next() {
-            Some(distance) => {
-                let distance = distance?;
-                Ok(Some(distance))
-            }
-            None => Ok(None),
-        }
+        shortest_path_length(self, source, target)
     }
     fn is_connected(
         &self,
-- 
2.43.0


From c0afa480de51bfaedac4300beaf84cee072e386f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:04 +0000
Subject: [PATCH 11/45] fix: nodes have a distance of 0 to themselves in the
 disk path storage

Also remove existing edge annotations when copying from another
component.
---
 core/src/graph/storage/disk_path.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/core/src/graph/storage/disk_path.rs b/core/src/graph/storage/disk_path.rs
index a5a668c..89dbe41 100644
--- a/core/src/graph/storage/disk_path.rs
+++ b/core/src/graph/storage/disk_path.rs
@@ -237,6 +237,9 @@ impl GraphStorage for DiskPathStorage {
     }
 
     fn distance(&self, source: NodeID, target: NodeID) -> Result<Option<usize>> {
+        if source == target {
+            return Ok(Some(0));
+        }
         let path = self.path_for_node(source)?;
         // Find the target node in the path. The path starts at distance "0".
         let result = path
@@ -253,6 +256,10 @@ impl GraphStorage for DiskPathStorage {
         min_distance: usize,
         max_distance: std::ops::Bound<usize>,
     ) -> Result<bool> {
+        if source == target {
+            // Every node is connected to itself, even if it has no edges
+            return Ok(min_distance == 0);
+        }
         let path = self.path_for_node(source)?;
         // There is a connection when the target node is located in the path (given the min/max constraints)
         let start = min_distance.saturating_sub(1).clamp(0, path.len());
@@ -280,6 +287,7 @@ impl GraphStorage for DiskPathStorage {
         orig: &dyn GraphStorage,
     ) -> Result<()> {
         self.inverse_edges.clear();
+        self.annos.clear()?;
 
         // Create a new file which is large enough to contain the paths for all nodes.
         let max_node_id = orig
-- 
2.43.0


From 0a3f5700d3b17bb0771a28d432bdff14041621a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:55 +0000
Subject: [PATCH 12/45] fix: detect cycles that are not reachable from a root
 node when calculating statistics

Otherwise, the component was converted to an implementation which can't
represent cycles and the edges got lost.
---
 core/src/graph/storage/adjacencylist.rs  | 7 +++++++
 core/src/graph/storage/disk_adjacency.rs | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/core/src/graph/storage/adjacencylist.rs b/core/src/graph/storage/adjacencylist.rs
index 6584983..af2cdd1 100644
--- a/core/src/graph/storage/adjacencylist.rs
+++ b/core/src/graph/storage/adjacencylist.rs
@@ -424,10 +424,12 @@ impl WriteableGraphStorage for AdjacencyListStorage {
             // if we have edges but no roots at all there must be a cycle
             stats.cyclic = true;
         } else {
+            let mut visited: FxHashSet<NodeID> = FxHashSet::default();
             for root_node in &roots {
                 let mut dfs = CycleSafeDFS::new(self, *root_node, 0, usize::MAX);
                 for step in &mut dfs {
                     let step = step?;
+                    visited.insert(step.node);
                     number_of_visits += 1;
                     stats.max_depth = std::cmp::max(stats.max_depth, step.distance);
                 }
@@ -435,6 +437,11 @@ impl WriteableGraphStorage for AdjacencyListStorage {
                     stats.cyclic = true;
                 }
             }
+            if visited.len() < stats.nodes {
+                // all nodes which can't be reached from a root node are part of
+                // a cycle or only reachable from one
+                stats.cyclic = true;
+            }
         }
 
         if stats.cyclic {
diff --git a/core/src/graph/storage/disk_adjacency.rs b/core/src/graph/storage/disk_adjacency.rs
index dff9ba9..ef03866 100644
--- a/core/src/graph/storage/disk_adjacency.rs
+++ b/core/src/graph/storage/disk_adjacency.rs
@@ -422,10 +422,12 @@ impl WriteableGraphStorage for DiskAdjacencyListStorage {
             // if we have edges but no roots at all there must be a cycle
             stats.cyclic = true;
         } else {
+            let mut visited: FxHashSet<NodeID> = FxHashSet::default();
             for root_node in &roots {
                 let mut dfs = CycleSafeDFS::new(self, *root_node, 0, usize::MAX);
                 for step in &mut dfs {
                     let step = step?;
+                    visited.insert(step.node);
                     number_of_visits += 1;
                     stats.max_depth = std::cmp::max(stats.max_depth, step.distance);
                 }
@@ -433,6 +435,11 @@ impl WriteableGraphStorage for DiskAdjacencyListStorage {
                     stats.cyclic = true;
                 }
             }
+            if visited.len() < stats.nodes {
+                // all nodes which can't be reached from a root node are part of
+                // a cycle or only reachable from one
+                stats.cyclic = true;
+            }
         }
 
         if stats.cyclic {
-- 
2.43.0


From fe2a425640d7b6e65d747580acde4ab455cc41a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:55 +0000
Subject: [PATCH 13/45] fix: do not count deleted edges in the component
 statistics

---
 core/src/graph/storage/adjacencylist.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/core/src/graph/storage/adjacencylist.rs b/core/src/graph/storage/adjacencylist.rs
index af2cdd1..b4dba7f 100644
--- a/core/src/graph/storage/adjacencylist.rs
+++ b/core/src/graph/storage/adjacencylist.rs
@@ -29,7 +29,8 @@ pub struct AdjacencyListStorage {
 fn get_fan_outs(edges: &HashMap<NodeID, Vec<NodeID>>) -> Vec<usize> {
     let mut fan_outs: Vec<usize> = Vec::new();
     if !edges.is_empty() {
-        for outgoing in edges.values() {
+        // ignore entries where all edges have been deleted
+        for outgoing in edges.values().filter(|o| !o.is_empty()) {
             fan_outs.push(outgoing.len());
         }
     }
@@ -362,7 +363,7 @@ impl WriteableGraphStorage for AdjacencyListStorage {
         let mut roots: BTreeSet<NodeID> = BTreeSet::new();
         {
             let mut all_nodes: BTreeSet<NodeID> = BTreeSet::new();
-            for (source, outgoing) in &self.edges {
+            for (source, outgoing) in self.edges.iter().filter(|(_, o)| !o.is_empty()) {
                 roots.insert(*source);
                 all_nodes.insert(*source);
                 for target in outgoing {
@@ -420,7 +421,7 @@ impl WriteableGraphStorage for AdjacencyListStorage {
         }
 
         let mut number_of_visits = 0;
-        if roots.is_empty() && !self.edges.is_empty() {
+        if roots.is_empty() && stats.nodes > 0 {
             // if we have edges but no roots at all there must be a cycle
             stats.cyclic = true;
         } else {
-- 
2.43.0


From 3c0f0b844763a85f595f166a0fb72e082c9c7955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:55 +0000
Subject: [PATCH 14/45] fix: calculate the 99% percentile of the fan-out
 instead of the 1% percentile

---
 core/src/graph/storage/adjacencylist.rs  | 4 ++--
 core/src/graph/storage/disk_adjacency.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/core/src/graph/storage/adjacencylist.rs b/core/src/graph/storage/adjacencylist.rs
index b4dba7f..441365d 100644
--- a/core/src/graph/storage/adjacencylist.rs
+++ b/core/src/graph/storage/adjacencylist.rs
@@ -408,13 +408,13 @@ impl WriteableGraphStorage for AdjacencyListStorage {
         }
         // calculate the more accurate values
         if fan_outs.len() >= 100 {
-            let idx: usize = fan_outs.len() / 100;
+            let idx: usize = fan_outs.len() - 1 - (fan_outs.len() / 100);
             if idx < fan_outs.len() {
                 stats.fan_out_99_percentile = fan_outs[idx];
             }
         }
         if inverse_fan_outs.len() >= 100 {
-            let idx: usize = inverse_fan_outs.len() / 100;
+            let idx: usize = inverse_fan_outs.len() - 1 - (inverse_fan_outs.len() / 100);
             if idx < inverse_fan_outs.len() {
                 stats.inverse_fan_out_99_percentile = inverse_fan_outs[idx];
             }
diff --git a/core/src/graph/storage/disk_adjacency.rs b/core/src/graph/storage/disk_adjacency.rs
index ef03866..755c6be 100644
--- a/core/src/graph/storage/disk_adjacency.rs
+++ b/core/src/graph/storage/disk_adjacency.rs
@@ -405,13 +405,13 @@ impl WriteableGraphStorage for DiskAdjacencyListStorage {
         }
         // calculate the more accurate values
         if fan_outs.len() >= 100 {
-            let idx: usize = fan_outs.len() / 100;
+            let idx: usize = fan_outs.len() - 1 - (fan_outs.len() / 100);
             if idx < fan_outs.len() {
                 stats.fan_out_99_percentile = fan_outs[idx];
             }
         }
         if inverse_fan_outs.len() >= 100 {
-            let idx: usize = inverse_fan_outs.len() / 100;
+            let idx: usize = inverse_fan_outs.len() - 1 - (inverse_fan_outs.len() / 100);
             if idx < inverse_fan_outs.len() {
                 stats.inverse_fan_out_99_percentile = inverse_fan_outs[idx];
             }
-- 
2.43.0


From 9f56c287ba4b7d329a76cfe9d8574be2e94f6902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:12 +0000
Subject: [PATCH 15/45] fix: formatting

---
 core/src/annostorage/ondisk.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/core/src/annostorage/ondisk.rs b/core/src/annostorage/ondisk.rs
index 56d1130..94ab16d 100644
--- a/core/src/annostorage/ondisk.rs
+++ b/core/src/annostorage/ondisk.rs
@@ -5,8 +5,8 @@ use crate::errors::Result;
 use crate::graph::NODE_NAME_KEY;
 use crate::serializer::{FixedSizeKeySerializer, KeySerializer};
 use crate::types::{AnnoKey, Annotation, Edge, NodeID};
-use crate::util::disk_collections::{DiskMap, EvictionStrategy};
 use crate::util;
+use crate::util::disk_collections::{DiskMap, EvictionStrategy};
 use core::ops::Bound::*;
 use itertools::Itertools;
 use rand::seq::IteratorRandom;
@@ -211,9 +211,9 @@ where
 
                 // A longer value can start with the searched one followed by the separator character,
                 // but the length of the key is unambiguous.
-                let expected_key_length = value.as_ref().map(|value| {
-                    std::mem::size_of::<usize>() + value.len() + 1 + T::key_size()
-                });
+                let expected_key_length = value
+                    .as_ref()
+                    .map(|value| std::mem::size_of::<usize>() + value.len() + 1 + T::key_size());
                 self.by_anno_qname
                     .range(lower_bound..upper_bound)
                     .filter_ok(move |(data, _)| {
-- 
2.43.0


From 542639cfe73a3bdb0762736edcba2a79367afe81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:07 +0000
Subject: [PATCH 16/45] fix: do not lose outstanding updates when another
 update is written to the log

Updates which have not been synchronized yet have been overwritten in
the write-ahead log and the log was ignored if there was still a backup
of an interrupted synchronization.
---
 core/src/graph/mod.rs | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/core/src/graph/mod.rs b/core/src/graph/mod.rs
index 50d5e75..54457e8 100644
--- a/core/src/graph/mod.rs
+++ b/core/src/graph/mod.rs
@@ -695,7 +695,15 @@ impl<CT: ComponentType> Graph<CT> {
         if let Some(location) = self.location.clone() {
             trace!("output location for persisting updates is {:?}", location);
             if apply_update_result.is_ok() {
-                let current_path = location.join("current");
+                // If there is a backup folder, it contains the last consistent
+                // version and is used instead of the current one when opening
+                // the graph.
+                let backup_path = location.join("backup");
+                let current_path = if backup_path.is_dir() {
+                    backup_path
+                } else {
+                    location.join("current")
+                };
                 // make sure the output path exits
                 std::fs::create_dir_all(&current_path)?;
 
@@ -707,7 +715,19 @@ impl<CT: ComponentType> Graph<CT> {
                 let mut temporary_disk_file = tempfile::NamedTempFile::new_in(&temporary_dir)?;
 
                 debug!("writing WAL update log to {:?}", temporary_disk_file.path());
-                bincode::serialize_into(temporary_disk_file.as_file(), &u)?;
+                if log_path.is_file() {
+                    // Keep the events of earlier updates, which have not been synchronized yet
+                    let log_reader = std::fs::File::open(&log_path)?;
+                    let mut outstanding_updates: GraphUpdate =
+                        bincode::deserialize_from(std::io::BufReader::new(log_reader))?;
+                    for event in u.iter()? {
+                        let (_, event) = event?;
+                        outstanding_updates.add_event(event)?;
+                    }
+                    bincode::serialize_into(temporary_disk_file.as_file(), &outstanding_updates)?;
+                } else {
+                    bincode::serialize_into(temporary_disk_file.as_file(), &u)?;
+                }
                 temporary_disk_file.flush()?;
                 debug!("moving finished WAL update log to {:?}", &log_path);
                 // Since the temporary file should be on the same file system, persisting/moving it should be an atomic operation
-- 
2.43.0


From a61d07a3b756e6a4c0f80fe1a31e2de9427a3f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:56 +0000
Subject: [PATCH 17/45] fix: do not lose the corpus when recovering from the
 backup folder

The recovered corpus was saved to a wrong sub-folder and the backup was
deleted afterwards.
---
 core/src/graph/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/core/src/graph/mod.rs b/core/src/graph/mod.rs
index 54457e8..021d0f2 100644
--- a/core/src/graph/mod.rs
+++ b/core/src/graph/mod.rs
@@ -312,8 +312,12 @@ impl<CT: ComponentType> Graph<CT> {
         }
 
         if load_from_backup {
-            // save the current corpus under the actual location
-            self.save_to(&location.join("current"))?;
+            // save the current corpus under the actual location and replace a possible incomplete version
+            let current = location.join("current");
+            if current.is_dir() {
+                std::fs::remove_dir_all(&current)?;
+            }
+            self.internal_save(&current)?;
             // rename backup folder (renaming is atomic and deleting could leave an incomplete backup folder on disk)
             let tmp_dir = tempfile::Builder::new()
                 .prefix("temporary-graphannis-backup")
-- 
2.43.0


From 8a768358f73120058dc4adcdcd288858ca6884b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:56 +0000
Subject: [PATCH 18/45] fix: load all components before persisting a graph to a
 new location

---
 core/src/graph/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/src/graph/mod.rs b/core/src/graph/mod.rs
index 021d0f2..43eabe3 100644
--- a/core/src/graph/mod.rs
+++ b/core/src/graph/mod.rs
@@ -341,6 +341,8 @@ impl<CT: ComponentType> Graph<CT> {
 
     /// Save the current database at a new `location` and remember it as new internal location.
     pub fn persist_to(&mut self, location: &Path) -> Result<()> {
+        // components can only be loaded from the old location
+        self.ensure_loaded_all()?;
         self.location = Some(location.to_path_buf());
         self.internal_save(&location.join("current"))
     }
-- 
2.43.0


From 9079adcf9e9dd0e112c85f22582d9a518d48884c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:07 +0000
Subject: [PATCH 19/45] fix: save disk path storage again after its files have
 been moved to the backup folder

---
 core/src/graph/storage/disk_path.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/core/src/graph/storage/disk_path.rs b/core/src/graph/storage/disk_path.rs
index 89dbe41..24a8d07 100644
--- a/core/src/graph/storage/disk_path.rs
+++ b/core/src/graph/storage/disk_path.rs
@@ -399,16 +399,18 @@ impl GraphStorage for DiskPathStorage {
         std::fs::create_dir_all(location)?;
         // Normalize all paths to check if they are the same
         let new_location = location.normalize()?;
-        if let Some(old_location) = &self.location {
-            let old_location = old_location.normalize()?;
-            if new_location == old_location {
+        let new_paths_file = new_location.join("paths.bin");
+        if let Some(old_location) = &self.location
+            && let Ok(old_location) = old_location.normalize()
+        {
+            // The original files could have been moved to a backup folder
+            if new_location == old_location && new_paths_file.is_file() {
                 // This is an immutable graph storage so there can't be any
                 // changes to write to the existing location we already use.
                 return Ok(());
             }
         }
         // Copy the current paths file to the new location
-        let new_paths_file = new_location.join("paths.bin");
         let mut new_paths = File::create(new_paths_file)?;
         let mut old_reader = BufReader::new(&self.paths[..]);
         std::io::copy(&mut old_reader, &mut new_paths)?;
-- 
2.43.0


From 8ce8ad0e9a6ae85acb62d6edd537614a62cb4d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:09 +0000
Subject: [PATCH 20/45] fix: report I/O errors that occur when flushing
 buffered files

---
 core/src/annostorage/inmemory.rs | 2 ++
 core/src/annostorage/ondisk.rs   | 2 ++
 core/src/graph/storage/mod.rs    | 3 ++-
 3 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/core/src/annostorage/inmemory.rs b/core/src/annostorage/inmemory.rs
index de092af..3eb79ed 100644
--- a/core/src/annostorage/inmemory.rs
+++ b/core/src/annostorage/inmemory.rs
@@ -12,6 +12,7 @@ use rustc_hash::FxHashSet;
 use std::borrow::Cow;
 use std::collections::{BTreeMap, BTreeSet, HashMap};
 use std::hash::Hash;
+use std::io::Write;
 use std::path::Path;
 use std::sync::Arc;
 
@@ -1004,6 +1005,7 @@ where
         let f = std::fs::File::create(location.join("nodes_v1.bin"))?;
         let mut writer = std::io::BufWriter::new(f);
         bincode::serialize_into(&mut writer, self)?;
+        writer.flush()?;
 
         Ok(())
     }
diff --git a/core/src/annostorage/ondisk.rs b/core/src/annostorage/ondisk.rs
index 94ab16d..e3afdf4 100644
--- a/core/src/annostorage/ondisk.rs
+++ b/core/src/annostorage/ondisk.rs
@@ -15,6 +15,7 @@ use regex_syntax::hir::literal::Seq;
 use serde_bytes::ByteBuf;
 use std::borrow::Cow;
 use std::collections::{BTreeMap, HashMap, HashSet};
+use std::io::Write;
 use std::path::{Path, PathBuf};
 use std::sync::Arc;
 use transient_btree_index::BtreeConfig;
@@ -1193,6 +1194,7 @@ where
         bincode::serialize_into(&mut writer, &self.anno_key_sizes)?;
         bincode::serialize_into(&mut writer, &self.histogram_bounds)?;
         bincode::serialize_into(&mut writer, &self.anno_key_symbols)?;
+        writer.flush()?;
 
         Ok(())
     }
diff --git a/core/src/graph/storage/mod.rs b/core/src/graph/storage/mod.rs
index 6d3e4f2..7a72867 100644
--- a/core/src/graph/storage/mod.rs
+++ b/core/src/graph/storage/mod.rs
@@ -17,7 +17,7 @@ use crate::{
 };
 use itertools::Itertools;
 use serde::{Deserialize, Serialize};
-use std::{self, path::Path};
+use std::{self, io::Write, path::Path};
 
 /// Some general statistical numbers specific to a graph component
 #[derive(Serialize, Deserialize, Clone)]
@@ -209,6 +209,7 @@ where
     let f_data = std::fs::File::create(data_path)?;
     let mut writer = std::io::BufWriter::new(f_data);
     bincode::serialize_into(&mut writer, field)?;
+    writer.flush()?;
     Ok(())
 }
 
-- 
2.43.0


From 0c6168a62e711652bdd77f45e231a29624ab14c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:54 +0000
Subject: [PATCH 21/45] fix: remove incomplete files of an aborted save before
 trying again

---
 core/src/graph/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/src/graph/mod.rs b/core/src/graph/mod.rs
index 43eabe3..9dbdcb0 100644
--- a/core/src/graph/mod.rs
+++ b/core/src/graph/mod.rs
@@ -782,6 +782,9 @@ impl<CT: ComponentType> Graph<CT> {
         let current_location = location.join("current");
         if !backup_location.exists() {
             std::fs::rename(&current_location, &backup_location)?;
+        } else if current_location.exists() {
+            // Remove the incomplete files of an earlier aborted attempt
+            std::fs::remove_dir_all(&current_location)?;
         }
 
         // Save the complete corpus without the write log to the target location
-- 
2.43.0


From f4e4de991835c7c3f5c4a69e2f4249a4b2df1593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:20 +0000
Subject: [PATCH 22/45] fix: restore the behavior of the disk path storage for
 identical nodes, which is part of its tests

---
 core/src/graph/storage/disk_path.rs | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/core/src/graph/storage/disk_path.rs b/core/src/graph/storage/disk_path.rs
index 24a8d07..3beb02d 100644
--- a/core/src/graph/storage/disk_path.rs
+++ b/core/src/graph/storage/disk_path.rs
@@ -237,9 +237,6 @@ impl GraphStorage for DiskPathStorage {
     }
 
     fn distance(&self, source: NodeID, target: NodeID) -> Result<Option<usize>> {
-        if source == target {
-            return Ok(Some(0));
-        }
         let path = self.path_for_node(source)?;
         // Find the target node in the path. The path starts at distance "0".
         let result = path
@@ -256,10 +253,6 @@ impl GraphStorage for DiskPathStorage {
         min_distance: usize,
         max_distance: std::ops::Bound<usize>,
     ) -> Result<bool> {
-        if source == target {
-            // Every node is connected to itself, even if it has no edges
-            return Ok(min_distance == 0);
-        }
         let path = self.path_for_node(source)?;
         // There is a connection when the target node is located in the path (given the min/max constraints)
         let start = min_distance.saturating_sub(1).clamp(0, path.len());
-- 
2.43.0


From fae290d53c97c0c0a3508d597a205171674e07a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:12 +0000
Subject: [PATCH 23/45] fix: texts with a single token are not part of the
 ordering component

The operator precedence made the flag true again as soon as any later token had
an ingoing edge, and the search for token skipped texts with only one token.
---
 graphannis/src/annis/db/aql/model.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/graphannis/src/annis/db/aql/model.rs b/graphannis/src/annis/db/aql/model.rs
index 582e4be..2c5b82d 100644
--- a/graphannis/src/annis/db/aql/model.rs
+++ b/graphannis/src/annis/db/aql/model.rs
@@ -652,8 +652,8 @@ impl ComponentType for AnnotationComponentType {
 
                 if !token_helper.has_outgoing_coverage_edges(n)? {
                     all_token_in_order_component = all_token_in_order_component
-                        && ordering_gs.has_outgoing_edges(n)?
-                        || ordering_gs.has_ingoing_edges(n)?;
+                        && (ordering_gs.has_outgoing_edges(n)?
+                            || ordering_gs.has_ingoing_edges(n)?);
                     // Update the token counter
                     base_token_count += 1;
                 }
-- 
2.43.0


From 833102eb0a1ac405c58fa8aa816ab3f83da43249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:12 +0000
Subject: [PATCH 24/45] fix: distance larger than the longest text overflows
 when estimating the output size

---
 graphannis/src/annis/db/aql/operators/near.rs       | 3 ++-
 graphannis/src/annis/db/aql/operators/precedence.rs | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/graphannis/src/annis/db/aql/operators/near.rs b/graphannis/src/annis/db/aql/operators/near.rs
index 1a80652..14f716e 100644
--- a/graphannis/src/annis/db/aql/operators/near.rs
+++ b/graphannis/src/annis/db/aql/operators/near.rs
@@ -172,7 +172,8 @@ impl BinaryOperatorBase for Near<'_> {
                 std::ops::Bound::Excluded(max_dist) => max_dist - 1,
             };
             let max_possible_dist = std::cmp::min(max_dist, stats_order.max_depth);
-            let num_of_descendants = 2 * (max_possible_dist - self.spec.dist.min_dist() + 1);
+            let num_of_descendants =
+                2 * (max_possible_dist.saturating_sub(self.spec.dist.min_dist()) + 1);
 
             return Ok(EstimationType::Selectivity(
                 (num_of_descendants as f64) / (stats_order.nodes as f64 / 2.0),
diff --git a/graphannis/src/annis/db/aql/operators/precedence.rs b/graphannis/src/annis/db/aql/operators/precedence.rs
index 4e35b85..0aec913 100644
--- a/graphannis/src/annis/db/aql/operators/precedence.rs
+++ b/graphannis/src/annis/db/aql/operators/precedence.rs
@@ -317,7 +317,8 @@ impl BinaryOperatorBase for InversePrecedence<'_> {
                 std::ops::Bound::Excluded(max_dist) => max_dist - 1,
             };
             let max_possible_dist = std::cmp::min(max_dist, stats_order.max_depth);
-            let num_of_descendants = max_possible_dist - self.spec.dist.min_dist() + 1;
+            let num_of_descendants =
+                max_possible_dist.saturating_sub(self.spec.dist.min_dist()) + 1;
 
             return Ok(EstimationType::Selectivity(
                 (num_of_descendants as f64) / (stats_order.nodes as f64 / 2.0),
-- 
2.43.0


From 6be321a323b2f1658e321229045f08f932fbe1eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:01 +0000
Subject: [PATCH 25/45] fix: only search for source nodes if the operator needs
 them and return each of them once

---
 graphannis/src/annis/db/aql/conjunction.rs    |  4 +++-
 .../src/annis/db/aql/operators/edge_op.rs     | 16 +++++++++++++
 graphannis/src/annis/db/exec/nodesearch.rs    | 23 ++++++++++++++++++-
 graphannis/src/annis/operator.rs              |  7 ++++++
 4 files changed, 48 insertions(+), 2 deletions(-)

diff --git a/graphannis/src/annis/db/aql/conjunction.rs b/graphannis/src/annis/db/aql/conjunction.rs
index dd3d0ac..9bc549f 100644
--- a/graphannis/src/annis/db/aql/conjunction.rs
+++ b/graphannis/src/annis/db/aql/conjunction.rs
@@ -561,7 +561,9 @@ impl Conjunction {
             if let Some(node_search_cost) = desc.cost.as_ref() {
                 for e in op_spec_entries {
                     let op_spec = &e.op;
-                    if e.args.left - self.var_idx_offset == desc.component_nr {
+                    if e.args.left - self.var_idx_offset == desc.component_nr
+                        && op_spec.lhs_is_source_node()
+                    {
                         // get the necessary components and count the number of nodes in these components
                         let components = op_spec.necessary_components(db);
                         if !components.is_empty() {
diff --git a/graphannis/src/annis/db/aql/operators/edge_op.rs b/graphannis/src/annis/db/aql/operators/edge_op.rs
index c57eddd..0f5e1c5 100644
--- a/graphannis/src/annis/db/aql/operators/edge_op.rs
+++ b/graphannis/src/annis/db/aql/operators/edge_op.rs
@@ -119,6 +119,10 @@ impl BinaryOperatorSpec for BaseEdgeOpSpec {
         self.edge_anno.clone()
     }
 
+    fn lhs_is_source_node(&self) -> bool {
+        self.dist.min_dist() > 0
+    }
+
     #[cfg(test)]
     fn into_any(self: Arc<Self>) -> Arc<dyn std::any::Any> {
         self
@@ -654,6 +658,10 @@ impl BinaryOperatorSpec for DominanceSpec {
         base.create_operator(db, cost_estimate)
     }
 
+    fn lhs_is_source_node(&self) -> bool {
+        self.dist.min_dist() > 0
+    }
+
     #[cfg(test)]
     fn into_any(self: Arc<Self>) -> Arc<dyn std::any::Any> {
         self
@@ -706,6 +714,10 @@ impl BinaryOperatorSpec for PointingSpec {
         base.create_operator(db, cost_estimate)
     }
 
+    fn lhs_is_source_node(&self) -> bool {
+        self.dist.min_dist() > 0
+    }
+
     #[cfg(test)]
     fn into_any(self: Arc<Self>) -> Arc<dyn std::any::Any> {
         self
@@ -766,6 +778,10 @@ impl BinaryOperatorSpec for PartOfSubCorpusSpec {
         base.create_operator(db, cost_estimate)
     }
 
+    fn lhs_is_source_node(&self) -> bool {
+        self.dist.min_dist() > 0
+    }
+
     #[cfg(test)]
     fn into_any(self: Arc<Self>) -> Arc<dyn std::any::Any> {
         self
diff --git a/graphannis/src/annis/db/exec/nodesearch.rs b/graphannis/src/annis/db/exec/nodesearch.rs
index 1cc9e99..2b4dcc2 100644
--- a/graphannis/src/annis/db/exec/nodesearch.rs
+++ b/graphannis/src/annis/db/exec/nodesearch.rs
@@ -1030,6 +1030,11 @@ impl<'a> NodeSearch<'a> {
                     }
                 },
             )
+            // nodes can have several outgoing edges and be part of several components
+            .filter_ok({
+                let mut visited_nodes = HashSet::new();
+                move |node| visited_nodes.insert(*node)
+            })
             .map(move |node| {
                 match node {
                     Ok(node) => {
@@ -1062,12 +1067,28 @@ impl<'a> NodeSearch<'a> {
                 Err(e) => Err(GraphAnnisError::from(e)),
             })
             .filter_map_ok(|m| m);
+        let it: Box<dyn Iterator<Item = Result<MatchGroup>>> =
+            if let Some(const_output) = node_search_desc.const_output.clone() {
+                // only return one match with the constant annotation for each node
+                Box::new(
+                    it.map_ok(move |mut m: MatchGroup| {
+                        m[0].anno_key = const_output.clone();
+                        m
+                    })
+                    .dedup_by(|a, b| match (a, b) {
+                        (Ok(a), Ok(b)) => a == b,
+                        _ => false,
+                    }),
+                )
+            } else {
+                Box::new(it)
+            };
         let mut new_desc = desc.cloned();
         if let Some(ref mut new_desc) = new_desc {
             new_desc.impl_description = String::from("part-of-component-search");
         }
         Ok(NodeSearch {
-            it: Box::new(it),
+            it,
             desc: new_desc,
             node_search_desc,
             is_sorted: false,
diff --git a/graphannis/src/annis/operator.rs b/graphannis/src/annis/operator.rs
index a4a8614..a244ece 100644
--- a/graphannis/src/annis/operator.rs
+++ b/graphannis/src/annis/operator.rs
@@ -238,6 +238,13 @@ pub trait BinaryOperatorSpec: std::fmt::Debug + Send + Sync {
         true
     }
 
+    /// Returns true if every node that can be matched as left operand is a
+    /// source node of an edge (with the given edge annotation) in one of the
+    /// necessary components.
+    fn lhs_is_source_node(&self) -> bool {
+        false
+    }
+
     #[cfg(test)]
     fn into_any(self: std::sync::Arc<Self>) -> std::sync::Arc<dyn std::any::Any>;
 
-- 
2.43.0


From 94dc343c0fba486937d2cd557f8b1ef19e1cf15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:46 +0000
Subject: [PATCH 26/45] fix: overlap and inclusion of nodes covering a single
 token in disk-based corpora

---
 graphannis/src/annis/db/aql/model.rs          |  8 +++----
 .../src/annis/db/aql/operators/inclusion.rs   | 22 +++++++++----------
 .../src/annis/db/aql/operators/overlap.rs     |  6 ++---
 graphannis/src/annis/db/token_helper.rs       | 15 +++++++++++++
 4 files changed, 33 insertions(+), 18 deletions(-)

diff --git a/graphannis/src/annis/db/aql/model.rs b/graphannis/src/annis/db/aql/model.rs
index 2c5b82d..872172a 100644
--- a/graphannis/src/annis/db/aql/model.rs
+++ b/graphannis/src/annis/db/aql/model.rs
@@ -491,16 +491,16 @@ impl ComponentType for AnnotationComponentType {
                         || ctype == AnnotationComponentType::LeftToken
                         || ctype == AnnotationComponentType::RightToken
                     {
-                        if let Some(source) = index
-                            .get_cached_node_id_from_name(Cow::Borrowed(source_node), graph)?
+                        if let Some(source) =
+                            index.get_cached_node_id_from_name(Cow::Borrowed(source_node), graph)?
                         {
                             index.calculate_invalidated_nodes_by_coverage(graph, source)?;
                         }
                     }
 
                     if ctype == AnnotationComponentType::Ordering
-                        && let Some(target) = index
-                            .get_cached_node_id_from_name(Cow::Borrowed(target_node), graph)?
+                        && let Some(target) =
+                            index.get_cached_node_id_from_name(Cow::Borrowed(target_node), graph)?
                     {
                         index.calculate_invalidated_nodes_by_coverage(graph, target)?;
                     }
diff --git a/graphannis/src/annis/db/aql/operators/inclusion.rs b/graphannis/src/annis/db/aql/operators/inclusion.rs
index fb6a2cd..cbd8028 100644
--- a/graphannis/src/annis/db/aql/operators/inclusion.rs
+++ b/graphannis/src/annis/db/aql/operators/inclusion.rs
@@ -1,6 +1,6 @@
 use crate::annis::db::exec::CostEstimate;
 use crate::annis::db::token_helper;
-use crate::annis::db::token_helper::TokenHelper;
+use crate::annis::db::token_helper::{TokenHelper, token_distance};
 use crate::annis::errors::GraphAnnisError;
 use crate::annis::operator::{BinaryOperator, BinaryOperatorIndex, EstimationType};
 use crate::{AnnotationGraph, try_as_boxed_iter};
@@ -103,11 +103,14 @@ impl BinaryOperatorBase for Inclusion<'_> {
             left_right_rhs.1,
         ) {
             // span length of LHS
-            if let Some(l) = self.gs_order.distance(start_lhs, end_lhs)? {
+            if let Some(l) = token_distance(self.gs_order.as_ref(), start_lhs, end_lhs)? {
                 // path between left-most tokens exists in ORDERING component and has maximum length l
-                if self.gs_order.is_connected(start_lhs, start_rhs, 0, std::ops::Bound::Included(l))?
+                let left_included = token_distance(self.gs_order.as_ref(), start_lhs, start_rhs)?
+                    .is_some_and(|d| d <= l);
                 // path between right-most tokens exists in ORDERING component and has maximum length l
-                && self.gs_order.is_connected(end_rhs, end_lhs, 0, std::ops::Bound::Included(l))?
+                if left_included
+                    && token_distance(self.gs_order.as_ref(), end_rhs, end_lhs)?
+                        .is_some_and(|d| d <= l)
                 {
                     return Ok(true);
                 }
@@ -165,7 +168,7 @@ impl BinaryOperatorIndex for Inclusion<'_> {
         let left_right_token = try_as_boxed_iter!(self.tok_helper.left_right_token_for(lhs.node));
         if let (Some(start_lhs), Some(end_lhs)) = left_right_token {
             // span length of LHS
-            let l = try_as_boxed_iter!(self.gs_order.distance(start_lhs, end_lhs));
+            let l = try_as_boxed_iter!(token_distance(self.gs_order.as_ref(), start_lhs, end_lhs));
             if let Some(l) = l {
                 // find each token which is between the left and right border
                 let overlapped_token =
@@ -203,12 +206,9 @@ impl BinaryOperatorIndex for Inclusion<'_> {
                                     self.tok_helper.get_gs_right_token().get_outgoing_edges(n);
                                 if let Some(end_n) = end_n.next() {
                                     let end_n = end_n?;
-                                    if self.gs_order.is_connected(
-                                        end_n,
-                                        end_lhs,
-                                        0,
-                                        std::ops::Bound::Included(l),
-                                    )? {
+                                    if token_distance(self.gs_order.as_ref(), end_n, end_lhs)?
+                                        .is_some_and(|d| d <= l)
+                                    {
                                         // path between right-most tokens exists in ORDERING component
                                         // and has maximum length l
                                         return Ok(Some(n));
diff --git a/graphannis/src/annis/db/aql/operators/overlap.rs b/graphannis/src/annis/db/aql/operators/overlap.rs
index 5bdf5ec..bdfe45e 100644
--- a/graphannis/src/annis/db/aql/operators/overlap.rs
+++ b/graphannis/src/annis/db/aql/operators/overlap.rs
@@ -1,6 +1,6 @@
 use crate::annis::db::exec::CostEstimate;
 use crate::annis::db::token_helper;
-use crate::annis::db::token_helper::TokenHelper;
+use crate::annis::db::token_helper::{TokenHelper, token_distance};
 use crate::annis::errors::GraphAnnisError;
 use crate::annis::operator::{BinaryOperator, BinaryOperatorIndex, EstimationType};
 use crate::{AnnotationGraph, try_as_boxed_iter};
@@ -111,9 +111,9 @@ impl BinaryOperatorBase for Overlap<'_> {
         ) {
             // TODO: why not isConnected()? (instead of distance)
             // path between LHS left-most token and RHS right-most token exists in ORDERING component
-            if self.gs_order.distance(start_lhs, end_rhs)?.is_some()
+            if token_distance(self.gs_order.as_ref(), start_lhs, end_rhs)?.is_some()
                 // path between LHS left-most token and RHS right-most token exists in ORDERING component
-                && self.gs_order.distance(start_rhs, end_lhs)?.is_some()
+                && token_distance(self.gs_order.as_ref(), start_rhs, end_lhs)?.is_some()
             {
                 return Ok(true);
             }
diff --git a/graphannis/src/annis/db/token_helper.rs b/graphannis/src/annis/db/token_helper.rs
index d896042..17d0096 100644
--- a/graphannis/src/annis/db/token_helper.rs
+++ b/graphannis/src/annis/db/token_helper.rs
@@ -49,6 +49,21 @@ pub fn necessary_components(db: &AnnotationGraph) -> HashSet<Component<Annotatio
     result
 }
 
+/// Get the distance between two token in the ordering component. Some graph
+/// storages do not define the distance of a node to itself, but a token always
+/// has the distance 0 to itself.
+pub fn token_distance(
+    gs_order: &dyn GraphStorage,
+    left: NodeID,
+    right: NodeID,
+) -> Result<Option<usize>> {
+    if left == right {
+        Ok(Some(0))
+    } else {
+        Ok(gs_order.distance(left, right)?)
+    }
+}
+
 impl<'a> TokenHelper<'a> {
     pub fn new(graph: &'a AnnotationGraph) -> Result<TokenHelper<'a>> {
         let cov_edges: Vec<Arc<dyn GraphStorage>> = graph
-- 
2.43.0


From 0f10a04af07e8a294c373260e3dd3ec4a7709563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:46 +0000
Subject: [PATCH 27/45] fix: estimated costs of query plans can overflow

---
 graphannis/src/annis/db/exec/filter.rs              | 8 ++++++--
 graphannis/src/annis/db/exec/mod.rs                 | 6 +++---
 graphannis/src/annis/db/exec/nestedloop.rs          | 4 ++--
 graphannis/src/annis/db/exec/parallel/nestedloop.rs | 4 ++--
 4 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/graphannis/src/annis/db/exec/filter.rs b/graphannis/src/annis/db/exec/filter.rs
index 84bd555..ffd4663 100644
--- a/graphannis/src/annis/db/exec/filter.rs
+++ b/graphannis/src/annis/db/exec/filter.rs
@@ -51,7 +51,9 @@ impl<'a> Filter<'a> {
                 Some(CostEstimate {
                     output: calculate_binary_outputsize(&op_entry.op, orig_cost.output)?,
                     processed_in_step: orig_cost.processed_in_step,
-                    intermediate_sum: orig_cost.intermediate_sum + orig_cost.processed_in_step,
+                    intermediate_sum: orig_cost
+                        .intermediate_sum
+                        .saturating_add(orig_cost.processed_in_step),
                 })
             } else {
                 None
@@ -95,7 +97,9 @@ impl<'a> Filter<'a> {
                 Some(CostEstimate {
                     output: calculate_unary_outputsize(op_entry.op.as_ref(), orig_cost.output),
                     processed_in_step: orig_cost.processed_in_step,
-                    intermediate_sum: orig_cost.intermediate_sum + orig_cost.processed_in_step,
+                    intermediate_sum: orig_cost
+                        .intermediate_sum
+                        .saturating_add(orig_cost.processed_in_step),
                 })
             } else {
                 None
diff --git a/graphannis/src/annis/db/exec/mod.rs b/graphannis/src/annis/db/exec/mod.rs
index fbd1f31..46c4181 100644
--- a/graphannis/src/annis/db/exec/mod.rs
+++ b/graphannis/src/annis/db/exec/mod.rs
@@ -40,7 +40,7 @@ fn calculate_outputsize<Op: BinaryOperatorBase + ?Sized>(
 ) -> Result<usize> {
     let output = match op.estimation_type()? {
         EstimationType::Selectivity(selectivity) => {
-            let num_tuples = (cost_lhs.output * cost_rhs.output) as f64;
+            let num_tuples = cost_lhs.output.saturating_mul(cost_rhs.output) as f64;
             if let Some(edge_sel) = op.edge_anno_selectivity()? {
                 (num_tuples * selectivity * edge_sel).round() as usize
             } else {
@@ -121,8 +121,8 @@ impl ExecutionNodeDesc {
                 Some(CostEstimate {
                     output,
                     intermediate_sum: processed_in_step
-                        + cost_lhs.intermediate_sum
-                        + cost_rhs.intermediate_sum,
+                        .saturating_add(cost_lhs.intermediate_sum)
+                        .saturating_add(cost_rhs.intermediate_sum),
                     processed_in_step,
                 })
             } else {
diff --git a/graphannis/src/annis/db/exec/nestedloop.rs b/graphannis/src/annis/db/exec/nestedloop.rs
index d4cdcff..d596660 100644
--- a/graphannis/src/annis/db/exec/nestedloop.rs
+++ b/graphannis/src/annis/db/exec/nestedloop.rs
@@ -41,10 +41,10 @@ impl<'a> NestedLoop<'a> {
         let processed_func = |_, out_lhs: usize, out_rhs: usize| {
             if out_lhs <= out_rhs {
                 // we use LHS as outer
-                out_lhs + (out_lhs * out_rhs)
+                out_lhs.saturating_add(out_lhs.saturating_mul(out_rhs))
             } else {
                 // we use RHS as outer
-                out_rhs + (out_rhs * out_lhs)
+                out_rhs.saturating_add(out_rhs.saturating_mul(out_lhs))
             }
         };
 
diff --git a/graphannis/src/annis/db/exec/parallel/nestedloop.rs b/graphannis/src/annis/db/exec/parallel/nestedloop.rs
index 98d4362..ac6fc72 100644
--- a/graphannis/src/annis/db/exec/parallel/nestedloop.rs
+++ b/graphannis/src/annis/db/exec/parallel/nestedloop.rs
@@ -49,10 +49,10 @@ impl<'a> NestedLoop<'a> {
         let processed_func = |_, out_lhs: usize, out_rhs: usize| {
             if out_lhs <= out_rhs {
                 // we use LHS as outer
-                out_lhs + (out_lhs * out_rhs)
+                out_lhs.saturating_add(out_lhs.saturating_mul(out_rhs))
             } else {
                 // we use RHS as outer
-                out_rhs + (out_rhs * out_lhs)
+                out_rhs.saturating_add(out_rhs.saturating_mul(out_lhs))
             }
         };
 
-- 
2.43.0


From 862c40b0dc54097fa438b3d0eb90d087f981e564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:46 +0000
Subject: [PATCH 28/45] fix: filters for non-reflexive operators must not
 return the same match for both operands

---
 graphannis/src/annis/db/exec/filter.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/graphannis/src/annis/db/exec/filter.rs b/graphannis/src/annis/db/exec/filter.rs
index ffd4663..2c2e66e 100644
--- a/graphannis/src/annis/db/exec/filter.rs
+++ b/graphannis/src/annis/db/exec/filter.rs
@@ -77,7 +77,10 @@ impl<'a> Filter<'a> {
         let it = exec
             .map(move |tuple| {
                 let tuple = tuple?;
-                let include = op_entry.op.filter_match(&tuple[lhs_idx], &tuple[rhs_idx])?;
+                // as in the joins, both operands must not be the same if the operator is not reflexive
+                let include = (op_entry.op.is_reflexive()
+                    || tuple[lhs_idx].different_to(&tuple[rhs_idx]))
+                    && op_entry.op.filter_match(&tuple[lhs_idx], &tuple[rhs_idx])?;
                 if include { Ok(Some(tuple)) } else { Ok(None) }
             })
             .filter_map_ok(|t| t);
-- 
2.43.0


From 806d8a950c4248447af67bf9a751d16a4f2c1775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:07 +0000
Subject: [PATCH 29/45] fix: swap the node descriptions when inverting value
 comparisons and do not use ambiguous annotation names in an index join

---
 .../src/annis/db/aql/operators/equal_value.rs | 27 ++++++++++++++-----
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/graphannis/src/annis/db/aql/operators/equal_value.rs b/graphannis/src/annis/db/aql/operators/equal_value.rs
index 77e5920..967e471 100644
--- a/graphannis/src/annis/db/aql/operators/equal_value.rs
+++ b/graphannis/src/annis/db/aql/operators/equal_value.rs
@@ -34,12 +34,13 @@ impl BinaryOperatorSpec for EqualValueSpec {
         db: &'a AnnotationGraph,
         _cost_estimate: Option<(&CostEstimate, &CostEstimate)>,
     ) -> Result<BinaryOperator<'a>> {
-        Ok(BinaryOperator::Index(Box::new(EqualValue {
+        let op = EqualValue {
             node_annos: db.get_node_annos(),
             spec_left: self.spec_left.clone(),
             spec_right: self.spec_right.clone(),
             negated: self.negated,
-        })))
+        };
+        Ok(op.into_binary_operator())
     }
 
     fn is_binding(&self) -> bool {
@@ -75,6 +76,18 @@ impl std::fmt::Display for EqualValue<'_> {
     }
 }
 
+impl<'a> EqualValue<'a> {
+    /// The retrieved nodes can only be used in an index join if the name of
+    /// the annotation is not ambiguous. Otherwise, the join could select an
+    /// annotation of the node that has another value.
+    fn into_binary_operator(self) -> BinaryOperator<'a> {
+        match EqualValue::anno_def_for_spec(&self.spec_right) {
+            Some((None, _)) => BinaryOperator::Base(Box::new(self)),
+            _ => BinaryOperator::Index(Box::new(self)),
+        }
+    }
+}
+
 impl EqualValue<'_> {
     fn value_for_match(&self, m: &Match, spec: &NodeSearchSpec) -> Result<Option<Cow<'_, str>>> {
         match spec {
@@ -165,13 +178,13 @@ impl BinaryOperatorBase for EqualValue<'_> {
         &self,
         graph: &'b AnnotationGraph,
     ) -> Result<Option<BinaryOperator<'b>>> {
-        let inverse = BinaryOperator::Index(Box::from(EqualValue {
+        let inverse = EqualValue {
             node_annos: graph.get_node_annos(),
-            spec_left: self.spec_left.clone(),
-            spec_right: self.spec_right.clone(),
+            spec_left: self.spec_right.clone(),
+            spec_right: self.spec_left.clone(),
             negated: self.negated,
-        }));
-        Ok(Some(inverse))
+        };
+        Ok(Some(inverse.into_binary_operator()))
     }
 }
 
-- 
2.43.0


From ed2b0863b95f6cd7ec0e9b616eff788cd64c5350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:53 +0000
Subject: [PATCH 30/45] fix: distance of 0 for edge operators overflows when
 estimating the output size

---
 graphannis/src/annis/db/aql/operators/edge_op.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphannis/src/annis/db/aql/operators/edge_op.rs b/graphannis/src/annis/db/aql/operators/edge_op.rs
index 0f5e1c5..45b4a57 100644
--- a/graphannis/src/annis/db/aql/operators/edge_op.rs
+++ b/graphannis/src/annis/db/aql/operators/edge_op.rs
@@ -392,7 +392,7 @@ impl BinaryOperatorBase for BaseEdgeOp {
                     } else {
                         std::cmp::min(max_dist, stats.max_depth) as i32
                     };
-                    let min_path_length = std::cmp::max(0, self.spec.dist.min_dist() - 1) as i32;
+                    let min_path_length = self.spec.dist.min_dist().saturating_sub(1) as i32;
 
                     let reachable_max = reachable_by_path_length(stats, max_path_length);
                     let reachable_min = reachable_by_path_length(stats, min_path_length);
-- 
2.43.0


From 0c14114c5ecfa6beb30069b277d9b20807793431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:31 +0000
Subject: [PATCH 31/45] fix: precedence and near with a segmentation must not
 include nodes aligned to segmentation nodes

---
 graphannis/src/annis/db/aql/operators/near.rs  | 18 ++++++++++++++++--
 .../src/annis/db/aql/operators/precedence.rs   | 18 ++++++++++++++++--
 2 files changed, 32 insertions(+), 4 deletions(-)

diff --git a/graphannis/src/annis/db/aql/operators/near.rs b/graphannis/src/annis/db/aql/operators/near.rs
index 14f716e..29621f7 100644
--- a/graphannis/src/annis/db/aql/operators/near.rs
+++ b/graphannis/src/annis/db/aql/operators/near.rs
@@ -218,7 +218,14 @@ impl BinaryOperatorIndex for Near<'_> {
                 .fuse();
             let it = connected
                 .map_ok(|t| {
-                    let it_aligned = self.tok_helper.get_gs_left_token().get_ingoing_edges(t);
+                    // (a segmentation is defined by the segmentation nodes only)
+                    let it_aligned = self
+                        .spec
+                        .segmentation
+                        .is_none()
+                        .then(|| self.tok_helper.get_gs_left_token().get_ingoing_edges(t))
+                        .into_iter()
+                        .flatten();
                     std::iter::once(Ok(t)).chain(it_aligned)
                 })
                 .flatten_ok()
@@ -246,7 +253,14 @@ impl BinaryOperatorIndex for Near<'_> {
             let it = connected
                 // find all right aligned nodes for this token and add it together with the token itself
                 .map_ok(move |t| {
-                    let it_aligned = self.tok_helper.get_gs_right_token().get_ingoing_edges(t);
+                    // (a segmentation is defined by the segmentation nodes only)
+                    let it_aligned = self
+                        .spec
+                        .segmentation
+                        .is_none()
+                        .then(|| self.tok_helper.get_gs_right_token().get_ingoing_edges(t))
+                        .into_iter()
+                        .flatten();
                     std::iter::once(Ok(t)).chain(it_aligned)
                 })
                 .flatten_ok()
diff --git a/graphannis/src/annis/db/aql/operators/precedence.rs b/graphannis/src/annis/db/aql/operators/precedence.rs
index 0aec913..bd6e468 100644
--- a/graphannis/src/annis/db/aql/operators/precedence.rs
+++ b/graphannis/src/annis/db/aql/operators/precedence.rs
@@ -233,7 +233,14 @@ impl BinaryOperatorIndex for Precedence<'_> {
         let result = connected
             // find all left aligned nodes for this token and add it together with the token itself
             .map_ok(move |t| {
-                let it_aligned = self.gs_left.get_ingoing_edges(t);
+                // (a segmentation is defined by the segmentation nodes only)
+                let it_aligned = self
+                    .spec
+                    .segmentation
+                    .is_none()
+                    .then(|| self.gs_left.get_ingoing_edges(t))
+                    .into_iter()
+                    .flatten();
                 std::iter::once(Ok(t)).chain(it_aligned)
             })
             .flatten_ok()
@@ -352,7 +359,14 @@ impl BinaryOperatorIndex for InversePrecedence<'_> {
         let result = token_in_range
             .map_ok(move |t| {
                 // find all right aligned nodes for this token and add it together with the token itself
-                let it_aligned = self.gs_right.get_ingoing_edges(t);
+                // (a segmentation is defined by the segmentation nodes only)
+                let it_aligned = self
+                    .spec
+                    .segmentation
+                    .is_none()
+                    .then(|| self.gs_right.get_ingoing_edges(t))
+                    .into_iter()
+                    .flatten();
                 std::iter::once(Ok(t)).chain(it_aligned)
             })
             .flatten_ok()
-- 
2.43.0


From 2e0c0851d9a4f9f0849ddf1b21889694c345c534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:49 +0000
Subject: [PATCH 32/45] fix: wait for background persistence before a corpus is
 loaded again, replaced or deleted

The update log and the data files of a corpus are written by a background
thread after apply_update. Evicting, loading, importing or deleting the corpus
while that thread was still working raced with it: updates were lost or
queries failed with missing files.
---
 graphannis/src/annis/db/corpusstorage.rs | 205 ++++++++++++++++-------
 1 file changed, 141 insertions(+), 64 deletions(-)

diff --git a/graphannis/src/annis/db/corpusstorage.rs b/graphannis/src/annis/db/corpusstorage.rs
index 840222f..2871f0a 100644
--- a/graphannis/src/annis/db/corpusstorage.rs
+++ b/graphannis/src/annis/db/corpusstorage.rs
@@ -370,6 +370,45 @@ pub struct SearchQuery<'a, S: AsRef<str>> {
     pub timeout: Option<Duration>,
 }
 
+/// Number of active workers for each corpus which has any.
+type ActiveWorkers = Arc<(Mutex<FxHashMap<String, usize>>, Condvar)>;
+
+/// A thread that changes the files of a corpus or needs them to be unchanged.
+/// It is registered until this value is dropped.
+struct CorpusWorker {
+    corpus_name: String,
+    active_workers: ActiveWorkers,
+}
+
+impl CorpusWorker {
+    fn new(corpus_name: &str, active_workers: &ActiveWorkers) -> Result<CorpusWorker> {
+        *active_workers
+            .0
+            .lock()?
+            .entry(corpus_name.to_string())
+            .or_default() += 1;
+        Ok(CorpusWorker {
+            corpus_name: corpus_name.to_string(),
+            active_workers: active_workers.clone(),
+        })
+    }
+}
+
+impl Drop for CorpusWorker {
+    fn drop(&mut self) {
+        let (lock, cvar) = &*self.active_workers;
+        if let Ok(mut active_workers) = lock.lock()
+            && let Some(n) = active_workers.get_mut(&self.corpus_name)
+        {
+            *n -= 1;
+            if *n == 0 {
+                active_workers.remove(&self.corpus_name);
+            }
+        }
+        cvar.notify_all();
+    }
+}
+
 /// A thread-safe API for managing corpora stored in a common location on the file system.
 ///
 /// Multiple corpora can be part of a corpus storage and they are identified by their unique name.
@@ -381,7 +420,7 @@ pub struct CorpusStorage {
     cache_strategy: CacheStrategy,
     corpus_cache: RwLock<LinkedHashMap<String, Arc<RwLock<CacheEntry>>>>,
     query_config: aql::Config,
-    active_background_workers: Arc<(Mutex<usize>, Condvar)>,
+    active_workers: ActiveWorkers,
 }
 
 fn init_locale() {
@@ -423,15 +462,14 @@ impl CorpusStorage {
 
         let query_config = aql::Config { use_parallel_joins };
 
-        #[allow(clippy::mutex_atomic)]
-        let active_background_workers = Arc::new((Mutex::new(0), Condvar::new()));
+        let active_workers = Arc::new((Mutex::new(FxHashMap::default()), Condvar::new()));
         let cs = CorpusStorage {
             db_dir: PathBuf::from(db_dir),
             lock_file: create_lockfile_for_directory(db_dir)?,
             cache_strategy,
             corpus_cache: RwLock::new(LinkedHashMap::new()),
             query_config,
-            active_background_workers,
+            active_workers,
         };
 
         Ok(cs)
@@ -452,8 +490,7 @@ impl CorpusStorage {
         // get the amount of available memory, use a quarter of it per default
         let cache_strategy: CacheStrategy = CacheStrategy::PercentOfFreeMemory(25.0);
 
-        #[allow(clippy::mutex_atomic)]
-        let active_background_workers = Arc::new((Mutex::new(0), Condvar::new()));
+        let active_workers = Arc::new((Mutex::new(FxHashMap::default()), Condvar::new()));
 
         let cs = CorpusStorage {
             db_dir: PathBuf::from(db_dir),
@@ -461,7 +498,7 @@ impl CorpusStorage {
             cache_strategy,
             corpus_cache: RwLock::new(LinkedHashMap::new()),
             query_config,
-            active_background_workers,
+            active_workers,
         };
 
         Ok(cs)
@@ -633,6 +670,17 @@ impl CorpusStorage {
     ) -> Result<Arc<RwLock<CacheEntry>>> {
         let cache = &mut *cache_lock;
 
+        // another thread might have loaded the corpus in the meantime
+        if let Some(entry) = cache.get(corpus_name)
+            && matches!(&*entry.read()?, CacheEntry::Loaded(_))
+        {
+            return Ok(entry.clone());
+        }
+
+        // the files of the corpus might still be used or written for a cache
+        // entry that has been removed
+        self.wait_for_workers(corpus_name)?;
+
         // if not loaded yet, get write-lock and load entry
         let db_path = self.corpus_directory_on_disk(corpus_name);
 
@@ -709,6 +757,45 @@ impl CorpusStorage {
         }
     }
 
+    /// Get the loaded entry for a corpus and register the caller as worker for
+    /// it.
+    ///
+    /// As long as the worker is registered, the entry is the only one using the
+    /// files of the corpus: even if it is removed from the cache, the corpus
+    /// is not loaded again, replaced or deleted. No other entries must be requested
+    /// from the cache while being registered as worker.
+    fn get_loaded_entry_as_worker(
+        &self,
+        corpus_name: &str,
+        create_if_missing: bool,
+        create_disk_based: bool,
+    ) -> Result<(Arc<RwLock<CacheEntry>>, CorpusWorker)> {
+        loop {
+            let db_entry =
+                self.get_loaded_entry(corpus_name, create_if_missing, create_disk_based)?;
+            let cache = self.corpus_cache.read()?;
+            // Try again if the entry was already removed from the cache by another thread
+            if let Some(cached_entry) = cache.get(corpus_name)
+                && Arc::ptr_eq(cached_entry, &db_entry)
+            {
+                let worker = CorpusWorker::new(corpus_name, &self.active_workers)?;
+                return Ok((db_entry, worker));
+            }
+        }
+    }
+
+    /// Wait until there are no more workers registered for the corpus. The
+    /// caller needs to hold the exclusive lock of the cache, so no new ones are
+    /// registered.
+    fn wait_for_workers(&self, corpus_name: &str) -> Result<()> {
+        let (lock, cvar) = &*self.active_workers;
+        let mut active_workers = lock.lock()?;
+        while active_workers.contains_key(corpus_name) {
+            active_workers = cvar.wait(active_workers)?;
+        }
+        Ok(())
+    }
+
     fn get_loaded_entry_with_components(
         &self,
         corpus_name: &str,
@@ -727,16 +814,20 @@ impl CorpusStorage {
             }
             missing
         };
-        if !missing_components.is_empty() {
+        if missing_components.is_empty() {
+            Ok(db_entry)
+        } else {
             // load the needed components
-            let mut lock = db_entry.write()?;
-            let db = get_write_or_error(&mut lock)?;
-            for c in missing_components {
-                db.ensure_loaded(&c)?;
+            let (db_entry, _worker) = self.get_loaded_entry_as_worker(corpus_name, false, false)?;
+            {
+                let mut lock = db_entry.write()?;
+                let db = get_write_or_error(&mut lock)?;
+                for c in missing_components {
+                    db.ensure_loaded(&c)?;
+                }
             }
-        };
-
-        Ok(db_entry)
+            Ok(db_entry)
+        }
     }
 
     fn get_fully_loaded_entry(&self, corpus_name: &str) -> Result<Arc<RwLock<CacheEntry>>> {
@@ -753,16 +844,20 @@ impl CorpusStorage {
             }
             missing
         };
-        if !missing_components.is_empty() {
+        if missing_components.is_empty() {
+            Ok(db_entry)
+        } else {
             // load the needed components
-            let mut lock = db_entry.write()?;
-            let db = get_write_or_error(&mut lock)?;
-            for c in missing_components {
-                db.ensure_loaded(&c)?;
+            let (db_entry, _worker) = self.get_loaded_entry_as_worker(corpus_name, false, false)?;
+            {
+                let mut lock = db_entry.write()?;
+                let db = get_write_or_error(&mut lock)?;
+                for c in missing_components {
+                    db.ensure_loaded(&c)?;
+                }
             }
-        };
-
-        Ok(db_entry)
+            Ok(db_entry)
+        }
     }
 
     /// Import all corpora from a ZIP file.
@@ -994,9 +1089,10 @@ impl CorpusStorage {
         // remove any possible old corpus
         if overwrite_existing {
             let old_entry = cache.remove(&corpus_name);
+            self.wait_for_workers(&corpus_name)?;
 
             // if there is a cache entry, acquire an exclusive lock for it because
-            // other queries or background writers might still have access to it and need to finish first
+            // other queries might still have access to it and need to finish first
             let _lock = old_entry
                 .as_ref()
                 .map(|db_entry| db_entry.write())
@@ -1190,14 +1286,8 @@ impl CorpusStorage {
 
     fn export_corpus_graphml(&self, corpus_name: &str, path: &Path) -> Result<()> {
         let output_file = File::create(path)?;
-        let entry = self.get_loaded_entry(corpus_name, false, false)?;
-
         // Ensure all components are loaded
-        {
-            let mut lock = entry.write()?;
-            let graph: &mut AnnotationGraph = get_write_or_error(&mut lock)?;
-            graph.ensure_loaded_all()?;
-        }
+        let entry = self.get_fully_loaded_entry(corpus_name)?;
         // Perform the export on a read-only reference
         let lock = entry.read()?;
         let graph: &AnnotationGraph = get_read_or_error(&lock)?;
@@ -1257,14 +1347,8 @@ impl CorpusStorage {
         let path_in_zip = base_path.join(format!("{}.graphml", corpus_name));
         zip.start_file(path_in_zip.to_string_lossy(), options)?;
 
-        let entry = self.get_loaded_entry(corpus_name, false, false)?;
-
         // Ensure all components are loaded
-        {
-            let mut lock = entry.write()?;
-            let graph: &mut AnnotationGraph = get_write_or_error(&mut lock)?;
-            graph.ensure_loaded_all()?;
-        }
+        let entry = self.get_fully_loaded_entry(corpus_name)?;
         // Perform the export on a read-only reference
         let lock = entry.read()?;
         let graph: &AnnotationGraph = get_read_or_error(&lock)?;
@@ -1365,9 +1449,10 @@ impl CorpusStorage {
         let cache = &mut *cache_lock;
 
         let db_entry = cache.remove(corpus_name);
+        self.wait_for_workers(corpus_name)?;
 
         // if there is a cache entry, acquire an exclusive lock for it because
-        // other queries or background writers might still have access to it and need to finish first
+        // other queries might still have access to it and need to finish first
         let _lock = db_entry
             .as_ref()
             .map(|db_entry| db_entry.write())
@@ -1411,7 +1496,7 @@ impl CorpusStorage {
     ///
     /// It is ensured that the update process is atomic and that the changes are persisted to disk if the result is `Ok`.
     pub fn apply_update(&self, corpus_name: &str, update: &mut GraphUpdate) -> Result<()> {
-        let db_entry = self.get_loaded_entry(corpus_name, true, false)?;
+        let (db_entry, worker) = self.get_loaded_entry_as_worker(corpus_name, true, false)?;
         {
             let mut lock = db_entry.write()?;
             let db: &mut AnnotationGraph = get_write_or_error(&mut lock)?;
@@ -1419,16 +1504,11 @@ impl CorpusStorage {
             db.apply_update(update, |_| {})?;
         }
         // start background thread to persists the results
-        let active_background_workers = self.active_background_workers.clone();
-        {
-            let (lock, _cvar) = &*active_background_workers;
-            let mut nr_active_background_workers = lock.lock()?;
-            *nr_active_background_workers += 1;
-        }
         thread::spawn(move || {
-            if let Err(err) = sync_wal_updates_in_background(db_entry, active_background_workers) {
+            if let Err(err) = sync_wal_updates_in_background(db_entry) {
                 error!("Error in WAL update background thread: {}", err);
             }
+            drop(worker);
         });
 
         Ok(())
@@ -1444,7 +1524,7 @@ impl CorpusStorage {
     where
         F: FnOnce(&AnnotationGraph) -> Vec<Component<AnnotationComponentType>>,
     {
-        let db_entry = self.get_loaded_entry(corpus_name, false, false)?;
+        let mut db_entry = self.get_loaded_entry(corpus_name, false, false)?;
 
         // make sure the database is loaded with all necessary components
         let (q, missing_components) = {
@@ -1477,6 +1557,9 @@ impl CorpusStorage {
         if !missing_components.is_empty() {
             // load the needed components
             let loaded_components = {
+                let (current_entry, _worker) =
+                    self.get_loaded_entry_as_worker(corpus_name, false, false)?;
+                db_entry = current_entry;
                 let mut lock = db_entry.write()?;
                 let db = get_write_or_error(&mut lock)?;
                 db.ensure_loaded_parallel(&missing_components)?
@@ -1493,7 +1576,7 @@ impl CorpusStorage {
     /// Preloads all annotation and graph storages from the disk into a main memory cache.
     pub fn preload(&self, corpus_name: &str) -> Result<()> {
         {
-            let db_entry = self.get_loaded_entry(corpus_name, false, false)?;
+            let (db_entry, _worker) = self.get_loaded_entry_as_worker(corpus_name, false, false)?;
             let mut lock = db_entry.write()?;
             let db = get_write_or_error(&mut lock)?;
             db.ensure_loaded_all()?;
@@ -1517,7 +1600,8 @@ impl CorpusStorage {
     /// - `disk_based` - If `true`, prefer disk-based annotation and graph storages instead of memory-only ones.
     #[doc(hidden)]
     pub fn reoptimize_implementation(&self, corpus_name: &str, disk_based: bool) -> Result<()> {
-        let graph_entry = self.get_loaded_entry(corpus_name, false, disk_based)?;
+        let (graph_entry, _worker) =
+            self.get_loaded_entry_as_worker(corpus_name, false, disk_based)?;
         let mut lock = graph_entry.write()?;
         let graph: &mut AnnotationGraph = get_write_or_error(&mut lock)?;
 
@@ -2563,14 +2647,14 @@ impl CorpusStorage {
 impl Drop for CorpusStorage {
     fn drop(&mut self) {
         // wait until all background workers are finished
-        let (lock, cvar) = &*self.active_background_workers;
-        let mut nr_active_background_workers = lock.lock().unwrap();
-        while *nr_active_background_workers > 0 {
+        let (lock, cvar) = &*self.active_workers;
+        let mut active_workers = lock.lock().unwrap();
+        while !active_workers.is_empty() {
             trace!(
-                "Waiting for background thread to finish ({} worker(s) left)...",
-                *nr_active_background_workers
+                "Waiting for background threads to finish ({} corpora left)...",
+                active_workers.len()
             );
-            nr_active_background_workers = cvar.wait(nr_active_background_workers).unwrap();
+            active_workers = cvar.wait(active_workers).unwrap();
         }
 
         // unlock lock file
@@ -2771,10 +2855,7 @@ fn create_lockfile_for_directory(db_dir: &Path) -> Result<File> {
     Ok(lock_file)
 }
 
-fn sync_wal_updates_in_background(
-    db_entry: Arc<RwLock<CacheEntry>>,
-    active_background_workers: Arc<(Mutex<usize>, Condvar)>,
-) -> Result<()> {
+fn sync_wal_updates_in_background(db_entry: Arc<RwLock<CacheEntry>>) -> Result<()> {
     trace!("Starting background thread to sync WAL updates");
     let lock = db_entry.read()?;
     if let Ok(db) = get_read_or_error(&lock) {
@@ -2785,9 +2866,5 @@ fn sync_wal_updates_in_background(
             trace!("Finished background thread to sync WAL updates");
         }
     }
-    let (lock, cvar) = &*active_background_workers;
-    let mut nr_active_background_workers = lock.lock()?;
-    *nr_active_background_workers -= 1;
-    cvar.notify_all();
     Ok(())
 }
-- 
2.43.0


From 8eaa9ba4ad7bf28297546dcc59aa338adfc8dd12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:49 +0000
Subject: [PATCH 33/45] fix: huge limits and wrongly estimated result sizes
 must not overflow when reserving space

---
 graphannis/src/annis/db/corpusstorage.rs | 11 ++++++++---
 graphannis/src/annis/db/plan.rs          |  4 ++--
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/graphannis/src/annis/db/corpusstorage.rs b/graphannis/src/annis/db/corpusstorage.rs
index 2871f0a..620cb39 100644
--- a/graphannis/src/annis/db/corpusstorage.rs
+++ b/graphannis/src/annis/db/corpusstorage.rs
@@ -72,6 +72,9 @@ mod tests;
 /// After how many produces tuples the timeout check should be manually triggered (in case the underlying joint did not already check the timeout)
 const TIMEOUT_CHECK_TUPLE_COUNT: u64 = 1_000;
 
+/// Maximum number of results for which space is reserved before the actual number of results is known.
+const MAX_ESTIMATED_RESULT_SIZE: usize = 1_000_000;
+
 enum CacheEntry {
     Loaded(AnnotationGraph),
     NotLoaded,
@@ -1821,7 +1824,8 @@ impl CorpusStorage {
             // if quirks mode is active.
             Box::from(plan)
         } else {
-            let estimated_result_size = plan.estimated_output_size();
+            // The estimation can be arbitrarily wrong, so only reserve a limited amount of space upfront
+            let estimated_result_size = plan.estimated_output_size().min(MAX_ESTIMATED_RESULT_SIZE);
             let btree_config = BtreeConfig::default()
                 .fixed_key_size(size_of::<usize>())
                 .max_value_size(512);
@@ -1901,7 +1905,7 @@ impl CorpusStorage {
 
                 let sort_size = if let Some(limit) = find_arguments.limit {
                     // we won't need to sort all items
-                    find_arguments.offset + limit
+                    find_arguments.offset.saturating_add(limit)
                 } else {
                     // sort all items if unlimited iterator is requested
                     tmp_results.len()
@@ -1971,7 +1975,8 @@ impl CorpusStorage {
         let mut results: Vec<String> = if let Some(expected_size) = expected_size {
             new_vector_with_memory_aligned_capacity(expected_size)
         } else if let Some(limit) = find_arguments.limit {
-            new_vector_with_memory_aligned_capacity(limit)
+            // The limit is given by the user and can be much larger than the actual result
+            new_vector_with_memory_aligned_capacity(limit.min(MAX_ESTIMATED_RESULT_SIZE))
         } else {
             Vec::new()
         };
diff --git a/graphannis/src/annis/db/plan.rs b/graphannis/src/annis/db/plan.rs
index 00d58c9..8605adf 100644
--- a/graphannis/src/annis/db/plan.rs
+++ b/graphannis/src/annis/db/plan.rs
@@ -118,10 +118,10 @@ impl<'a> ExecutionPlan<'a> {
     }
 
     pub fn estimated_output_size(&self) -> usize {
-        let mut estimation = 0;
+        let mut estimation: usize = 0;
         for desc in self.descriptions.iter().flatten() {
             if let Some(cost) = &desc.cost {
-                estimation += cost.output;
+                estimation = estimation.saturating_add(cost.output);
             }
         }
         estimation
-- 
2.43.0


From ad427e55703b5e61606ddcd966d260f9921037b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:49 +0000
Subject: [PATCH 34/45] fix: placeholders for optional query nodes and the
 nodes of later alternatives

Optional nodes are represented by a placeholder in the matches. Whether an entry
is such a placeholder was decided with the nodes of the first alternative, thus
matches of other alternatives lost nodes or contained the placeholder. The same
holds for node references of frequency definitions. Placeholders were also
used to determine the document of a match and extracted as part of subgraphs.
---
 graphannis/src/annis/db/aql/conjunction.rs |  13 +++
 graphannis/src/annis/db/aql/disjunction.rs |  29 -----
 graphannis/src/annis/db/aql/mod.rs         |  16 +--
 graphannis/src/annis/db/corpusstorage.rs   | 125 +++++++++++----------
 graphannis/src/annis/db/plan.rs            |  64 ++++++++++-
 5 files changed, 140 insertions(+), 107 deletions(-)

diff --git a/graphannis/src/annis/db/aql/conjunction.rs b/graphannis/src/annis/db/aql/conjunction.rs
index 9bc549f..afc90f2 100644
--- a/graphannis/src/annis/db/aql/conjunction.rs
+++ b/graphannis/src/annis/db/aql/conjunction.rs
@@ -394,6 +394,19 @@ impl Conjunction {
         self.include_in_output.contains(variable)
     }
 
+    /// Return true if the query node at the given position in this conjunction
+    /// is supposed to be included in a match output.
+    pub fn is_position_included_in_output(&self, pos: usize) -> bool {
+        self.nodes
+            .get(pos)
+            .is_some_and(|spec| self.is_included_in_output(&spec.var))
+    }
+
+    /// Retrieve the position of a variable inside this conjunction.
+    pub fn get_local_variable_pos(&self, variable: &str) -> Option<usize> {
+        self.variables.get(variable).copied()
+    }
+
     /// Return the variable name for a node number. The node number is the
     /// position of a node description in the query. In case of a query with
     /// multiple alternatives, this refers to the node number of the whole query and
diff --git a/graphannis/src/annis/db/aql/disjunction.rs b/graphannis/src/annis/db/aql/disjunction.rs
index b9613bf..26d0804 100644
--- a/graphannis/src/annis/db/aql/disjunction.rs
+++ b/graphannis/src/annis/db/aql/disjunction.rs
@@ -26,33 +26,4 @@ impl Disjunction {
 
         result
     }
-
-    pub(crate) fn get_variable_pos(&self, variable: &str) -> Option<usize> {
-        for alt in &self.alternatives {
-            if let Ok(var_pos) = alt.resolve_variable_pos(variable, None) {
-                return Some(var_pos);
-            }
-        }
-        None
-    }
-
-    /// Return the variable name for a node number. The node number is the
-    /// position of an AQL query node in the disjunction.
-    pub(crate) fn get_variable_by_node_nr(&self, node_nr: usize) -> Option<String> {
-        for alt in &self.alternatives {
-            if let Some(var) = alt.get_variable_by_node_nr(node_nr) {
-                return Some(var);
-            }
-        }
-        None
-    }
-
-    pub(crate) fn is_included_in_output(&self, variable: &str) -> bool {
-        for alt in &self.alternatives {
-            if alt.is_included_in_output(variable) {
-                return true;
-            }
-        }
-        false
-    }
 }
diff --git a/graphannis/src/annis/db/aql/mod.rs b/graphannis/src/annis/db/aql/mod.rs
index fa8ead0..7212fc5 100644
--- a/graphannis/src/annis/db/aql/mod.rs
+++ b/graphannis/src/annis/db/aql/mod.rs
@@ -79,20 +79,8 @@ pub fn execute_query_on_graph<'a>(
 
     let config = Config { use_parallel_joins };
     let it = ExecutionPlan::from_disjunction(query, graph, &config, timeout)?
-        .map_ok(|mg| {
-            // Rewrite match group to only include nodes that are included in the query
-            // check if query node actually should be included
-            let mut new_match_group = MatchGroup::with_capacity(mg.len());
-            for (node_nr, m) in mg.into_iter().enumerate() {
-                let include_in_output = query
-                    .get_variable_by_node_nr(node_nr)
-                    .is_some_and(|var| query.is_included_in_output(&var));
-                if include_in_output {
-                    new_match_group.push(m);
-                }
-            }
-            new_match_group
-        })
+        // Rewrite match group to only include nodes that are included in the query output
+        .only_output_nodes(query)
         .unique_by(move |mg| {
             // Map an error to an empty match group
             match mg {
diff --git a/graphannis/src/annis/db/corpusstorage.rs b/graphannis/src/annis/db/corpusstorage.rs
index 620cb39..ce58c8a 100644
--- a/graphannis/src/annis/db/corpusstorage.rs
+++ b/graphannis/src/annis/db/corpusstorage.rs
@@ -1741,7 +1741,7 @@ impl CorpusStorage {
                 }
             }
 
-            for m in plan {
+            for m in plan.without_placeholder() {
                 let m = m?;
                 if !m.is_empty() {
                     let m: &Match = &m[0];
@@ -1822,7 +1822,7 @@ impl CorpusStorage {
             // If the output is already sorted correctly, directly return the iterator.
             // Quirks mode may change the order of the results, thus don't use the shortcut
             // if quirks mode is active.
-            Box::from(plan)
+            Box::from(plan.only_output_nodes(query))
         } else {
             // The estimation can be arbitrarily wrong, so only reserve a limited amount of space upfront
             let estimated_result_size = plan.estimated_output_size().min(MAX_ESTIMATED_RESULT_SIZE);
@@ -1837,7 +1837,7 @@ impl CorpusStorage {
                 // Use a unique random index for each match to force a random order
                 let mut rng = rand::rng();
 
-                for mgroup in plan {
+                for mgroup in plan.only_output_nodes(query) {
                     let mgroup = mgroup?;
                     let mut idx: u64 = rng.random();
                     while tmp_results.contains_key(&(idx as usize))? {
@@ -1848,7 +1848,7 @@ impl CorpusStorage {
                 }
             } else {
                 // Insert results in the order as they are given by the iterator
-                for (idx, mgroup) in plan.enumerate() {
+                for (idx, mgroup) in plan.only_output_nodes(query).enumerate() {
                     let mgroup = mgroup?;
                     // add all matches to temporary container
                     let m = match_group_with_symbol_ids(&mgroup, &mut anno_key_symbols)?;
@@ -2001,62 +2001,48 @@ impl CorpusStorage {
             let m = m?;
             let mut match_desc = String::new();
 
-            let mut any_nodes_added = false;
-
             for (node_nr, singlematch) in m.iter().enumerate() {
-                // check if query node actually should be included
-                let include_in_output = prep
-                    .query
-                    .get_variable_by_node_nr(node_nr)
-                    .is_some_and(|var| prep.query.is_included_in_output(&var));
-
-                if include_in_output {
-                    if any_nodes_added {
-                        match_desc.push(' ');
-                    }
-                    any_nodes_added = true;
+                if node_nr > 0 {
+                    match_desc.push(' ');
+                }
 
-                    let singlematch_anno_key = &singlematch.anno_key;
-                    if singlematch_anno_key.ns != ANNIS_NS || singlematch_anno_key.name != NODE_TYPE
-                    {
-                        if !singlematch_anno_key.ns.is_empty() {
-                            let encoded_anno_ns: Cow<str> =
-                                utf8_percent_encode(&singlematch_anno_key.ns, NODE_NAME_ENCODE_SET)
-                                    .into();
-                            match_desc.push_str(&encoded_anno_ns);
-                            match_desc.push_str("::");
-                        }
-                        let encoded_anno_name: Cow<str> =
-                            utf8_percent_encode(&singlematch_anno_key.name, NODE_NAME_ENCODE_SET)
+                let singlematch_anno_key = &singlematch.anno_key;
+                if singlematch_anno_key.ns != ANNIS_NS || singlematch_anno_key.name != NODE_TYPE {
+                    if !singlematch_anno_key.ns.is_empty() {
+                        let encoded_anno_ns: Cow<str> =
+                            utf8_percent_encode(&singlematch_anno_key.ns, NODE_NAME_ENCODE_SET)
                                 .into();
-                        match_desc.push_str(&encoded_anno_name);
+                        match_desc.push_str(&encoded_anno_ns);
                         match_desc.push_str("::");
                     }
+                    let encoded_anno_name: Cow<str> =
+                        utf8_percent_encode(&singlematch_anno_key.name, NODE_NAME_ENCODE_SET)
+                            .into();
+                    match_desc.push_str(&encoded_anno_name);
+                    match_desc.push_str("::");
+                }
 
-                    if let Some(node_name) = db
-                        .get_node_annos()
-                        .get_value_for_item(&singlematch.node, &NODE_NAME_KEY)?
-                    {
-                        if quirks_mode {
-                            // Unescape all parts of the name and re-escape with
-                            // quirks-mode compatible character encoding set
-                            let re_encoded_name = node_name
-                                .split('/')
-                                .map(|n| {
-                                    let decoded_name =
-                                        percent_encoding::percent_decode_str(n).decode_utf8_lossy();
-                                    let re_encoded_name: Cow<str> = utf8_percent_encode(
-                                        &decoded_name,
-                                        QUIRKS_SALT_URI_ENCODE_SET,
-                                    )
-                                    .into();
-                                    re_encoded_name.to_string()
-                                })
-                                .join("/");
-                            match_desc.push_str(&re_encoded_name);
-                        } else {
-                            match_desc.push_str(&node_name);
-                        }
+                if let Some(node_name) = db
+                    .get_node_annos()
+                    .get_value_for_item(&singlematch.node, &NODE_NAME_KEY)?
+                {
+                    if quirks_mode {
+                        // Unescape all parts of the name and re-escape with
+                        // quirks-mode compatible character encoding set
+                        let re_encoded_name = node_name
+                            .split('/')
+                            .map(|n| {
+                                let decoded_name =
+                                    percent_encoding::percent_decode_str(n).decode_utf8_lossy();
+                                let re_encoded_name: Cow<str> =
+                                    utf8_percent_encode(&decoded_name, QUIRKS_SALT_URI_ENCODE_SET)
+                                        .into();
+                                re_encoded_name.to_string()
+                            })
+                            .join("/");
+                        match_desc.push_str(&re_encoded_name);
+                    } else {
+                        match_desc.push_str(&node_name);
                     }
                 }
             }
@@ -2378,9 +2364,16 @@ impl CorpusStorage {
             let db: &AnnotationGraph = get_read_or_error(&lock)?;
 
             // get the matching annotation keys for each definition entry
-            let mut annokeys: Vec<(usize, Vec<AnnoKey>)> = Vec::default();
+            let mut annokeys: Vec<(Vec<Option<usize>>, Vec<AnnoKey>)> = Vec::default();
             for def in definition.iter() {
-                if let Some(node_ref) = prep.query.get_variable_pos(&def.node_ref) {
+                // The referenced node can have a different position in each alternative
+                let node_ref: Vec<Option<usize>> = prep
+                    .query
+                    .alternatives
+                    .iter()
+                    .map(|alt| alt.get_local_variable_pos(&def.node_ref))
+                    .collect();
+                if node_ref.iter().any(|pos| pos.is_some()) {
                     if let Some(ns) = &def.ns {
                         // add the single fully qualified annotation key
                         annokeys.push((
@@ -2397,19 +2390,23 @@ impl CorpusStorage {
                 }
             }
 
-            let plan =
+            let mut plan =
                 ExecutionPlan::from_disjunction(&prep.query, db, &self.query_config, timeout)?;
             let mut total_count: u64 = 0;
 
-            for mgroup in plan {
+            while let Some(mgroup) = plan.next() {
                 let mgroup = mgroup?;
+                let alternative = plan.current_alternative();
 
                 // for each match, extract the defined annotation (by its key) from the result node
                 let mut tuple: Vec<String> = Vec::with_capacity(annokeys.len());
                 for (node_ref, anno_keys) in &annokeys {
                     let mut tuple_val: String = String::default();
-                    if *node_ref < mgroup.len() {
-                        let m: &Match = &mgroup[*node_ref];
+                    if let Some(m) = alternative
+                        .and_then(|alt| node_ref[alt])
+                        .filter(|pos| !plan.is_placeholder(*pos))
+                        .and_then(|pos| mgroup.get(pos))
+                    {
                         for k in anno_keys.iter() {
                             if let Some(val) = db.get_node_annos().get_value_for_item(&m.node, k)? {
                                 tuple_val = val.to_string();
@@ -2822,8 +2819,12 @@ fn extract_subgraph_by_query(
 
     debug!("executing subgraph query\n{}", plan);
 
-    let result =
-        subgraph::create_subgraph_for_iterator(plan, match_idx, orig_db, component_type_filter)?;
+    let result = subgraph::create_subgraph_for_iterator(
+        plan.without_placeholder(),
+        match_idx,
+        orig_db,
+        component_type_filter,
+    )?;
 
     let load_time = t_before.elapsed();
     if let Ok(t) = load_time {
diff --git a/graphannis/src/annis/db/plan.rs b/graphannis/src/annis/db/plan.rs
index 8605adf..43c1b80 100644
--- a/graphannis/src/annis/db/plan.rs
+++ b/graphannis/src/annis/db/plan.rs
@@ -17,6 +17,8 @@ use transient_btree_index::{BtreeConfig, BtreeIndex};
 pub struct ExecutionPlan<'a> {
     plans: Vec<Box<dyn ExecutionNode<Item = Result<MatchGroup>> + 'a>>,
     current_plan: usize,
+    /// For each plan, the index of the alternative in the query it was created for.
+    alternatives: Vec<usize>,
     descriptions: Vec<Option<ExecutionNodeDesc>>,
     inverse_node_pos: Vec<Option<Vec<usize>>>,
     proxy_mode: bool,
@@ -34,7 +36,8 @@ impl<'a> ExecutionPlan<'a> {
         let mut plans: Vec<Box<dyn ExecutionNode<Item = Result<MatchGroup>> + 'a>> = Vec::new();
         let mut descriptions = Vec::new();
         let mut inverse_node_pos = Vec::new();
-        for alt in &query.alternatives {
+        let mut alternatives = Vec::new();
+        for (alternative_idx, alt) in query.alternatives.iter().enumerate() {
             let p = alt.make_exec_node(db, config, timeout);
             if let Ok(p) = p {
                 descriptions.push(p.get_desc().cloned());
@@ -66,6 +69,7 @@ impl<'a> ExecutionPlan<'a> {
                 }
 
                 plans.push(p);
+                alternatives.push(alternative_idx);
             } else if let Err(e) = p
                 && let GraphAnnisError::AQLSemanticError(_) = &e
             {
@@ -82,6 +86,7 @@ impl<'a> ExecutionPlan<'a> {
         let btree_config = BtreeConfig::default().fixed_value_size(std::mem::size_of::<bool>());
         Ok(ExecutionPlan {
             current_plan: 0,
+            alternatives,
             descriptions,
             inverse_node_pos,
             proxy_mode: plans.len() == 1,
@@ -117,6 +122,60 @@ impl<'a> ExecutionPlan<'a> {
         }
     }
 
+    /// Index of the query alternative that produced the last returned match.
+    pub fn current_alternative(&self) -> Option<usize> {
+        self.alternatives.get(self.current_plan).copied()
+    }
+
+    /// Returns true if the position in the last returned match does not contain the result for a
+    /// query node, but is only a placeholder (see [`reorder_match`](Self::reorder_match)).
+    pub fn is_placeholder(&self, pos: usize) -> bool {
+        match self.inverse_node_pos.get(self.current_plan) {
+            Some(Some(inverse_node_pos)) => !inverse_node_pos.contains(&pos),
+            _ => false,
+        }
+    }
+
+    fn remove_placeholder(&self, m: MatchGroup) -> MatchGroup {
+        m.into_iter()
+            .enumerate()
+            .filter(|(pos, _)| !self.is_placeholder(*pos))
+            .map(|(_, m)| m)
+            .collect()
+    }
+
+    /// Iterate over the matches, but leave out the placeholders for query nodes that are not part of the result.
+    /// The position in a match can be different from the position of the node in the query.
+    pub fn without_placeholder(mut self) -> impl Iterator<Item = Result<MatchGroup>> + 'a {
+        std::iter::from_fn(move || {
+            let m = self.next()?;
+            Some(m.map(|m| self.remove_placeholder(m)))
+        })
+    }
+
+    /// Iterate over the matches, but only include the nodes that should be included in the output of the `query`
+    /// this plan was created for.
+    pub fn only_output_nodes(
+        mut self,
+        query: &'a Disjunction,
+    ) -> impl Iterator<Item = Result<MatchGroup>> + 'a {
+        std::iter::from_fn(move || {
+            let m = self.next()?;
+            let alternative = self
+                .current_alternative()
+                .and_then(|idx| query.alternatives.get(idx));
+            Some(m.map(|m| {
+                m.into_iter()
+                    .enumerate()
+                    .filter(|(pos, _)| {
+                        alternative.is_some_and(|alt| alt.is_position_included_in_output(*pos))
+                    })
+                    .map(|(_, m)| m)
+                    .collect()
+            }))
+        })
+    }
+
     pub fn estimated_output_size(&self) -> usize {
         let mut estimation: usize = 0;
         for desc in self.descriptions.iter().flatten() {
@@ -138,7 +197,8 @@ impl<'a> ExecutionPlan<'a> {
     }
 
     fn insert_into_unique_result_set(&mut self, n: &MatchGroup) -> Result<bool> {
-        let key = match_group_with_symbol_ids(n, &mut self.anno_key_symbols)?;
+        let n = self.remove_placeholder(n.clone());
+        let key = match_group_with_symbol_ids(&n, &mut self.anno_key_symbols)?;
         if !self.unique_result_set.contains_key(&key)? {
             self.unique_result_set.insert(key, true)?;
             return Ok(true);
-- 
2.43.0


From 61041ef8c123b79127d1ab3fb7f446d0785fdc0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:30 +0000
Subject: [PATCH 35/45] fix: context sizes, segmentation borders and gap edges
 of subgraphs

Very large context sizes looped over the whole number range, covered
token of the match outside of the segmentation nodes were missing and
the gap edges did not follow the order of the text for overlapping
regions (and were added even if a filter for other edges was given).
---
 .../src/annis/db/corpusstorage/subgraph.rs    | 152 +++++++++++-------
 1 file changed, 91 insertions(+), 61 deletions(-)

diff --git a/graphannis/src/annis/db/corpusstorage/subgraph.rs b/graphannis/src/annis/db/corpusstorage/subgraph.rs
index a9e2d30..422960b 100644
--- a/graphannis/src/annis/db/corpusstorage/subgraph.rs
+++ b/graphannis/src/annis/db/corpusstorage/subgraph.rs
@@ -85,6 +85,29 @@ impl Iterator for TokenIterator<'_> {
     }
 }
 
+/// Follow the ordering edges (with the direction given by `next_node`) from the start node until the
+/// wanted context size or the end of the text is reached.
+fn walk_context<F>(start: NodeID, ctx: usize, next_node: F) -> Result<NodeID>
+where
+    F: Fn(NodeID) -> Option<CoreResult<NodeID>>,
+{
+    let mut current = start;
+    let mut visited = HashSet::from([start]);
+    for _ in 0..ctx {
+        match next_node(current) {
+            Some(n) => {
+                let n = n?;
+                if !visited.insert(n) {
+                    break;
+                }
+                current = n;
+            }
+            None => break,
+        }
+    }
+    Ok(current)
+}
+
 fn get_left_right_token_with_offset_with_token(
     ordering_edges: &dyn GraphStorage,
     ordered_covered_token: &[NodeID],
@@ -101,36 +124,19 @@ fn get_left_right_token_with_offset_with_token(
 
     // The context might be larger than the actual document, try to get the
     // largest possible context
-    let mut left_with_context = left_most_covered_token;
-    for ctx in (0..=ctx_left).rev() {
-        if let Some(result) = ordering_edges
-            .find_connected_inverse(left_most_covered_token, ctx, std::ops::Bound::Included(ctx))
-            .next()
-        {
-            left_with_context = result?;
-            break;
-        }
-    }
-    let mut right_with_context = right_most_covered_token;
-    for ctx in (0..=ctx_right).rev() {
-        if let Some(result) = ordering_edges
-            .find_connected(
-                right_most_covered_token,
-                ctx,
-                std::ops::Bound::Included(ctx),
-            )
-            .next()
-        {
-            right_with_context = result?;
-            break;
-        }
-    }
+    let left_with_context = walk_context(left_most_covered_token, ctx_left, |n| {
+        ordering_edges.get_ingoing_edges(n).next()
+    })?;
+    let right_with_context = walk_context(right_most_covered_token, ctx_right, |n| {
+        ordering_edges.get_outgoing_edges(n).next()
+    })?;
     Ok((left_with_context, right_with_context))
 }
 
 fn get_left_right_token_with_offset_with_segmentation(
     graph: &Graph<AnnotationComponentType>,
     token_helper: &TokenHelper,
+    ordering_edges: &dyn GraphStorage,
     ordered_covered_token: &[NodeID],
     ctx_left: usize,
     ctx_right: usize,
@@ -192,32 +198,36 @@ fn get_left_right_token_with_offset_with_segmentation(
 
     // The context might be larger than the actual document, try to get the
     // largest possible context
-    let mut left_with_context = left_seg;
-    for ctx in (0..=ctx_left).rev() {
-        if let Some(result) = gs_ordering
-            .find_connected_inverse(left_seg, ctx, std::ops::Bound::Included(ctx))
-            .next()
-        {
-            left_with_context = result?;
-            break;
-        }
-    }
-    let mut right_with_context = right_seg;
-    for ctx in (0..=ctx_right).rev() {
-        if let Some(result) = gs_ordering
-            .find_connected(right_seg, ctx, std::ops::Bound::Included(ctx))
-            .next()
-        {
-            right_with_context = result?;
-            break;
-        }
-    }
-    let left_token = token_helper
+    let left_with_context = walk_context(left_seg, ctx_left, |n| {
+        gs_ordering.get_ingoing_edges(n).next()
+    })?;
+    let right_with_context = walk_context(right_seg, ctx_right, |n| {
+        gs_ordering.get_outgoing_edges(n).next()
+    })?;
+    let mut left_token = token_helper
         .left_token_for(left_with_context)?
         .unwrap_or(left_most_covered_token);
-    let right_token = token_helper
+    let mut right_token = token_helper
         .right_token_for(right_with_context)?
         .unwrap_or(right_most_covered_token);
+    // The segmentation nodes might not cover all of the covered token of the
+    // match, but these are always part of the result.
+    if ordering_edges.is_connected(
+        left_most_covered_token,
+        left_token,
+        1,
+        std::ops::Bound::Unbounded,
+    )? {
+        left_token = left_most_covered_token;
+    }
+    if ordering_edges.is_connected(
+        right_token,
+        right_most_covered_token,
+        1,
+        std::ops::Bound::Unbounded,
+    )? {
+        right_token = right_most_covered_token;
+    }
     Ok((left_token, right_token))
 }
 
@@ -280,6 +290,7 @@ impl<'a> TokenRegion<'a> {
             get_left_right_token_with_offset_with_segmentation(
                 graph,
                 &token_helper,
+                ordering_edges.as_ref(),
                 &covered_token,
                 ctx_left,
                 ctx_right,
@@ -485,7 +496,7 @@ where
     );
     let token_helper = TokenHelper::new(orig_graph).ok();
 
-    let mut previous_token = None;
+    let mut included_token = Vec::new();
 
     // create the subgraph description
     for r in it {
@@ -501,20 +512,7 @@ where
                     if let Some(token_helper) = &token_helper
                         && token_helper.is_token(m.node)?
                     {
-                        if let (Some(gs_ordering), Some(previous_node)) =
-                            (&gs_orig_ordering, previous_token)
-                            && let Some(distance) = gs_ordering.distance(previous_node, m.node)?
-                            && distance > 1
-                        {
-                            let gs_result_ds_ordering_ =
-                                result.get_or_create_writable(&ds_ordering_component)?;
-
-                            gs_result_ds_ordering_.add_edge(Edge {
-                                source: previous_node,
-                                target: m.node,
-                            })?;
-                        }
-                        previous_token = Some(m.node);
+                        included_token.push(m.node);
                     }
 
                     create_subgraph_node(m.node, &mut result, orig_graph)?;
@@ -523,6 +521,38 @@ where
         }
     }
 
+    // Connect the last token of each region with the first token of the next region in the same text.
+    // The text position and not the order of the matches decides which token follows.
+    let include_gaps = match &component_type_filter {
+        Some(ctype) => *ctype == AnnotationComponentType::Ordering,
+        None => true,
+    };
+    if let (Some(gs_ordering), true) = (&gs_orig_ordering, include_gaps) {
+        let token_set: HashSet<NodeID> = included_token.iter().copied().collect();
+        for token in included_token {
+            let mut skipped = HashSet::new();
+            let mut current = token;
+            while let Some(next_token) = gs_ordering.get_outgoing_edges(current).next() {
+                let next_token = next_token?;
+                if token_set.contains(&next_token) {
+                    if !skipped.is_empty() {
+                        let gs_result_ds_ordering =
+                            result.get_or_create_writable(&ds_ordering_component)?;
+                        gs_result_ds_ordering.add_edge(Edge {
+                            source: token,
+                            target: next_token,
+                        })?;
+                    }
+                    break;
+                }
+                if !skipped.insert(next_token) {
+                    break;
+                }
+                current = next_token;
+            }
+        }
+    }
+
     let components = orig_graph.get_all_components(component_type_filter, None);
 
     for m in &match_result {
-- 
2.43.0


From 1bf151cc4d46d6b7ab5df65e16dc13bd2eada7bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:30 +0000
Subject: [PATCH 36/45] fix: list components of changed corpora before they are
 persisted

Directly after an update, the components listed from the disk are
outdated until the background thread has written the new version.
---
 graphannis/src/annis/db/corpusstorage.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/graphannis/src/annis/db/corpusstorage.rs b/graphannis/src/annis/db/corpusstorage.rs
index ce58c8a..6534e63 100644
--- a/graphannis/src/annis/db/corpusstorage.rs
+++ b/graphannis/src/annis/db/corpusstorage.rs
@@ -2478,8 +2478,13 @@ impl CorpusStorage {
         name: Option<&str>,
     ) -> Result<Vec<Component<AnnotationComponentType>>> {
         if let Ok(db_entry) = self.get_entry(corpus_name) {
+            // The changes of already applied updates might not be persisted yet
+            self.wait_for_workers(corpus_name)?;
             // Lock the entry so no-one else can write to it
-            let _lock = db_entry.read()?;
+            let lock = db_entry.read()?;
+            if let CacheEntry::Loaded(graph) = &*lock {
+                return Ok(graph.get_all_components(ctype, name));
+            }
             // Get the components by listing the directories on the disk We
             // could use `Graph:get_all_components() but this needs to load the
             // annotation storage which can be costly.
-- 
2.43.0


From 5c9040dbcd7a54b577f93b4d52e02b07fd11cf28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:59 +0000
Subject: [PATCH 37/45] fix: regular expressions with assertions or without any
 matching value

They were replaced by an exact search for a value.
---
 graphannis/src/annis/util/mod.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/graphannis/src/annis/util/mod.rs b/graphannis/src/annis/util/mod.rs
index dac24db..40badfd 100644
--- a/graphannis/src/annis/util/mod.rs
+++ b/graphannis/src/annis/util/mod.rs
@@ -15,10 +15,13 @@ use std::{
 /// Otherwise return `None`.
 pub(crate) fn exact_value_for_regex(pattern: &str) -> Option<String> {
     let parsed = regex_syntax::Parser::new().parse(pattern).ok()?;
+    // The literals are extracted as if look-around assertions like \b would always match
+    if !parsed.properties().look_set().is_empty() {
+        return None;
+    }
     if let Some(matching_literals) = Extractor::new().extract(&parsed).literals() {
-        if matching_literals.is_empty() {
-            return Some("".into());
-        } else if matching_literals.len() == 1 && matching_literals[0].is_exact() {
+        // An empty set of literals means that nothing can match
+        if matching_literals.len() == 1 && matching_literals[0].is_exact() {
             let matching_value = std::str::from_utf8(matching_literals[0].as_bytes()).ok()?;
             return Some(matching_value.to_string());
         }
-- 
2.43.0


From 630c9fa13ee7f6c080d44a8a4e49eb0aa7d12051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:59 +0000
Subject: [PATCH 38/45] fix: panics for empty queries and large numbers, node
 references in legacy queries

The artificial nodes which are added for legacy queries with meta-data
conditions or several edge operators changed the numbering of the nodes
of later alternatives. Too large numbers in distances have been silently
replaced by zero.
---
 graphannis/src/annis/db/aql/mod.rs         | 18 +++++++++++++-----
 graphannis/src/annis/db/aql/parser.lalrpop | 21 ++++++++++++---------
 2 files changed, 25 insertions(+), 14 deletions(-)

diff --git a/graphannis/src/annis/db/aql/mod.rs b/graphannis/src/annis/db/aql/mod.rs
index 7212fc5..4f9c0c0 100644
--- a/graphannis/src/annis/db/aql/mod.rs
+++ b/graphannis/src/annis/db/aql/mod.rs
@@ -92,12 +92,16 @@ pub fn execute_query_on_graph<'a>(
     Ok(Box::from(it))
 }
 
+/// Map the literals of a conjunction.
+///
+/// Returns the mapped conjunction and the number of nodes which are explicitly part of the query
+/// (artificial nodes might be added in quirks mode).
 fn map_conjunction(
     c: Vec<ast::Literal>,
     offsets: &BTreeMap<usize, usize>,
     var_idx_offset: usize,
     quirks_mode: bool,
-) -> Result<Conjunction> {
+) -> Result<(Conjunction, usize)> {
     let mut q = Conjunction::with_offset(var_idx_offset);
     // collect and sort all node searches according to their start position in the text
     let (pos_to_node, pos_to_endpos) = calculate_node_positions(&c, offsets, quirks_mode)?;
@@ -248,6 +252,8 @@ fn map_conjunction(
         }
     }
 
+    let num_query_nodes = pos_to_node_id.len();
+
     if quirks_mode {
         // Add additional nodes to the query to emulate the old behavior of distributing
         // joins for pointing and dominance operators on different query nodes.
@@ -264,7 +270,7 @@ fn map_conjunction(
         }
     }
 
-    Ok(q)
+    Ok((q, num_query_nodes))
 }
 
 type PosToNodeMap = BTreeMap<usize, (NodeSearchSpec, Option<String>, bool)>;
@@ -506,7 +512,8 @@ pub fn parse(query_as_aql: &str, quirks_mode: bool) -> Result<Disjunction> {
             let mut var_idx_offset = 0;
             for c in ast {
                 // add the conjunction to the disjunction
-                let mut mapped = map_conjunction(c, &offsets, var_idx_offset, quirks_mode)?;
+                let (mut mapped, num_query_nodes) =
+                    map_conjunction(c, &offsets, var_idx_offset, quirks_mode)?;
 
                 if quirks_mode {
                     // apply the meta constraints to first node of all conjunctions
@@ -517,7 +524,8 @@ pub fn parse(query_as_aql: &str, quirks_mode: bool) -> Result<Disjunction> {
                         first_node_var,
                     )?;
                 }
-                var_idx_offset += mapped.num_of_nodes();
+                // Node references only count the explicit query nodes and not the artificial ones
+                var_idx_offset += num_query_nodes;
 
                 alternatives.push(mapped);
             }
@@ -648,7 +656,7 @@ fn extract_location<'a>(
         }
         ParseError::UnrecognizedEof { .. } => {
             // set to end of query
-            let start = get_line_and_column_for_pos(input.len() - 1, &offsets);
+            let start = get_line_and_column_for_pos(input.len().saturating_sub(1), &offsets);
             Some(LineColumnRange { start, end: None })
         }
         ParseError::User { .. } => None,
diff --git a/graphannis/src/annis/db/aql/parser.lalrpop b/graphannis/src/annis/db/aql/parser.lalrpop
index dda68d1..f9b6d0c 100644
--- a/graphannis/src/annis/db/aql/parser.lalrpop
+++ b/graphannis/src/annis/db/aql/parser.lalrpop
@@ -1,5 +1,6 @@
 use super::ast;
 use boolean_expression::Expr;
+use lalrpop_util::ParseError;
 use std::rc::Rc;
 use crate::annis::operator::EdgeAnnoSearchSpec;
 use crate::annis::db::exec::nodesearch::NodeSearchSpec;
@@ -312,7 +313,9 @@ NodeSearch : NodeSearchSpec = {
 /// Node references like `#1` (using the index of the node) or `#abc`
 /// (using explicit name for variable)
 NodeRef : ast::NodeRef = {
-    <v:NODE_REF> => ast::NodeRef::ID(v[1..].parse::<usize>().unwrap()),
+    <v:NODE_REF> =>? v[1..].parse::<usize>().map(ast::NodeRef::ID).map_err(|_| ParseError::User {
+        error: "The number of the node reference is too large."
+    }),
     <v:VARIABLE_NODE_REF> => ast::NodeRef::Name(v[1..].to_string()),
 }
 
@@ -513,18 +516,18 @@ EdgeAnno: EdgeAnnoSearchSpec = {
 }
 
 RangeSpec: ast::RangeSpec = {
-    (",")? <min:DIGITS> "," <max:DIGITS> => ast::RangeSpec::Bound {
-        min_dist: min.parse().unwrap_or_default(), 
-        max_dist: max.parse().unwrap_or_default(),
-    },
-    (",")? <exact:DIGITS> => ast::RangeSpec::Bound {
-        min_dist: exact.parse().unwrap_or_default(), 
-        max_dist: exact.parse().unwrap_or_default(),
-    },
+    (",")? <min_dist:Number> "," <max_dist:Number> => ast::RangeSpec::Bound { min_dist, max_dist },
+    (",")? <exact:Number> => ast::RangeSpec::Bound { min_dist: exact, max_dist: exact },
     "*" => ast::RangeSpec::Unbound,
     
 }
 
+Number: usize = {
+    <v:DIGITS> =>? v.parse().map_err(|_| ParseError::User {
+        error: "The number is too large."
+    }),
+}
+
 QName: ast::QName = {
     <ns:ID> ":" <name:ID> => ast::QName(Some(String::from(ns)), String::from(name)),
     <name:ID> => ast::QName(None, String::from(name)),
-- 
2.43.0


From 55fa3921ca02764d81997d79ad85dd93acda0fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:35 +0000
Subject: [PATCH 39/45] fix: keep the inherited coverage and order components
 up-to-date for removed nodes, labels and extended token chains

---
 graphannis/src/annis/db/aql/model.rs | 121 +++++++++++++++++++++++++--
 1 file changed, 116 insertions(+), 5 deletions(-)

diff --git a/graphannis/src/annis/db/aql/model.rs b/graphannis/src/annis/db/aql/model.rs
index 872172a..0935cbd 100644
--- a/graphannis/src/annis/db/aql/model.rs
+++ b/graphannis/src/annis/db/aql/model.rs
@@ -168,12 +168,23 @@ fn calculate_inherited_coverage_edges(
     Ok(covered_token)
 }
 
+fn base_ordering_component() -> AnnotationComponent {
+    AnnotationComponent::new(
+        AnnotationComponentType::Ordering,
+        ANNIS_NS.into(),
+        "".into(),
+    )
+}
+
 pub struct AQLUpdateGraphIndex {
     /// A map from a node name to its internal ID.
     cached_node_ids: DiskMap<String, NodeID>,
     /// True if the graph did not have any nodes before the update.
     graph_without_nodes: bool,
     invalid_nodes: DiskMap<NodeID, bool>,
+    /// Token which have been connected to each other and might have changed the order of all token
+    /// of their text.
+    reordered_token: DiskMap<NodeID, bool>,
     text_coverage_components: FxHashSet<AnnotationComponent>,
 }
 
@@ -220,6 +231,63 @@ impl AQLUpdateGraphIndex {
         Ok(())
     }
 
+    /// If an edge between these token joined two parts of a text, remember them.
+    fn check_joined_texts(
+        &mut self,
+        graph: &AnnotationGraph,
+        source: NodeID,
+        target: NodeID,
+    ) -> std::result::Result<(), ComponentTypeError> {
+        let Some(gs_order) = graph.get_graphstorage_as_ref(&base_ordering_component()) else {
+            return Ok(());
+        };
+        // A single new token does not change the order of the other ones
+        for (node, neighbor) in [(source, target), (target, source)] {
+            let mut isolated = true;
+            for other in gs_order
+                .get_outgoing_edges(node)
+                .chain(gs_order.get_ingoing_edges(node))
+            {
+                if other? != neighbor {
+                    isolated = false;
+                    break;
+                }
+            }
+            if isolated {
+                return Ok(());
+            }
+        }
+        self.reordered_token.insert(source, true)?;
+        Ok(())
+    }
+
+    /// Invalidate all nodes covering a token of a text with a changed order.
+    fn calculate_invalidated_nodes_by_order(
+        &mut self,
+        graph: &AnnotationGraph,
+    ) -> std::result::Result<(), ComponentTypeError> {
+        let Some(gs_order) = graph.get_graphstorage_as_ref(&base_ordering_component()) else {
+            return Ok(());
+        };
+        let mut visited: FxHashSet<NodeID> = FxHashSet::default();
+        let mut remaining = Vec::new();
+        for start in self.reordered_token.iter()? {
+            remaining.push(start?.0);
+        }
+        while let Some(token) = remaining.pop() {
+            if visited.insert(token) {
+                self.calculate_invalidated_nodes_by_coverage(graph, token)?;
+                for neighbor in gs_order
+                    .get_outgoing_edges(token)
+                    .chain(gs_order.get_ingoing_edges(token))
+                {
+                    remaining.push(neighbor?);
+                }
+            }
+        }
+        Ok(())
+    }
+
     fn clear_left_right_token(
         &self,
         graph: &mut AnnotationGraph,
@@ -449,9 +517,16 @@ impl ComponentType for AnnotationComponentType {
             BtreeConfig::default().fixed_key_size(8).fixed_value_size(2),
         )?;
 
+        let reordered_token: DiskMap<NodeID, bool> = DiskMap::new(
+            None,
+            EvictionStrategy::MaximumItems(1_000_000),
+            DEFAULT_BLOCK_CACHE_CAPACITY,
+            BtreeConfig::default().fixed_key_size(8).fixed_value_size(2),
+        )?;
+
         let mut text_coverage_components = FxHashSet::default();
         text_coverage_components
-            .extend(graph.get_all_components(Some(AnnotationComponentType::Dominance), Some("")));
+            .extend(graph.get_all_components(Some(AnnotationComponentType::Dominance), None));
         text_coverage_components
             .extend(graph.get_all_components(Some(AnnotationComponentType::Coverage), None));
         Ok(AQLUpdateGraphIndex {
@@ -459,6 +534,7 @@ impl ComponentType for AnnotationComponentType {
             graph_without_nodes,
             text_coverage_components,
             invalid_nodes,
+            reordered_token,
         })
     }
 
@@ -475,6 +551,8 @@ impl ComponentType for AnnotationComponentType {
                 {
                     index.calculate_invalidated_nodes_by_coverage(graph, existing_node_id)?;
                 }
+                // If the node is added again, it has a different ID
+                index.cached_node_ids.remove(node_name)?;
             }
             UpdateEvent::DeleteEdge {
                 source_node,
@@ -517,6 +595,27 @@ impl ComponentType for AnnotationComponentType {
         graph: &AnnotationGraph,
         index: &mut Self::UpdateGraphIndex,
     ) -> std::result::Result<(), ComponentTypeError> {
+        // Adding or removing the token annotation changes the coverage of all parent nodes
+        if let UpdateEvent::AddNodeLabel {
+            node_name,
+            anno_ns,
+            anno_name,
+            ..
+        }
+        | UpdateEvent::DeleteNodeLabel {
+            node_name,
+            anno_ns,
+            anno_name,
+        } = &update
+            && !index.graph_without_nodes
+            && anno_ns == ANNIS_NS
+            && anno_name == TOK
+            && let Some(node) =
+                index.get_cached_node_id_from_name(Cow::Borrowed(node_name), graph)?
+        {
+            index.calculate_invalidated_nodes_by_coverage(graph, node)?;
+        }
+
         if let UpdateEvent::AddEdge {
             component_type,
             component_name,
@@ -527,16 +626,25 @@ impl ComponentType for AnnotationComponentType {
         } = update
             && let Ok(ctype) = AnnotationComponentType::from_str(&component_type)
         {
-            if (ctype == AnnotationComponentType::Dominance
-                || ctype == AnnotationComponentType::Coverage)
-                && component_name.is_empty()
+            let c = AnnotationComponent::new(ctype.clone(), layer, component_name);
+            let is_base_ordering = c == base_ordering_component();
+            if ctype == AnnotationComponentType::Dominance
+                || ctype == AnnotationComponentType::Coverage
             {
                 // might be a new text coverage component
-                let c = AnnotationComponent::new(ctype.clone(), layer, component_name);
                 index.text_coverage_components.insert(c);
             }
 
             if !index.graph_without_nodes {
+                if is_base_ordering
+                    && let Some(source) =
+                        index.get_cached_node_id_from_name(Cow::Borrowed(&source_node), graph)?
+                    && let Some(target) =
+                        index.get_cached_node_id_from_name(Cow::Borrowed(&target_node), graph)?
+                {
+                    index.check_joined_texts(graph, source, target)?;
+                }
+
                 if ctype == AnnotationComponentType::Coverage
                     || ctype == AnnotationComponentType::Dominance
                     || ctype == AnnotationComponentType::Ordering
@@ -580,6 +688,9 @@ impl ComponentType for AnnotationComponentType {
                 index.invalid_nodes.insert(m.node, true)?;
             }
         }
+        if !index.graph_without_nodes {
+            index.calculate_invalidated_nodes_by_order(graph)?;
+        }
         index.invalid_nodes.compact()?;
 
         // Re-index the inherited coverage component.
-- 
2.43.0


From c4728a847d9fe49ba72c2650b411adb202f682e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:50 +0000
Subject: [PATCH 40/45] fix: unescape attributes and names in GraphML files,
 read split values and reject truncated files

---
 core/src/graph/serialization/graphml.rs | 82 ++++++++++++++++++-------
 1 file changed, 61 insertions(+), 21 deletions(-)

diff --git a/core/src/graph/serialization/graphml.rs b/core/src/graph/serialization/graphml.rs
index d97a5ff..c76f730 100644
--- a/core/src/graph/serialization/graphml.rs
+++ b/core/src/graph/serialization/graphml.rs
@@ -9,6 +9,7 @@ use crate::{
     util::{join_qname, split_qname},
 };
 use itertools::Itertools;
+use percent_encoding::percent_decode_str;
 use quick_xml::{
     Reader, Writer,
     events::{
@@ -126,6 +127,19 @@ fn write_data<W: std::io::Write>(
     Ok(())
 }
 
+/// Write the content as CDATA. The CDATA end marker must not be part of a
+/// section and is thus split into two consecutive ones.
+fn write_cdata<W: std::io::Write>(content: &str, writer: &mut Writer<W>) -> Result<()> {
+    let mut rest = content;
+    while let Some(pos) = rest.find("]]>") {
+        let (section, remaining) = rest.split_at(pos + 2);
+        writer.write_event(Event::CData(BytesCData::new(section)))?;
+        rest = remaining;
+    }
+    writer.write_event(Event::CData(BytesCData::new(rest)))?;
+    Ok(())
+}
+
 fn compare_results<T: Ord>(a: &Result<T>, b: &Result<T>) -> Ordering {
     if let (Ok(a), Ok(b)) = (a, b) {
         a.cmp(b)
@@ -319,7 +333,7 @@ where
         data_start.push_attribute(("key", "k0"));
         writer.write_event(Event::Start(data_start))?;
         // Add the annotation value as internal text node
-        writer.write_event(Event::CData(BytesCData::new(config)))?;
+        write_cdata(config, &mut writer)?;
         writer.write_event(Event::End(BytesEnd::new("data")))?;
     }
 
@@ -386,7 +400,7 @@ where
         data_start.push_attribute(("key", "k0"));
         writer.write_event(Event::Start(data_start))?;
         // Add the annotation value as internal text node
-        writer.write_event(Event::CData(BytesCData::new(config)))?;
+        write_cdata(config, &mut writer)?;
         writer.write_event(Event::End(BytesEnd::new("data")))?;
     }
 
@@ -407,7 +421,16 @@ where
     Ok(())
 }
 
-fn add_annotation_key(keys: &mut BTreeMap<String, AnnoKey>, attributes: Attributes) -> Result<()> {
+/// Revert the percent-encoding of the namespace or name part of a qualified name.
+fn decode_qname_part(part: &str) -> String {
+    percent_decode_str(part).decode_utf8_lossy().to_string()
+}
+
+fn add_annotation_key<B>(
+    keys: &mut BTreeMap<String, AnnoKey>,
+    attributes: Attributes,
+    reader: &Reader<B>,
+) -> Result<()> {
     // resolve the ID to the fully qualified annotation name
     let mut id: Option<String> = None;
     let mut anno_key: Option<AnnoKey> = None;
@@ -415,7 +438,7 @@ fn add_annotation_key(keys: &mut BTreeMap<String, AnnoKey>, attributes: Attribut
     for att in attributes {
         let att = att?;
 
-        let att_value = String::from_utf8_lossy(&att.value);
+        let att_value = att.decode_and_unescape_value(reader)?;
 
         match att.key.0 {
             b"id" => {
@@ -424,8 +447,8 @@ fn add_annotation_key(keys: &mut BTreeMap<String, AnnoKey>, attributes: Attribut
             b"attr.name" => {
                 let (ns, name) = split_qname(att_value.as_ref());
                 anno_key = Some(AnnoKey {
-                    ns: ns.unwrap_or("").into(),
-                    name: name.into(),
+                    ns: decode_qname_part(ns.unwrap_or("")),
+                    name: decode_qname_part(name),
                 });
             }
             _ => {}
@@ -515,6 +538,7 @@ fn read_graphml<CT: ComponentType, R: std::io::BufRead, F: Fn(&str)>(
     let mut keys = BTreeMap::new();
 
     let mut level = 0;
+    let mut has_root_element = false;
     let mut in_graph = false;
     let mut current_node_id: Option<String> = None;
     let mut current_data_key: Option<String> = None;
@@ -524,7 +548,7 @@ fn read_graphml<CT: ComponentType, R: std::io::BufRead, F: Fn(&str)>(
     let mut current_data_value: Option<String> = None;
     let mut data: HashMap<AnnoKey, String> = HashMap::new();
 
-    let mut config = None;
+    let mut config: Option<String> = None;
 
     let mut processed_updates = 0;
 
@@ -533,13 +557,14 @@ fn read_graphml<CT: ComponentType, R: std::io::BufRead, F: Fn(&str)>(
         match reader.read_event_into(&mut buf)? {
             Event::Start(ref e) => {
                 level += 1;
+                has_root_element = true;
 
                 match e.name().0 {
                     b"graph" if level == 2 => {
                         in_graph = true;
                     }
                     b"key" if level == 2 => {
-                        add_annotation_key(&mut keys, e.attributes())?;
+                        add_annotation_key(&mut keys, e.attributes(), &reader)?;
                     }
                     b"node" if in_graph && level == 3 => {
                         data.clear();
@@ -548,7 +573,7 @@ fn read_graphml<CT: ComponentType, R: std::io::BufRead, F: Fn(&str)>(
                             let att = att?;
                             if att.key.0 == b"id" {
                                 current_node_id =
-                                    Some(String::from_utf8_lossy(&att.value).to_string());
+                                    Some(att.decode_and_unescape_value(&reader)?.to_string());
                             }
                         }
                     }
@@ -560,13 +585,13 @@ fn read_graphml<CT: ComponentType, R: std::io::BufRead, F: Fn(&str)>(
                             let att = att?;
                             if att.key.0 == b"source" {
                                 current_source_id =
-                                    Some(String::from_utf8_lossy(&att.value).to_string());
+                                    Some(att.decode_and_unescape_value(&reader)?.to_string());
                             } else if att.key.0 == b"target" {
                                 current_target_id =
-                                    Some(String::from_utf8_lossy(&att.value).to_string());
+                                    Some(att.decode_and_unescape_value(&reader)?.to_string());
                             } else if att.key.0 == b"label" {
                                 current_component =
-                                    Some(String::from_utf8_lossy(&att.value).to_string());
+                                    Some(att.decode_and_unescape_value(&reader)?.to_string());
                             }
                         }
                     }
@@ -576,25 +601,36 @@ fn read_graphml<CT: ComponentType, R: std::io::BufRead, F: Fn(&str)>(
                             let att = att?;
                             if att.key.0 == b"key" {
                                 current_data_key =
-                                    Some(String::from_utf8_lossy(&att.value).to_string());
+                                    Some(att.decode_and_unescape_value(&reader)?.to_string());
                             }
                         }
                     }
                     _ => {}
                 }
             }
+            // The value can be split into several text and CDATA sections
             Event::Text(t) if in_graph && level == 4 && current_data_key.is_some() => {
-                current_data_value = Some(t.unescape()?.to_string());
+                current_data_value
+                    .get_or_insert_default()
+                    .push_str(&t.unescape()?);
+            }
+            Event::Text(t)
+                if in_graph && level == 3 && current_data_key.as_deref() == Some("k0") =>
+            {
+                let t = t.unescape()?;
+                // Ignore white space around the actual configuration content
+                if config.is_some() || !t.trim().is_empty() {
+                    config.get_or_insert_default().push_str(&t);
+                }
             }
 
-            Event::CData(t) => {
-                if let Some(current_data_key) = &current_data_key
-                    && in_graph
-                    && level == 3
-                    && current_data_key == "k0"
-                {
+            Event::CData(t) if in_graph && current_data_key.is_some() => {
+                let t = reader.decoder().decode(&t)?;
+                if level == 4 {
+                    current_data_value.get_or_insert_default().push_str(&t);
+                } else if level == 3 && current_data_key.as_deref() == Some("k0") {
                     // This is the configuration content
-                    config = Some(String::from_utf8_lossy(&t).to_string());
+                    config.get_or_insert_default().push_str(&t);
                 }
             }
             Event::End(ref e) => {
@@ -656,6 +692,10 @@ fn read_graphml<CT: ComponentType, R: std::io::BufRead, F: Fn(&str)>(
                 level -= 1;
             }
             Event::Eof => {
+                // Do not accept incomplete files
+                if level > 0 || !has_root_element {
+                    return Err(quick_xml::Error::UnexpectedEof("GraphML".to_string()).into());
+                }
                 break;
             }
             _ => {}
-- 
2.43.0


From d3a5f77424affd177bf121d53820fee4e3b68ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:50 +0000
Subject: [PATCH 41/45] fix: corpus names must not refer to the data directory
 or its parent, do not cache non-existing corpora

---
 graphannis/src/annis/db/corpusstorage.rs | 58 ++++++++++--------------
 1 file changed, 24 insertions(+), 34 deletions(-)

diff --git a/graphannis/src/annis/db/corpusstorage.rs b/graphannis/src/annis/db/corpusstorage.rs
index 6534e63..c22089c 100644
--- a/graphannis/src/annis/db/corpusstorage.rs
+++ b/graphannis/src/annis/db/corpusstorage.rs
@@ -553,7 +553,7 @@ impl CorpusStorage {
 
     fn get_corpus_config(&self, corpus_name: &str) -> Result<Option<CorpusConfiguration>> {
         let corpus_config_path = self
-            .corpus_directory_on_disk(corpus_name)
+            .corpus_directory_on_disk(corpus_name)?
             .join("corpus-config.toml");
         if corpus_config_path.is_file() {
             let file_content = std::fs::read_to_string(corpus_config_path)?;
@@ -565,7 +565,7 @@ impl CorpusStorage {
     }
 
     fn write_corpus_config(&self, corpus_name: &str, config: CorpusConfiguration) -> Result<()> {
-        let db_path = self.corpus_directory_on_disk(corpus_name);
+        let db_path = self.corpus_directory_on_disk(corpus_name)?;
 
         let corpus_config_path = db_path.join("corpus-config.toml");
         info!(
@@ -642,26 +642,10 @@ impl CorpusStorage {
     }
 
     fn get_entry(&self, corpus_name: &str) -> Result<Arc<RwLock<CacheEntry>>> {
-        let corpus_name = corpus_name.to_string();
-
-        {
-            // test with read-only access if corpus is contained in cache
-            let cache_lock = self.corpus_cache.read()?;
-            let cache = &*cache_lock;
-            if let Some(e) = cache.get(&corpus_name) {
-                return Ok(e.clone());
-            }
-        }
-
-        // if not yet available, change to write-lock and insert cache entry
-        let mut cache_lock = self.corpus_cache.write()?;
-        let cache = &mut *cache_lock;
-
-        let entry = cache
-            .entry(corpus_name)
-            .or_insert_with(|| Arc::new(RwLock::new(CacheEntry::NotLoaded)));
-
-        Ok(entry.clone())
+        let cache_lock = self.corpus_cache.read()?;
+        let entry = cache_lock.get(corpus_name).cloned();
+        // Do not add missing entries to the cache, since the corpus might not exist
+        Ok(entry.unwrap_or_else(|| Arc::new(RwLock::new(CacheEntry::NotLoaded))))
     }
 
     fn load_entry_with_lock(
@@ -685,7 +669,7 @@ impl CorpusStorage {
         self.wait_for_workers(corpus_name)?;
 
         // if not loaded yet, get write-lock and load entry
-        let db_path = self.corpus_directory_on_disk(corpus_name);
+        let db_path = self.corpus_directory_on_disk(corpus_name)?;
 
         let create_corpus = if db_path.is_dir() {
             false
@@ -717,13 +701,13 @@ impl CorpusStorage {
 
         let entry = Arc::new(RwLock::new(CacheEntry::Loaded(db)));
         // first remove entry, than add it: this ensures it is at the end of the linked hash map
-        let entry_existed = cache.remove(corpus_name).is_some();
+        cache.remove(corpus_name);
         cache.insert(String::from(corpus_name), entry.clone());
         info!("Loaded corpus {}", corpus_name,);
         // Cleanup cache if needed
         let removed =
             check_cache_size_and_remove_with_cache(cache, &self.cache_strategy, vec![corpus_name])?;
-        if !entry_existed || removed {
+        if create_corpus || removed {
             info!(
                 "Updated corpus cache: {}",
                 get_corpus_cache_info_as_string(cache, &self.cache_strategy)?
@@ -1081,7 +1065,7 @@ impl CorpusStorage {
         self.update_corpus_size_info(&mut config, &graph);
 
         let corpus_name = corpus_name.unwrap_or(orig_name);
-        let db_path = self.corpus_directory_on_disk(&corpus_name);
+        let db_path = self.corpus_directory_on_disk(&corpus_name)?;
 
         let mut cache_lock = self.corpus_cache.write()?;
         let cache = &mut *cache_lock;
@@ -1226,7 +1210,7 @@ impl CorpusStorage {
             name: "file".into(),
         };
 
-        let base_path = self.corpus_directory_on_disk(corpus_name).join("files");
+        let base_path = self.corpus_directory_on_disk(corpus_name)?.join("files");
         if base_path.is_dir() {
             let base_path = base_path.canonicalize()?;
 
@@ -1446,7 +1430,7 @@ impl CorpusStorage {
     /// Delete a corpus from this corpus storage.
     /// Returns `true` if the corpus was successfully deleted and `false` if no such corpus existed.
     pub fn delete(&self, corpus_name: &str) -> Result<bool> {
-        let db_path = self.corpus_directory_on_disk(corpus_name);
+        let db_path = self.corpus_directory_on_disk(corpus_name)?;
 
         let mut cache_lock = self.corpus_cache.write()?;
         let cache = &mut *cache_lock;
@@ -1482,7 +1466,7 @@ impl CorpusStorage {
     /// Use [`apply_update`](CorpusStorage::apply_update) to add elements to the corpus. Returns whether a
     /// new corpus was created.
     pub fn create_empty_corpus(&self, corpus_name: &str, disk_based: bool) -> Result<bool> {
-        let db_path = self.corpus_directory_on_disk(corpus_name);
+        let db_path = self.corpus_directory_on_disk(corpus_name)?;
 
         let mut cache_lock = self.corpus_cache.write()?;
         let cache = &mut *cache_lock;
@@ -2488,7 +2472,7 @@ impl CorpusStorage {
             // Get the components by listing the directories on the disk We
             // could use `Graph:get_all_components() but this needs to load the
             // annotation storage which can be costly.
-            let db_path = self.corpus_directory_on_disk(corpus_name);
+            let db_path = self.corpus_directory_on_disk(corpus_name)?;
             let backup = db_path.join("backup");
 
             let dir2load = if backup.exists() && backup.is_dir() {
@@ -2631,13 +2615,19 @@ impl CorpusStorage {
         Ok(removed)
     }
 
-    fn corpus_directory_on_disk(&self, corpus_name: &str) -> PathBuf {
-        let escaped_corpus_name: Cow<str> =
-            utf8_percent_encode(corpus_name, PATH_ENCODE_SET).into();
+    fn corpus_directory_on_disk(&self, corpus_name: &str) -> Result<PathBuf> {
+        let escaped_corpus_name: Cow<str> = match corpus_name {
+            // There is no directory name which could represent an empty name
+            "" => return Err(GraphAnnisError::NoSuchCorpus(corpus_name.to_string())),
+            // These would refer to the data directory itself or its parent
+            "." => "%2E".into(),
+            ".." => "%2E%2E".into(),
+            _ => utf8_percent_encode(corpus_name, PATH_ENCODE_SET).into(),
+        };
         let db_path: PathBuf = [self.db_dir.to_string_lossy().as_ref(), &escaped_corpus_name]
             .iter()
             .collect();
-        db_path
+        Ok(db_path)
     }
 
     /// Return the current size and loaded corpora as debug string.
-- 
2.43.0


From f8d811fd924fb441acf5d6ba50b74f7ba978e8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:52 +0000
Subject: [PATCH 42/45] fix: contain linked files and exported corpora in their
 target directory and do not leave incomplete files or corpora behind

---
 graphannis/src/annis/db/corpusstorage.rs | 142 ++++++++++++++++-------
 1 file changed, 98 insertions(+), 44 deletions(-)

diff --git a/graphannis/src/annis/db/corpusstorage.rs b/graphannis/src/annis/db/corpusstorage.rs
index c22089c..e8a8a56 100644
--- a/graphannis/src/annis/db/corpusstorage.rs
+++ b/graphannis/src/annis/db/corpusstorage.rs
@@ -1094,44 +1094,22 @@ impl CorpusStorage {
             return Err(GraphAnnisError::CorpusExists(corpus_name.to_string()));
         }
 
-        if let Err(e) = std::fs::create_dir_all(&db_path) {
-            error!(
-                "Can't create directory {}: {:?}",
-                db_path.to_string_lossy(),
-                e
-            );
-        }
-
-        info!("Copying linked files for corpus {}", corpus_name);
-        let current_dir = PathBuf::from(".");
-        let files_dir = db_path.join("files");
-        std::fs::create_dir_all(&files_dir)?;
         let old_base_path = path
             .parent()
             .filter(|p| !p.as_os_str().is_empty())
-            .unwrap_or(&current_dir);
-        self.copy_linked_files_and_update_references(old_base_path, &files_dir, &mut graph)?;
-
-        // save to its location
-        info!("Saving corpus {} to disk", corpus_name);
-        let save_result = graph.save_to(&db_path);
-        if let Err(e) = save_result {
-            error!(
-                "Can't save corpus to {}: {:?}",
-                db_path.to_string_lossy(),
-                e
-            );
+            .unwrap_or(Path::new("."));
+        if let Err(e) =
+            self.write_imported_corpus(&corpus_name, &db_path, old_base_path, &mut graph, &config)
+        {
+            // Do not leave an incomplete corpus behind
+            if db_path.is_dir()
+                && let Err(e) = std::fs::remove_dir_all(&db_path)
+            {
+                error!("Error when removing incomplete corpus {}", e);
+            }
+            return Err(e);
         }
 
-        // Use the imported/generated/default corpus configuration and store it in our graph directory
-        let corpus_config_path = db_path.join("corpus-config.toml");
-        info!(
-            "Saving corpus configuration file for corpus {} to {}",
-            corpus_name,
-            &corpus_config_path.to_string_lossy()
-        );
-        std::fs::write(corpus_config_path, toml::to_string(&config)?)?;
-
         // make it known to the cache
         cache.insert(
             corpus_name.clone(),
@@ -1146,6 +1124,36 @@ impl CorpusStorage {
         Ok(corpus_name)
     }
 
+    /// Create the directory for an imported corpus and write its linked files,
+    /// graph and configuration to it.
+    fn write_imported_corpus(
+        &self,
+        corpus_name: &str,
+        db_path: &Path,
+        old_base_path: &Path,
+        graph: &mut AnnotationGraph,
+        config: &CorpusConfiguration,
+    ) -> Result<()> {
+        info!("Copying linked files for corpus {}", corpus_name);
+        let files_dir = db_path.join("files");
+        std::fs::create_dir_all(&files_dir)?;
+        self.copy_linked_files_and_update_references(old_base_path, &files_dir, graph)?;
+
+        // save to its location
+        info!("Saving corpus {} to disk", corpus_name);
+        graph.save_to(db_path)?;
+
+        // Use the imported/generated/default corpus configuration and store it in our graph directory
+        let corpus_config_path = db_path.join("corpus-config.toml");
+        info!(
+            "Saving corpus configuration file for corpus {} to {}",
+            corpus_name,
+            &corpus_config_path.to_string_lossy()
+        );
+        std::fs::write(corpus_config_path, toml::to_string(config)?)?;
+        Ok(())
+    }
+
     fn copy_linked_files_and_update_references(
         &self,
         old_base_path: &Path,
@@ -1172,7 +1180,8 @@ impl CorpusStorage {
                     && let Some(node_name) = node_annos.get_value_for_item(&node, &NODE_NAME_KEY)?
                 {
                     // Create a new file name based on the node name and copy the file
-                    let new_path = new_base_path.join(node_name.as_ref());
+                    let relative_path = relative_path_for_file_node(&node_name);
+                    let new_path = new_base_path.join(&relative_path);
                     debug!(
                         "Copying file from {} to {}",
                         original_path.as_path().to_string_lossy(),
@@ -1184,7 +1193,6 @@ impl CorpusStorage {
                     std::fs::copy(&original_path, &new_path)?;
                     // Update the annotation to link to the new file with a relative path.
                     // Use the corpus directory as base path for this relative path.
-                    let relative_path = new_path.strip_prefix(new_base_path)?;
                     node_annos.insert(
                         node,
                         Annotation {
@@ -1259,7 +1267,7 @@ impl CorpusStorage {
                 let node_name: String = node_name;
                 if original_path.is_file() {
                     // Create a new file name based on the node name and copy the file
-                    let new_path = new_base_path.join(&node_name);
+                    let new_path = new_base_path.join(relative_path_for_file_node(&node_name));
                     if let Some(parent) = new_path.parent() {
                         std::fs::create_dir_all(parent)?;
                     }
@@ -1272,9 +1280,9 @@ impl CorpusStorage {
     }
 
     fn export_corpus_graphml(&self, corpus_name: &str, path: &Path) -> Result<()> {
-        let output_file = File::create(path)?;
         // Ensure all components are loaded
         let entry = self.get_fully_loaded_entry(corpus_name)?;
+        let output_file = File::create(path)?;
         // Perform the export on a read-only reference
         let lock = entry.read()?;
         let graph: &AnnotationGraph = get_read_or_error(&lock)?;
@@ -1327,15 +1335,16 @@ impl CorpusStorage {
             .compression_method(zip::CompressionMethod::Deflated)
             .large_file(true);
 
+        // Ensure all components are loaded
+        let entry = self.get_fully_loaded_entry(corpus_name)?;
+
         let mut base_path = PathBuf::default();
         if use_corpus_subdirectory {
-            base_path.push(corpus_name);
+            base_path.push(export_directory_name(corpus_name).as_ref());
         }
-        let path_in_zip = base_path.join(format!("{}.graphml", corpus_name));
+        let path_in_zip = base_path.join(export_file_name(corpus_name));
         zip.start_file(path_in_zip.to_string_lossy(), options)?;
 
-        // Ensure all components are loaded
-        let entry = self.get_fully_loaded_entry(corpus_name)?;
         // Perform the export on a read-only reference
         let lock = entry.read()?;
         let graph: &AnnotationGraph = get_read_or_error(&lock)?;
@@ -1360,8 +1369,12 @@ impl CorpusStorage {
             for file in it_files {
                 let (node_name, original_path) = file?;
                 let node_name: String = node_name;
+                if !original_path.is_file() {
+                    continue;
+                }
 
-                zip.start_file(base_path.join(&node_name).to_string_lossy(), options)?;
+                let path_in_zip = base_path.join(relative_path_for_file_node(&node_name));
+                zip.start_file(path_in_zip.to_string_lossy(), options)?;
                 let file_to_copy = File::open(original_path)?;
                 let mut reader = BufReader::new(file_to_copy);
                 std::io::copy(&mut reader, zip)?;
@@ -1382,6 +1395,10 @@ impl CorpusStorage {
         path: &Path,
         format: ExportFormat,
     ) -> Result<()> {
+        // Existing files should not be overwritten if there is a corpus that can't be exported
+        for corpus_name in corpora {
+            self.get_loaded_entry(corpus_name.as_ref(), false, false)?;
+        }
         match format {
             ExportFormat::GraphML => {
                 if corpora.len() == 1 {
@@ -1400,10 +1417,10 @@ impl CorpusStorage {
                     if use_corpus_subdirectory {
                         // Use a sub-directory with the corpus name to avoid conflicts with the
                         // linked files
-                        path.push(corpus_name.as_ref());
+                        path.push(export_directory_name(corpus_name.as_ref()).as_ref());
                     };
                     std::fs::create_dir_all(&path)?;
-                    path.push(format!("{}.graphml", corpus_name.as_ref()));
+                    path.push(export_file_name(corpus_name.as_ref()));
                     self.export_corpus_graphml(corpus_name.as_ref(), &path)?;
                 }
             }
@@ -2679,6 +2696,43 @@ impl Drop for CorpusStorage {
     }
 }
 
+/// Get the relative path for the linked file of a node with the given name.
+///
+/// The result is the node name itself, unless it contains parts that would
+/// refer to a location outside of the base directory.
+fn relative_path_for_file_node(node_name: &str) -> PathBuf {
+    // The backslash is a path separator in ZIP files
+    let path: PathBuf = Path::new(&node_name.replace('\\', "%5C"))
+        .components()
+        .filter_map(|c| match c {
+            std::path::Component::Normal(c) => Some(c),
+            std::path::Component::ParentDir => Some("%2E%2E".as_ref()),
+            std::path::Component::RootDir => Some("%2F".as_ref()),
+            std::path::Component::CurDir | std::path::Component::Prefix(_) => None,
+        })
+        .collect();
+    if path.as_os_str().is_empty() {
+        PathBuf::from("%2E")
+    } else {
+        path
+    }
+}
+
+/// Get the name of the directory used when several corpora are exported.
+fn export_directory_name(corpus_name: &str) -> Cow<'_, str> {
+    match corpus_name {
+        "." => "%2E".into(),
+        ".." => "%2E%2E".into(),
+        _ => corpus_name.replace('/', "%2F").replace('\\', "%5C").into(),
+    }
+}
+
+/// Get the name of the GraphML file for an exported corpus.
+fn export_file_name(corpus_name: &str) -> String {
+    let base_name = corpus_name.replace('/', "%2F").replace('\\', "%5C");
+    format!("{base_name}.graphml")
+}
+
 fn get_read_or_error<'a>(lock: &'a RwLockReadGuard<CacheEntry>) -> Result<&'a AnnotationGraph> {
     if let CacheEntry::Loaded(db) = &**lock {
         Ok(db)
-- 
2.43.0


From 70d275da7c6014e1f5c49289ca3ed807f4a898a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:12 +0000
Subject: [PATCH 43/45] fix: load the components needed for gaps between token
 for subgraphs filtered by ordering components

---
 graphannis/src/annis/db/corpusstorage.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/graphannis/src/annis/db/corpusstorage.rs b/graphannis/src/annis/db/corpusstorage.rs
index e8a8a56..46ba881 100644
--- a/graphannis/src/annis/db/corpusstorage.rs
+++ b/graphannis/src/annis/db/corpusstorage.rs
@@ -2201,7 +2201,12 @@ impl CorpusStorage {
         component_type_filter: Option<AnnotationComponentType>,
     ) -> Result<AnnotationGraph> {
         let prep = self.prepare_query(corpus_name, query, query_language, |g| {
-            g.get_all_components(component_type_filter.clone(), None)
+            let mut components = g.get_all_components(component_type_filter.clone(), None);
+            if component_type_filter == Some(AnnotationComponentType::Ordering) {
+                // Gaps between the token are also included
+                components.extend(token_helper::necessary_components(g));
+            }
+            components
         })?;
 
         let mut max_alt_size = 0;
-- 
2.43.0


From 9ac10446a84cee8ec60950370c187744d1b3833b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:12 +0000
Subject: [PATCH 44/45] fix: serve files with encoded or unusual names and
 never from outside the directory of the corpus

---
 webservice/src/api/corpora.rs | 103 +++++++++++++++++++---------------
 1 file changed, 59 insertions(+), 44 deletions(-)

diff --git a/webservice/src/api/corpora.rs b/webservice/src/api/corpora.rs
index 2011742..49f294c 100644
--- a/webservice/src/api/corpora.rs
+++ b/webservice/src/api/corpora.rs
@@ -8,8 +8,13 @@ use graphannis::{
     CorpusStorage, corpusstorage::QueryLanguage, graph, model::AnnotationComponentType,
 };
 use percent_encoding::{AsciiSet, CONTROLS, utf8_percent_encode};
-use std::{borrow::Cow, path::PathBuf};
+use std::{
+    borrow::Cow,
+    path::{Component as PathComponent, Path, PathBuf},
+};
 
+/// The encoding set for the names of the corpus directories, which must be the
+/// same as the one used by the corpus storage.
 pub const PATH_SEGMENT_ENCODE_SET: &AsciiSet = &CONTROLS
     .add(b' ')
     .add(b'"')
@@ -21,7 +26,46 @@ pub const PATH_SEGMENT_ENCODE_SET: &AsciiSet = &CONTROLS
     .add(b'{')
     .add(b'}')
     .add(b'%')
-    .add(b'/');
+    .add(b'/')
+    .add(b':')
+    .add(b'|')
+    .add(b'*')
+    .add(b'\\');
+
+/// Get the directory with the linked files of a corpus.
+fn files_directory(settings: &Settings, corpus: &str) -> PathBuf {
+    let escaped_corpus_name: Cow<str> = match corpus {
+        // These would refer to the data directory itself or its parent
+        "." => "%2E".into(),
+        ".." => "%2E%2E".into(),
+        _ => utf8_percent_encode(corpus, PATH_SEGMENT_ENCODE_SET).into(),
+    };
+    PathBuf::from(settings.database.graphannis.as_str())
+        .join(escaped_corpus_name.as_ref())
+        .join("files")
+}
+
+/// Resolve a file name against the directory with the linked files.
+///
+/// Performs some sanity checks to make sure only sub-folders are used.
+fn resolve_file_name(base_path: &Path, name: &str) -> Result<PathBuf, ServiceError> {
+    for c in Path::new(name).components() {
+        match c {
+            PathComponent::Normal(_) | PathComponent::CurDir => {}
+            PathComponent::ParentDir => {
+                return Err(ServiceError::IllegalNodePath(
+                    "No .. allowed in file name".to_string(),
+                ));
+            }
+            PathComponent::RootDir | PathComponent::Prefix(_) => {
+                return Err(ServiceError::IllegalNodePath(
+                    "No absolute path allowed in file name".to_string(),
+                ));
+            }
+        }
+    }
+    Ok(base_path.join(name))
+}
 
 pub async fn list(
     cs: web::Data<CorpusStorage>,
@@ -252,31 +296,12 @@ pub async fn list_files(
     check_corpora_authorized_read(vec![corpus.clone()], claims.0, &settings, &db_pool).await?;
 
     let mut found_files = Vec::default();
-    let escaped_corpus_name: Cow<str> =
-        utf8_percent_encode(&corpus, PATH_SEGMENT_ENCODE_SET).into();
     // Get the base path
-    let base_path = PathBuf::from(settings.database.graphannis.as_str())
-        .join(escaped_corpus_name.to_string())
-        .join("files")
-        .canonicalize()?;
+    let base_path = files_directory(&settings, &corpus).canonicalize()?;
 
     // if the node name is set, restrict the search to the subfolder with the same ID, otherwise use the corpus ID
-    let search_path = if let Some(node) = &params.node {
-        // Perform some sanity checks to make sure only the relative sub-folder is used
-        let file_path = node.trim();
-        if file_path.contains("..") {
-            return Err(ServiceError::IllegalNodePath(
-                "No .. allowed in file name".to_string(),
-            ));
-        } else if file_path.starts_with('/') {
-            return Err(ServiceError::IllegalNodePath(
-                "No absolute path allowed in file name".to_string(),
-            ));
-        };
-        base_path.join(file_path)
-    } else {
-        base_path.join(corpus.as_ref())
-    };
+    let node_name = params.node.as_deref().unwrap_or(corpus.as_str());
+    let search_path = resolve_file_name(&base_path, node_name)?;
 
     // List all files in the search path
     if search_path.exists() && search_path.is_dir() {
@@ -302,29 +327,19 @@ pub async fn file_content(
     settings: web::Data<Settings>,
 ) -> Result<NamedFile, ServiceError> {
     let (corpus, name) = path.into_inner();
-    let name = percent_encoding::percent_decode_str(&name).decode_utf8_lossy();
-
     check_corpora_authorized_read(vec![corpus.clone()], claims.0, &settings, &db_pool).await?;
 
-    // Perform some sanity checks to make sure only the relative sub-folder is used
-    let file_path = name.trim();
-    if file_path.contains("..") {
-        return Err(ServiceError::IllegalNodePath(
-            "No .. allowed in file name".to_string(),
-        ));
-    } else if file_path.starts_with('/') {
-        return Err(ServiceError::IllegalNodePath(
-            "No absolute path allowed in file name".to_string(),
-        ));
-    }
-
     // Resolve against data folder
-    let escaped_corpus_name: Cow<str> =
-        utf8_percent_encode(&corpus, PATH_SEGMENT_ENCODE_SET).into();
-    let path = PathBuf::from(settings.database.graphannis.as_str())
-        .join(escaped_corpus_name.to_string())
-        .join("files")
-        .join(file_path);
+    let base_path = files_directory(&settings, &corpus);
+    let mut path = resolve_file_name(&base_path, &name)?;
+    if !path.is_file() {
+        // The name might have been encoded twice
+        let decoded_name = percent_encoding::percent_decode_str(&name).decode_utf8_lossy();
+        path = resolve_file_name(&base_path, decoded_name.trim())?;
+    }
+    if !path.is_file() {
+        return Err(ServiceError::NotFound);
+    }
 
     Ok(NamedFile::open(path)?)
 }
-- 
2.43.0


From 095e276b2867d2fcddac7e5a2d13f4e23fa7bdd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:12 +0000
Subject: [PATCH 45/45] fix: accept tokens without expiration date and wait for
 a locked database in the web service

---
 webservice/src/extractors.rs |  5 ++++-
 webservice/src/main.rs       | 18 +++++++++++++++++-
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/webservice/src/extractors.rs b/webservice/src/extractors.rs
index c73a73e..5dae59e 100644
--- a/webservice/src/extractors.rs
+++ b/webservice/src/extractors.rs
@@ -7,7 +7,10 @@ pub struct ClaimsFromAuth(pub Claims);
 fn verify_token(token: &str, settings: &Settings) -> Result<Claims, ServiceError> {
     let key = settings.auth.token_verification.create_decoding_key()?;
 
-    let validation = jsonwebtoken::Validation::new(settings.auth.token_verification.as_algorithm());
+    let mut validation =
+        jsonwebtoken::Validation::new(settings.auth.token_verification.as_algorithm());
+    // The expiration date is optional and only checked if the token has one
+    validation.required_spec_claims.remove("exp");
 
     match jsonwebtoken::decode::<Claims>(token, &key, &validation) {
         Ok(token) => Ok(token.claims),
diff --git a/webservice/src/main.rs b/webservice/src/main.rs
index e6e7cde..35bc52a 100644
--- a/webservice/src/main.rs
+++ b/webservice/src/main.rs
@@ -60,6 +60,20 @@ type DbPool = r2d2::Pool<ConnectionManager<SqliteConnection>>;
 
 pub const MIGRATIONS: EmbeddedMigrations = embed_migrations!("migrations");
 
+/// Configure all connections to wait for the lock if another connection writes
+/// to the database.
+#[derive(Debug)]
+struct WaitForLock;
+
+impl r2d2::CustomizeConnection<SqliteConnection, r2d2::Error> for WaitForLock {
+    fn on_acquire(&self, conn: &mut SqliteConnection) -> std::result::Result<(), r2d2::Error> {
+        diesel::sql_query("PRAGMA busy_timeout = 30000")
+            .execute(conn)
+            .map_err(r2d2::Error::QueryError)?;
+        Ok(())
+    }
+}
+
 fn init_app_state() -> anyhow::Result<(graphannis::CorpusStorage, settings::Settings, DbPool)> {
     // Parse CLI arguments
     let matches = clap::App::new("graphANNIS web service")
@@ -104,7 +118,9 @@ fn init_app_state() -> anyhow::Result<(graphannis::CorpusStorage, settings::Sett
 
     // Add a connection pool to the SQLite database
     let manager = ConnectionManager::<SqliteConnection>::new(&settings.database.sqlite);
-    let db_pool = r2d2::Pool::builder().build(manager)?;
+    let db_pool = r2d2::Pool::builder()
+        .connection_customizer(Box::new(WaitForLock))
+        .build(manager)?;
 
     // Make sure the database has all migrations applied
     let mut conn = db_pool.get()?;
-- 
2.43.0

