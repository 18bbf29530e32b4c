From 79cf131025cdc6b8aac433c429160c3c21a23d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:16 +0000
Subject: [PATCH 01/12] fix: don't derive results from malformed symmetric
 quorum sets directly

Quorum sets with duplicate nodes or unreachable (inner) thresholds break the assumptions
of the symmetric cluster shortcuts (wrong/duplicate results, panics); analyze such
clusters using the regular algorithms.
---
 src/analysis/symmetric_clusters.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/analysis/symmetric_clusters.rs b/src/analysis/symmetric_clusters.rs
index 7787173..f4e8453 100644
--- a/src/analysis/symmetric_clusters.rs
+++ b/src/analysis/symmetric_clusters.rs
@@ -45,12 +45,31 @@ pub(crate) fn find_symmetric_cluster_in_consensus_cluster(
     if !symmetric_clusters.is_empty() {
         assert!(symmetric_clusters.len() == 1, "More than one symmetric clusters found - perhaps input wasn't a consensus cluster, i.e., not a strongly-connected component?");
         assert!(symmetric_clusters[0].contained_nodes() == *cluster);
-        Some(symmetric_clusters.into_iter().next().unwrap())
+        symmetric_clusters
+            .into_iter()
+            .next()
+            .filter(QuorumSet::is_well_formed)
     } else {
         None
     }
 }
 
+impl QuorumSet {
+    /// Whether results can be read off the structure of this quorum set directly, i.e., no node
+    /// appears more than once and each (inner) quorum set is satisfiable.
+    fn is_well_formed(&self) -> bool {
+        !self.contains_duplicates() && self.has_only_reachable_thresholds()
+    }
+    fn has_only_reachable_thresholds(&self) -> bool {
+        let n = self.validators.len() + self.inner_quorum_sets.len();
+        (1..=n).contains(&self.threshold)
+            && self
+                .inner_quorum_sets
+                .iter()
+                .all(QuorumSet::has_only_reachable_thresholds)
+    }
+}
+
 pub(crate) fn find_symmetric_clusters_in_node_set(
     nodes: &NodeIdSet,
     fbas: &Fbas,
-- 
2.43.0


From 91bc2b22ae25e4f246a11059537b5cf192190091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:17 +0000
Subject: [PATCH 02/12] fix: splitting sets of symmetric clusters with 1-slice
 or already split inner quorum sets

Inner quorum sets that are n-of-n or satisfiable by disjoint node sets made
minimal splitting sets get lost.
---
 src/analysis/splitting_sets.rs | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/src/analysis/splitting_sets.rs b/src/analysis/splitting_sets.rs
index 19460df..6ebbd6e 100644
--- a/src/analysis/splitting_sets.rs
+++ b/src/analysis/splitting_sets.rs
@@ -154,9 +154,15 @@ impl QuorumSet {
     }
     /// If `self` represents a symmetric quorum cluster, this function returns all minimal splitting sets of the induced FBAS.
     fn to_minimal_splitting_sets(&self) -> Vec<NodeIdSet> {
-        let splitting_sets = self.to_splitting_sets();
-        if self.contains_duplicates() {
-            remove_non_minimal_node_sets(splitting_sets)
+        let mut splitting_sets = self.to_splitting_sets();
+        if self.contains_duplicates() || self.contains_split_inner_quorum_sets() {
+            splitting_sets = remove_non_minimal_node_sets(splitting_sets);
+        }
+        // check to see if we aren't really a 1-quorum quorum set (or split already)
+        if splitting_sets.len() == 1
+            && (splitting_sets[0].is_empty() || self.is_quorum_slice(&splitting_sets[0]))
+        {
+            vec![]
         } else {
             splitting_sets
         }
@@ -164,6 +170,9 @@ impl QuorumSet {
     /// If `self` represents a symmetric quorum cluster, this function returns all minimal splitting sets of the induced FBAS,
     /// but perhaps also a few extra...
     fn to_splitting_sets(&self) -> Vec<NodeIdSet> {
+        if self.splitting_threshold() == 0 {
+            return vec![bitset![]]; // already split, no nodes needed
+        }
         let mut subslice_groups: Vec<Vec<NodeIdSet>> = vec![];
         subslice_groups.extend(
             self.validators
@@ -175,7 +184,7 @@ impl QuorumSet {
                 .iter()
                 .map(|qset| qset.to_splitting_sets()),
         );
-        let potential_splitting_sets: Vec<NodeIdSet> = subslice_groups
+        subslice_groups
             .into_iter()
             .combinations(self.splitting_threshold())
             .map(|group_combination| {
@@ -192,14 +201,13 @@ impl QuorumSet {
                     })
                     .collect()
             })
-            .concat();
-        // check to see if we aren't really a 1-quorum quorum set
-        if potential_splitting_sets.len() == 1 && self.is_quorum_slice(&potential_splitting_sets[0])
-        {
-            vec![]
-        } else {
-            potential_splitting_sets
-        }
+            .concat()
+    }
+    /// Whether some inner quorum set can be satisfied by two disjoint sets of nodes.
+    fn contains_split_inner_quorum_sets(&self) -> bool {
+        self.inner_quorum_sets
+            .iter()
+            .any(|q| q.splitting_threshold() == 0 || q.contains_split_inner_quorum_sets())
     }
     fn splitting_threshold(&self) -> usize {
         if 2 * self.threshold > (self.validators.len() + self.inner_quorum_sets.len()) {
-- 
2.43.0


From 9bdbf6f3b76c3b42935b4f25710d1cf23784272d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:17 +0000
Subject: [PATCH 03/12] fix: overflow in splitting threshold calculation for
 huge thresholds

---
 src/analysis/splitting_sets.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/analysis/splitting_sets.rs b/src/analysis/splitting_sets.rs
index 6ebbd6e..d5b850d 100644
--- a/src/analysis/splitting_sets.rs
+++ b/src/analysis/splitting_sets.rs
@@ -210,11 +210,9 @@ impl QuorumSet {
             .any(|q| q.splitting_threshold() == 0 || q.contains_split_inner_quorum_sets())
     }
     fn splitting_threshold(&self) -> usize {
-        if 2 * self.threshold > (self.validators.len() + self.inner_quorum_sets.len()) {
-            2 * self.threshold - (self.validators.len() + self.inner_quorum_sets.len())
-        } else {
-            0
-        }
+        self.threshold
+            .saturating_mul(2)
+            .saturating_sub(self.validators.len() + self.inner_quorum_sets.len())
     }
 }
 
-- 
2.43.0


From eb9b70c7b80cf4aa76e4a78eec49c5bdaf3995d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:17 +0000
Subject: [PATCH 04/12] fix: alternative quorum intersection check panicked if
 there are no quorums

Now consistent with the regular check, which reports no quorum intersection.
---
 src/analysis/front_end.rs | 4 +++-
 src/analysis/quorums.rs   | 3 +++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/analysis/front_end.rs b/src/analysis/front_end.rs
index ee7e45e..13a2e1b 100644
--- a/src/analysis/front_end.rs
+++ b/src/analysis/front_end.rs
@@ -61,7 +61,9 @@ impl Analysis {
     pub fn has_quorum_intersection_via_alternative_check(
         &self,
     ) -> (bool, Option<NodeIdSetVecResult>) {
-        if let Some(quorums) = find_nonintersecting_quorums(&self.fbas_shrunken.borrow()) {
+        if self.fbas_shrunken.borrow().number_of_nodes() == 0 {
+            (false, None) // no quorums at all
+        } else if let Some(quorums) = find_nonintersecting_quorums(&self.fbas_shrunken.borrow()) {
             assert!(quorums[0].is_disjoint(&quorums[1]));
             (
                 false,
diff --git a/src/analysis/quorums.rs b/src/analysis/quorums.rs
index 0c990bd..f92e590 100644
--- a/src/analysis/quorums.rs
+++ b/src/analysis/quorums.rs
@@ -116,6 +116,9 @@ fn nonintersecting_quorums_finder(
             .into_iter()
             .map(|node_set| find_satisfiable_nodes(&node_set, fbas).0)
             .collect()
+    } else if consensus_clusters.is_empty() {
+        warn!("There are no consensus clusters, i.e., no quorums at all.");
+        vec![]
     } else {
         warn!("There is only one consensus cluster - there might be no non-intersecting quorums and the subsequent search might be slow.");
         let nodes = consensus_clusters.into_iter().next().unwrap_or_default();
-- 
2.43.0


From e964c51f74f828f5523a5f8544c56c2fb6996aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:31 +0000
Subject: [PATCH 05/12] fix: involved_nodes of node set vec results must be in
 terms of original node IDs

---
 src/analysis/results.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/analysis/results.rs b/src/analysis/results.rs
index b677109..93fd16b 100644
--- a/src/analysis/results.rs
+++ b/src/analysis/results.rs
@@ -83,7 +83,12 @@ impl NodeIdSetVecResult {
             .collect()
     }
     pub fn involved_nodes(&self) -> NodeIdSet {
-        involved_nodes(&self.node_sets)
+        let involved_nodes = involved_nodes(&self.node_sets);
+        if let Some(unshrink_table) = &self.unshrink_table {
+            unshrink_set(&involved_nodes, unshrink_table)
+        } else {
+            involved_nodes
+        }
     }
     pub fn len(&self) -> usize {
         self.node_sets.len()
-- 
2.43.0


From a3e739d6253e875d77e88afe15f08dcb543d3561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:31 +0000
Subject: [PATCH 06/12] fix: panic on ISP or country names that are empty or
 end with a multibyte character

---
 src/io/groupings.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/io/groupings.rs b/src/io/groupings.rs
index 59bd877..97020c3 100644
--- a/src/io/groupings.rs
+++ b/src/io/groupings.rs
@@ -167,9 +167,9 @@ impl RawGroupings {
 
 fn remove_special_chars_from_grouping_name(mut name: String) -> String {
     name.retain(|c| c != ',');
-    let mut maybe_fullstop = name.split_off(name.len() - 1);
-    maybe_fullstop.retain(|c| c != '.');
-    name.push_str(&maybe_fullstop);
+    if name.ends_with('.') {
+        name.pop();
+    }
     name
 }
 
-- 
2.43.0


From 43fdab0e2b443394378d8538e7754b8f36ea9c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:31 +0000
Subject: [PATCH 07/12] fix: merging a quorum set by group must not change its
 meaning

Inner quorum sets next to a single validator were dropped and thresholds rewritten
regardless of inner quorum sets and of whether they were reachable at all.
---
 src/analysis/merge_by_group.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/analysis/merge_by_group.rs b/src/analysis/merge_by_group.rs
index 93aeb3f..ea52b3f 100644
--- a/src/analysis/merge_by_group.rs
+++ b/src/analysis/merge_by_group.rs
@@ -36,14 +36,19 @@ impl<'fbas> Groupings<'fbas> {
                 .inner_quorum_sets
                 .into_iter()
                 .map(|q| self.merge_quorum_set(q))
-                .partition(|q| q.validators.len() == 1);
+                .partition(|q| {
+                    q.threshold == 1 && q.validators.len() == 1 && q.inner_quorum_sets.is_empty()
+                });
 
         validators.extend(
             new_validator_candidates
                 .into_iter()
                 .map(|q| q.validators[0]),
         );
-        if !validators.is_empty() && validators.iter().all(|&v| v == validators[0]) {
+        if inner_quorum_sets.is_empty()
+            && (1..=validators.len()).contains(&threshold)
+            && validators.iter().all(|&v| v == validators[0])
+        {
             validators = vec![validators[0]];
             threshold = 1;
         }
-- 
2.43.0


From 264340c5cee575ae93fa37a3d09ad52b55abc195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:31 +0000
Subject: [PATCH 08/12] fix: RandomQsc must only report changes that happened
 and set a threshold if size 1 is desired

---
 src/simulation/qsc/random.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/simulation/qsc/random.rs b/src/simulation/qsc/random.rs
index ac24100..ee1d677 100644
--- a/src/simulation/qsc/random.rs
+++ b/src/simulation/qsc/random.rs
@@ -25,6 +25,7 @@ impl QuorumSetConfigurator for RandomQsc {
     fn configure(&self, node_id: NodeId, fbas: &mut Fbas) -> ChangeEffect {
         let n = fbas.nodes.len();
         let existing_quorum_set = &mut fbas.nodes[node_id].quorum_set;
+        let original_quorum_set = existing_quorum_set.clone();
 
         // we add nodes to their own quorum sets, for better comparability with other Qsc
         if existing_quorum_set.validators.is_empty() {
@@ -33,7 +34,9 @@ impl QuorumSetConfigurator for RandomQsc {
 
         let current_quorum_set_size = existing_quorum_set.validators.len();
 
-        if current_quorum_set_size < self.desired_quorum_set_size {
+        if current_quorum_set_size < self.desired_quorum_set_size
+            || original_quorum_set == QuorumSet::new()
+        {
             let target_quorum_set_size = cmp::min(self.desired_quorum_set_size, n);
 
             let threshold = self
@@ -57,10 +60,11 @@ impl QuorumSetConfigurator for RandomQsc {
                 existing_quorum_set.validators.push(chosen_node);
             }
             existing_quorum_set.threshold = threshold;
-
-            Change
-        } else {
+        }
+        if *existing_quorum_set == original_quorum_set {
             NoChange
+        } else {
+            Change
         }
     }
 }
-- 
2.43.0


From 9db97f61be18ac53e7ac96729987fa149eee75c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:15 +0000
Subject: [PATCH 09/12] fix: don't allocate for unreachable thresholds when
 listing quorum slices

Thresholds close to usize::MAX (such as they can appear in JSON files) caused
a capacity overflow panic in to_quorum_slices and, if part of a symmetric
cluster, in the search for minimal quorums.
---
 src/core_types/quorum_set.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core_types/quorum_set.rs b/src/core_types/quorum_set.rs
index ac834de..fab90b7 100644
--- a/src/core_types/quorum_set.rs
+++ b/src/core_types/quorum_set.rs
@@ -50,6 +50,9 @@ impl QuorumSet {
     /// Each valid quorum slice for this quorum set is a superset (i.e., equal to or a proper superset of)
     /// of at least one of the sets returned by this function.
     pub fn to_quorum_slices(&self) -> Vec<NodeIdSet> {
+        if self.threshold > self.validators.len() + self.inner_quorum_sets.len() {
+            return vec![]; // unreachable threshold
+        }
         let mut subslice_groups: Vec<Vec<NodeIdSet>> = vec![];
         subslice_groups.extend(
             self.validators
-- 
2.43.0


From c9fe6780c7a7a86fadbf375887e3dcd34a835d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:11 +0000
Subject: [PATCH 10/12] fix: 67% threshold of zero nodes was 0 instead of 1, so
 that GlobalRankQsc reported changes that had not happened

---
 src/simulation/qsc/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/simulation/qsc/mod.rs b/src/simulation/qsc/mod.rs
index 8760a28..bffa8b8 100644
--- a/src/simulation/qsc/mod.rs
+++ b/src/simulation/qsc/mod.rs
@@ -33,8 +33,8 @@ fn calculate_threshold(n: usize, relative_threshold: Option<f64>) -> usize {
 
 /// t = ceil((2n+1)/3) => n >= 3f+1
 pub fn calculate_67p_threshold(n: usize) -> usize {
-    // reformed for more robustness against floating point errors
-    n - ((n as f64 - 1.) / 3.).floor() as usize
+    // integer arithmetic, for robustness against floating point errors and correctness for n = 0
+    (2 * n + 3) / 3
 }
 
 /// t = max(1, ceil(nx))
-- 
2.43.0


From 713fa0a7171b7695d392c45a46c362f2db0ce745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:50 +0000
Subject: [PATCH 11/12] fix: look up nodes of a shrunken FBAS by their own
 public keys

Fbas::shrunken kept the public keys of the nodes but the key index of the
generic FBAS it started from, so that get_node_id found nothing or the wrong
node.
---
 src/core_types/shrinking.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/core_types/shrinking.rs b/src/core_types/shrinking.rs
index 3f9d28b..0acf526 100644
--- a/src/core_types/shrinking.rs
+++ b/src/core_types/shrinking.rs
@@ -96,6 +96,12 @@ impl Fbas {
                 fbas_shrunken.nodes[new_id] = Node::shrunken(&self.nodes[old_id], &shrink_map);
             }
         }
+        fbas_shrunken.pk_to_id = fbas_shrunken
+            .nodes
+            .iter()
+            .enumerate()
+            .map(|(id, node)| (node.public_key.clone(), id))
+            .collect();
         (fbas_shrunken, shrink_manager)
     }
 }
-- 
2.43.0


From 0519a31386e87a260ac138520e7a34be5727b793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:14 +0000
Subject: [PATCH 12/12] fix: refuse truncated compressed AS relationship files

The decoder doesn't complain when the end of the stream is missing, so that
such files were read as smaller or empty graphs.
---
 src/io/graph.rs | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/io/graph.rs b/src/io/graph.rs
index 7bf6451..01d002a 100644
--- a/src/io/graph.rs
+++ b/src/io/graph.rs
@@ -1,9 +1,8 @@
 use super::*;
 use crate::simulation::Graph;
 
-use bzip2::read::BzDecoder;
 use bzip2::write;
-use bzip2::Compression;
+use bzip2::{Compression, Decompress, Status};
 use std::cmp::max;
 
 use std::fs;
@@ -97,11 +96,24 @@ fn get_edge_from_as_rel_line(line: &str) -> Option<(NodeId, NodeId, bool)> {
 }
 
 fn read_bz2_file_to_string(path: &Path) -> io::Result<String> {
-    let f = fs::File::open(path)?;
-    let mut decompressor = BzDecoder::new(f);
-    let mut contents = String::new();
-    decompressor.read_to_string(&mut contents)?;
-    Ok(contents)
+    let compressed = fs::read(path)?;
+    let mut decompressor = Decompress::new(false);
+    let mut contents = vec![];
+    loop {
+        let (bytes_in, bytes_out) = (decompressor.total_in(), decompressor.total_out());
+        contents.reserve(max(compressed.len(), 1 << 16));
+        let status = decompressor
+            .decompress_vec(&compressed[bytes_in as usize..], &mut contents)
+            .map_err(|e| io::Error::new(io::ErrorKind::InvalidData, e))?;
+        if status == Status::StreamEnd {
+            break;
+        }
+        // the decoder doesn't complain if the end of the stream is missing
+        if (decompressor.total_in(), decompressor.total_out()) == (bytes_in, bytes_out) {
+            return Err(io::ErrorKind::UnexpectedEof.into());
+        }
+    }
+    String::from_utf8(contents).map_err(|e| io::Error::new(io::ErrorKind::InvalidData, e))
 }
 fn read_file_to_string(path: &Path) -> io::Result<String> {
     let mut f = fs::File::open(path)?;
-- 
2.43.0

