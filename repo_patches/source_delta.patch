From 9a75fd2e9e9d98d2142cacecb81b6a2b87b62c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:28 +0000
Subject: [PATCH 01/13] fix: to_quorum_slices returns no slices for thresholds
 that cannot be met

A threshold of 0 (which is_quorum_slice never accepts) counted as trivially satisfied when nested,
and a huge threshold made itertools pre-allocate as many slots, aborting the process.
---
 src/core_types/quorum_set.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core_types/quorum_set.rs b/src/core_types/quorum_set.rs
index ac834de..a561d34 100644
--- a/src/core_types/quorum_set.rs
+++ b/src/core_types/quorum_set.rs
@@ -61,6 +61,9 @@ impl QuorumSet {
                 .iter()
                 .map(|qset| qset.to_quorum_slices()),
         );
+        if self.threshold == 0 || self.threshold > subslice_groups.len() {
+            return vec![]; // badly configured or unsatisfiable quorum set
+        }
         subslice_groups
             .into_iter()
             .combinations(self.threshold)
-- 
2.43.0


From 569f5c1f0290e3d05429659dc7274625bfba7436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:40 +0000
Subject: [PATCH 02/13] fix: minimal quorums of a symmetric cluster that lists
 a node twice contain no duplicates

Checking each candidate for minimality does not remove equal candidates, so the same minimal quorum
was returned several times (and a debug assertion failed).
---
 src/analysis/quorums.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/analysis/quorums.rs b/src/analysis/quorums.rs
index 0c990bd..9921fee 100644
--- a/src/analysis/quorums.rs
+++ b/src/analysis/quorums.rs
@@ -33,7 +33,7 @@ fn minimal_quorums_finder(consensus_clusters: Vec<NodeIdSet>, fbas: &Fbas) -> Ve
 
         if let Some(symmetric_cluster) = find_symmetric_cluster_in_consensus_cluster(&nodes, fbas) {
             debug!("Cluster contains a symmetric quorum cluster! Extracting quorums...");
-            found_quorums.append(&mut symmetric_cluster.to_minimal_quorums(fbas));
+            found_quorums.append(&mut symmetric_cluster.to_minimal_quorums());
         } else {
             debug!("Sorting nodes by rank...");
             let sorted_nodes = sort_by_rank(nodes.into_iter().collect(), fbas);
@@ -96,10 +96,10 @@ fn minimal_quorums_finder_step(
 
 impl QuorumSet {
     /// Makes sense if the quorum set represents a symmetric quorum cluster...
-    fn to_minimal_quorums(&self, fbas: &Fbas) -> Vec<NodeIdSet> {
+    fn to_minimal_quorums(&self) -> Vec<NodeIdSet> {
         let quorums = self.to_quorum_slices();
         if self.contains_duplicates() {
-            remove_non_minimal_x(quorums, is_minimal_for_quorum, fbas)
+            remove_non_minimal_node_sets(quorums)
         } else {
             quorums
         }
-- 
2.43.0


From 82a90ebcbbc85867a528cb722ec1594d160577bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:01 +0000
Subject: [PATCH 03/13] fix: minimal blocking sets of a symmetric cluster are
 exact with unsatisfiable or repeated members

An inner quorum set that can never be satisfied (threshold 0 or above its number of members, e.g.
an organisation whose validators are all gone) was counted as something that has to be blocked, so
that blocking sets were missing and the rest not minimal. If a node was listed twice, minimality was
tested against the blocking set instead of the blocked set and equal sets were kept.
---
 src/analysis/blocking_sets.rs | 28 +++++++++++-----------------
 src/analysis/sets.rs          | 24 ------------------------
 2 files changed, 11 insertions(+), 41 deletions(-)

diff --git a/src/analysis/blocking_sets.rs b/src/analysis/blocking_sets.rs
index e935948..bf85432 100644
--- a/src/analysis/blocking_sets.rs
+++ b/src/analysis/blocking_sets.rs
@@ -20,7 +20,7 @@ fn minimal_blocking_sets_finder(consensus_clusters: Vec<NodeIdSet>, fbas: &Fbas)
 
         if let Some(symmetric_cluster) = find_symmetric_cluster_in_consensus_cluster(&nodes, fbas) {
             debug!("Cluster contains a symmetric quorum cluster! Extracting blocking sets...");
-            found_blocking_sets_per_cluster.push(symmetric_cluster.to_minimal_blocking_sets(fbas));
+            found_blocking_sets_per_cluster.push(symmetric_cluster.to_minimal_blocking_sets());
         } else {
             debug!("Sorting nodes by rank...");
             let sorted_nodes = sort_by_rank(nodes.into_iter().collect(), fbas);
@@ -115,10 +115,10 @@ fn minimal_blocking_sets_finder_step(
 
 impl QuorumSet {
     /// If `self` represents a symmetric quorum cluster, this function returns all minimal blocking sets of the induced FBAS.
-    fn to_minimal_blocking_sets(&self, fbas: &Fbas) -> Vec<NodeIdSet> {
+    fn to_minimal_blocking_sets(&self) -> Vec<NodeIdSet> {
         let blocking_sets = self.to_blocking_sets();
         if self.contains_duplicates() {
-            remove_non_minimal_x(blocking_sets, is_minimal_for_blocking_set, fbas)
+            remove_non_minimal_node_sets(blocking_sets)
         } else {
             blocking_sets
         }
@@ -135,11 +135,17 @@ impl QuorumSet {
         subslice_groups.extend(
             self.inner_quorum_sets
                 .iter()
-                .map(|qset| qset.to_blocking_sets()),
+                .map(|qset| qset.to_blocking_sets())
+                // inner quorum sets that can never be satisfied don't need to be blocked
+                .filter(|blocking_sets| !blocking_sets.contains(&bitset![])),
         );
+        if self.threshold == 0 || self.threshold > subslice_groups.len() {
+            return vec![bitset![]]; // can never be satisfied
+        }
+        let blocking_threshold = subslice_groups.len() - self.threshold + 1;
         subslice_groups
             .into_iter()
-            .combinations(self.blocking_threshold())
+            .combinations(blocking_threshold)
             .map(|group_combination| {
                 group_combination
                     .into_iter()
@@ -156,20 +162,8 @@ impl QuorumSet {
             })
             .concat()
     }
-    fn blocking_threshold(&self) -> usize {
-        if self.validators.len() + self.inner_quorum_sets.len() >= self.threshold {
-            self.validators.len() + self.inner_quorum_sets.len() - self.threshold + 1
-        } else {
-            0
-        }
-    }
 }
 
-fn is_minimal_for_blocking_set(blocking_set: &NodeIdSet, fbas: &Fbas) -> bool {
-    let mut blocked_set = fbas.all_nodes();
-    blocked_set.difference_with(&blocking_set);
-    is_minimal_for_blocking_set_with_precomputed_blocked_set(blocking_set, &blocking_set, fbas)
-}
 fn is_minimal_for_blocking_set_with_precomputed_blocked_set(
     blocking_set: &NodeIdSet,
     blocked_set: &NodeIdSet,
diff --git a/src/analysis/sets.rs b/src/analysis/sets.rs
index 60e40f1..8fcadda 100644
--- a/src/analysis/sets.rs
+++ b/src/analysis/sets.rs
@@ -98,30 +98,6 @@ pub fn remove_non_minimal_node_sets(mut node_sets: Vec<NodeIdSet>) -> Vec<NodeId
     remove_non_minimal_node_sets_from_buckets(buckets_by_len)
 }
 
-pub(crate) fn remove_non_minimal_x<F>(
-    node_sets: Vec<NodeIdSet>,
-    is_minimal: F,
-    fbas: &Fbas,
-) -> Vec<NodeIdSet>
-where
-    F: Fn(&NodeIdSet, &Fbas) -> bool,
-{
-    let mut minimal_x = vec![];
-
-    debug!("Filtering out non-minimal node sets...");
-    for (i, node_set) in node_sets.into_iter().enumerate() {
-        if i % 100_000 == 0 {
-            debug!("...at set {}; {} minimal sets", i, minimal_x.len());
-        }
-        if is_minimal(&node_set, fbas) {
-            minimal_x.push(node_set);
-        }
-    }
-    debug!("Filtering done.");
-    debug_assert!(is_set_of_minimal_node_sets(&minimal_x));
-    minimal_x
-}
-
 pub fn is_set_of_minimal_node_sets(node_sets: &[NodeIdSet]) -> bool {
     node_sets.iter().enumerate().all(|(i, x)| {
         node_sets
-- 
2.43.0


From 5ff23f5617427a62ddff168cd6a282d6a5f15bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:53 +0000
Subject: [PATCH 04/13] fix: minimal splitting sets of a symmetric cluster are
 exact for every nested quorum set

Inner quorum sets with a single slice dropped out (the 1-quorum check applies to the cluster as a
whole only), unsatisfiable inner quorum sets were counted as members, inner quorum sets with
disjoint slices were handled as if they had none, and nodes listed twice gave sets that are no
intersection of quorums. Doubling a threshold could also overflow.
---
 src/analysis/splitting_sets.rs | 52 +++++++++++++++++++---------------
 1 file changed, 29 insertions(+), 23 deletions(-)

diff --git a/src/analysis/splitting_sets.rs b/src/analysis/splitting_sets.rs
index 19460df..1c24cab 100644
--- a/src/analysis/splitting_sets.rs
+++ b/src/analysis/splitting_sets.rs
@@ -25,7 +25,10 @@ fn minimal_splitting_sets_finder(
     for (i, nodes) in consensus_clusters.into_iter().enumerate() {
         debug!("Finding minimal splitting sets in cluster {}...", i);
 
-        if let Some(symmetric_cluster) = find_symmetric_cluster_in_consensus_cluster(&nodes, fbas) {
+        // the shortcut via slice intersections needs quorum sets that contain no node twice
+        if let Some(symmetric_cluster) = find_symmetric_cluster_in_consensus_cluster(&nodes, fbas)
+            .filter(|cluster| !cluster.contains_duplicates())
+        {
             debug!("Cluster contains a symmetric quorum cluster! Extracting splitting sets...");
             found_splitting_sets.append(&mut symmetric_cluster.to_minimal_splitting_sets());
         } else {
@@ -153,17 +156,18 @@ impl QuorumSet {
         }
     }
     /// If `self` represents a symmetric quorum cluster, this function returns all minimal splitting sets of the induced FBAS.
+    /// `self` must not contain duplicates.
     fn to_minimal_splitting_sets(&self) -> Vec<NodeIdSet> {
-        let splitting_sets = self.to_splitting_sets();
-        if self.contains_duplicates() {
-            remove_non_minimal_node_sets(splitting_sets)
+        let splitting_sets = self.to_slice_intersections();
+        // check to see if we aren't really a 1-quorum quorum set
+        if splitting_sets.len() == 1 && self.is_quorum_slice(&splitting_sets[0]) {
+            vec![]
         } else {
             splitting_sets
         }
     }
-    /// If `self` represents a symmetric quorum cluster, this function returns all minimal splitting sets of the induced FBAS,
-    /// but perhaps also a few extra...
-    fn to_splitting_sets(&self) -> Vec<NodeIdSet> {
+    /// All minimal intersections of two (possibly equal) slices.
+    fn to_slice_intersections(&self) -> Vec<NodeIdSet> {
         let mut subslice_groups: Vec<Vec<NodeIdSet>> = vec![];
         subslice_groups.extend(
             self.validators
@@ -173,11 +177,22 @@ impl QuorumSet {
         subslice_groups.extend(
             self.inner_quorum_sets
                 .iter()
-                .map(|qset| qset.to_splitting_sets()),
+                .filter(|qset| qset.is_quorum_slice(&qset.contained_nodes())) // satisfiable
+                .map(|qset| qset.to_slice_intersections()),
         );
-        let potential_splitting_sets: Vec<NodeIdSet> = subslice_groups
+        let mut splitting_threshold =
+            (2 * self.threshold).saturating_sub(subslice_groups.len());
+        // two slices can both use such a member without having any node in common
+        let (free_groups, subslice_groups): (Vec<_>, Vec<_>) = subslice_groups
             .into_iter()
-            .combinations(self.splitting_threshold())
+            .partition(|intersections| intersections.contains(&bitset![]));
+        splitting_threshold = splitting_threshold.saturating_sub(free_groups.len());
+        if splitting_threshold == 0 {
+            return vec![bitset![]];
+        }
+        subslice_groups
+            .into_iter()
+            .combinations(splitting_threshold)
             .map(|group_combination| {
                 group_combination
                     .into_iter()
@@ -192,21 +207,12 @@ impl QuorumSet {
                     })
                     .collect()
             })
-            .concat();
-        // check to see if we aren't really a 1-quorum quorum set
-        if potential_splitting_sets.len() == 1 && self.is_quorum_slice(&potential_splitting_sets[0])
-        {
-            vec![]
-        } else {
-            potential_splitting_sets
-        }
+            .concat()
     }
     fn splitting_threshold(&self) -> usize {
-        if 2 * self.threshold > (self.validators.len() + self.inner_quorum_sets.len()) {
-            2 * self.threshold - (self.validators.len() + self.inner_quorum_sets.len())
-        } else {
-            0
-        }
+        self.threshold
+            .saturating_mul(2)
+            .saturating_sub(self.validators.len() + self.inner_quorum_sets.len())
     }
 }
 
-- 
2.43.0


From dd2ab9622d08c1f8a1dbf6124409ebba8d02ad0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:54 +0000
Subject: [PATCH 05/13] fix: alternative quorum intersection check copes with
 FBASs without quorums

It panicked on an internal assertion; like the regular check it now reports that there is no quorum
intersection.
---
 src/analysis/front_end.rs | 4 +++-
 src/analysis/quorums.rs   | 3 +++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/analysis/front_end.rs b/src/analysis/front_end.rs
index ee7e45e..f7a0974 100644
--- a/src/analysis/front_end.rs
+++ b/src/analysis/front_end.rs
@@ -68,7 +68,9 @@ impl Analysis {
                 Some(self.make_shrunken_set_vec_result(quorums.to_vec())),
             )
         } else {
-            (true, None)
+            // like for the regular check, there has to be at least one quorum
+            let contains_quorum = self.fbas_shrunken.borrow().number_of_nodes() > 0;
+            (contains_quorum, None)
         }
     }
     /// Minimal quorums - no proper subset of any of these node sets is a quorum.
diff --git a/src/analysis/quorums.rs b/src/analysis/quorums.rs
index 9921fee..0259b89 100644
--- a/src/analysis/quorums.rs
+++ b/src/analysis/quorums.rs
@@ -116,6 +116,9 @@ fn nonintersecting_quorums_finder(
             .into_iter()
             .map(|node_set| find_satisfiable_nodes(&node_set, fbas).0)
             .collect()
+    } else if consensus_clusters.is_empty() {
+        debug!("No consensus clusters - there are no quorums at all.");
+        vec![]
     } else {
         warn!("There is only one consensus cluster - there might be no non-intersecting quorums and the subsequent search might be slow.");
         let nodes = consensus_clusters.into_iter().next().unwrap_or_default();
-- 
2.43.0


From 722fc38e569a79de9a438f7a353563adcec158fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:55 +0000
Subject: [PATCH 06/13] fix: NodeIdSetVecResult::involved_nodes returns
 original node IDs

It returned the internal, shrunken IDs, which identify other nodes.
---
 src/analysis/results.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/analysis/results.rs b/src/analysis/results.rs
index b677109..3482807 100644
--- a/src/analysis/results.rs
+++ b/src/analysis/results.rs
@@ -83,7 +83,11 @@ impl NodeIdSetVecResult {
             .collect()
     }
     pub fn involved_nodes(&self) -> NodeIdSet {
-        involved_nodes(&self.node_sets)
+        let involved_nodes = involved_nodes(&self.node_sets);
+        match &self.unshrink_table {
+            Some(unshrink_table) => unshrink_set(&involved_nodes, unshrink_table),
+            None => involved_nodes,
+        }
     }
     pub fn len(&self) -> usize {
         self.node_sets.len()
-- 
2.43.0


From 07e7043bd53faffe8bd1d93793c75b5c349232c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:56 +0000
Subject: [PATCH 07/13] fix: ISP and country names may be empty or end with a
 multi-byte character

Removing a trailing full stop panicked for such names.
---
 src/io/groupings.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/io/groupings.rs b/src/io/groupings.rs
index 59bd877..97020c3 100644
--- a/src/io/groupings.rs
+++ b/src/io/groupings.rs
@@ -167,9 +167,9 @@ impl RawGroupings {
 
 fn remove_special_chars_from_grouping_name(mut name: String) -> String {
     name.retain(|c| c != ',');
-    let mut maybe_fullstop = name.split_off(name.len() - 1);
-    maybe_fullstop.retain(|c| c != '.');
-    name.push_str(&maybe_fullstop);
+    if name.ends_with('.') {
+        name.pop();
+    }
     name
 }
 
-- 
2.43.0


From 160ae347707f6a17a0ce68fb78d14f3a3bf56e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:28 +0000
Subject: [PATCH 08/13] fix: merge_quorum_set keeps inner quorum sets when
 collapsing groups

A quorum set whose validators all belong to one group was collapsed to that
group although it also had inner quorum sets, and an inner quorum set with
exactly one validator was replaced by it although it had inner sets of its
own.
---
 src/analysis/merge_by_group.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/analysis/merge_by_group.rs b/src/analysis/merge_by_group.rs
index 93aeb3f..ad308cc 100644
--- a/src/analysis/merge_by_group.rs
+++ b/src/analysis/merge_by_group.rs
@@ -36,14 +36,17 @@ impl<'fbas> Groupings<'fbas> {
                 .inner_quorum_sets
                 .into_iter()
                 .map(|q| self.merge_quorum_set(q))
-                .partition(|q| q.validators.len() == 1);
+                .partition(|q| q.validators.len() == 1 && q.inner_quorum_sets.is_empty());
 
         validators.extend(
             new_validator_candidates
                 .into_iter()
                 .map(|q| q.validators[0]),
         );
-        if !validators.is_empty() && validators.iter().all(|&v| v == validators[0]) {
+        if inner_quorum_sets.is_empty()
+            && !validators.is_empty()
+            && validators.iter().all(|&v| v == validators[0])
+        {
             validators = vec![validators[0]];
             threshold = 1;
         }
-- 
2.43.0


From ccf2f570c44400ed0acf1d2cdedfb178628596fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:21 +0000
Subject: [PATCH 09/13] fix: shrunken FBASs look nodes up by their own public
 keys

get_node_id on the result of Fbas::shrunken still answered for the generic
names of the placeholder nodes and not for the public keys of the nodes kept.
---
 src/core_types/shrinking.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/core_types/shrinking.rs b/src/core_types/shrinking.rs
index 3f9d28b..bab78a8 100644
--- a/src/core_types/shrinking.rs
+++ b/src/core_types/shrinking.rs
@@ -96,6 +96,11 @@ impl Fbas {
                 fbas_shrunken.nodes[new_id] = Node::shrunken(&self.nodes[old_id], &shrink_map);
             }
         }
+        fbas_shrunken.pk_to_id = self
+            .pk_to_id
+            .iter()
+            .filter_map(|(pk, old_id)| shrink_map.get(old_id).map(|&new_id| (pk.clone(), new_id)))
+            .collect();
         (fbas_shrunken, shrink_manager)
     }
 }
-- 
2.43.0


From a59818b20057fce85fa1a4fcd2dde85dd6f494b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:43 +0000
Subject: [PATCH 10/13] fix: tiered full meshes may contain empty tiers

---
 src/simulation/graph.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/simulation/graph.rs b/src/simulation/graph.rs
index 1620b63..49ba18c 100644
--- a/src/simulation/graph.rs
+++ b/src/simulation/graph.rs
@@ -26,9 +26,10 @@ impl Graph {
     pub fn new_tiered_full_mesh(tier_sizes: &[usize]) -> Self {
         let mut outlinks: Vec<Vec<NodeId>> = vec![vec![]; tier_sizes.iter().sum()];
         let mut higher_tier_node_ids = vec![];
+        let mut n = 0;
         for tier_size in tier_sizes.iter() {
-            let i0: usize = higher_tier_node_ids.last().map_or(0, |x| x + 1);
-            let n = i0.checked_add(*tier_size).unwrap();
+            let i0: usize = n;
+            n = i0.checked_add(*tier_size).unwrap();
             for i in i0..n {
                 outlinks[i].extend_from_slice(&higher_tier_node_ids);
                 outlinks[i].extend((i0..i).chain(i + 1..n));
-- 
2.43.0


From ac621ec7a9140dfdd990da3b666e7d570f9ec5da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:01 +0000
Subject: [PATCH 11/13] fix: RandomQsc configures new nodes completely and
 reports changes only when it makes some

---
 src/simulation/qsc/random.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/simulation/qsc/random.rs b/src/simulation/qsc/random.rs
index ac24100..a7d1a42 100644
--- a/src/simulation/qsc/random.rs
+++ b/src/simulation/qsc/random.rs
@@ -27,15 +27,15 @@ impl QuorumSetConfigurator for RandomQsc {
         let existing_quorum_set = &mut fbas.nodes[node_id].quorum_set;
 
         // we add nodes to their own quorum sets, for better comparability with other Qsc
-        if existing_quorum_set.validators.is_empty() {
+        let is_unconfigured = existing_quorum_set.validators.is_empty();
+        if is_unconfigured {
             existing_quorum_set.validators = vec![node_id];
         }
 
         let current_quorum_set_size = existing_quorum_set.validators.len();
+        let target_quorum_set_size = cmp::min(self.desired_quorum_set_size, n);
 
-        if current_quorum_set_size < self.desired_quorum_set_size {
-            let target_quorum_set_size = cmp::min(self.desired_quorum_set_size, n);
-
+        if is_unconfigured || current_quorum_set_size < target_quorum_set_size {
             let threshold = self
                 .desired_threshold
                 .unwrap_or_else(|| calculate_67p_threshold(target_quorum_set_size));
-- 
2.43.0


From 7a2865f3ddd396bcbd129f290ab9fc2b8d97d1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:01 +0000
Subject: [PATCH 12/13] fix: GlobalRankQsc reports no change when there are no
 top tier nodes

---
 src/simulation/qsc/graph_based/global_ranking_based.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/simulation/qsc/graph_based/global_ranking_based.rs b/src/simulation/qsc/graph_based/global_ranking_based.rs
index 196e1df..c80a092 100644
--- a/src/simulation/qsc/graph_based/global_ranking_based.rs
+++ b/src/simulation/qsc/graph_based/global_ranking_based.rs
@@ -45,7 +45,12 @@ impl QuorumSetConfigurator for GlobalRankQsc {
 
             existing_quorum_set.validators = validators;
             existing_quorum_set.threshold = threshold;
-            Change
+            // stays empty if no node has an above-average rank
+            if *existing_quorum_set == QuorumSet::new() {
+                NoChange
+            } else {
+                Change
+            }
         } else {
             NoChange
         }
-- 
2.43.0


From 4ee29f7a1571fd0a0f089c232008a3c2a8d2f109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:55 +0000
Subject: [PATCH 13/13] fix: RandomQsc chooses evenly when only nodes of weight
 zero are left

---
 src/simulation/qsc/random.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/simulation/qsc/random.rs b/src/simulation/qsc/random.rs
index a7d1a42..a76d70d 100644
--- a/src/simulation/qsc/random.rs
+++ b/src/simulation/qsc/random.rs
@@ -51,7 +51,8 @@ impl QuorumSetConfigurator for RandomQsc {
                     .choose_weighted(&mut rng, |&node_id| {
                         *self.weights.get(node_id).unwrap_or(&1)
                     })
-                    .unwrap();
+                    // only nodes of weight 0 are left
+                    .unwrap_or_else(|_| available_nodes.choose(&mut rng).unwrap());
                 let chosen_idx = available_nodes.binary_search(&chosen_node).unwrap();
                 available_nodes.remove(chosen_idx);
                 existing_quorum_set.validators.push(chosen_node);
-- 
2.43.0

