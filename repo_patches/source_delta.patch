From 37ff896454b33c31d7fe667d52468f2a8c7d7c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:43 +0000
Subject: [PATCH 01/56] fix: compute the cutpoint range of a node correctly for
 all feature values

VarSplitRange started the maximum at the smallest positive double and skipped
the maximum update whenever the minimum changed, so negative features (and rows
in decreasing order) produced a range outside the data.
---
 include/stochtree/tree_sampler.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/stochtree/tree_sampler.h b/include/stochtree/tree_sampler.h
index e9ef65d..67ba8e5 100644
--- a/include/stochtree/tree_sampler.h
+++ b/include/stochtree/tree_sampler.h
@@ -22,7 +22,7 @@ namespace StochTree {
 
 static inline void VarSplitRange(ForestTracker& tracker, ForestDataset& dataset, int tree_num, int leaf_split, int feature_split, double& var_min, double& var_max) {
   var_min = std::numeric_limits<double>::max();
-  var_max = std::numeric_limits<double>::min();
+  var_max = std::numeric_limits<double>::lowest();
   double feature_value;
   
   std::vector<data_size_t>::iterator node_begin_iter = tracker.UnsortedNodeBeginIterator(tree_num, leaf_split);
@@ -33,7 +33,8 @@ static inline void VarSplitRange(ForestTracker& tracker, ForestDataset& dataset,
     feature_value = dataset.CovariateValue(idx, feature_split);
     if (feature_value < var_min) {
       var_min = feature_value;
-    } else if (feature_value > var_max) {
+    }
+    if (feature_value > var_max) {
       var_max = feature_value;
     }
   }
-- 
2.43.0


From f706574f771416569656960965796c61db2f4850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:43 +0000
Subject: [PATCH 02/56] fix: enforce the minimum leaf size in MCMC grow
 proposals

A grow proposal was accepted even when one of the new leaves held fewer training
observations than min_samples_in_leaf (or none at all).
---
 include/stochtree/tree_sampler.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/stochtree/tree_sampler.h b/include/stochtree/tree_sampler.h
index 67ba8e5..2b4424b 100644
--- a/include/stochtree/tree_sampler.h
+++ b/include/stochtree/tree_sampler.h
@@ -353,6 +353,11 @@ class MCMCForestSampler {
     int32_t left_n = std::get<2>(split_eval);
     int32_t right_n = std::get<3>(split_eval);
     
+    // Reject any split that would create a leaf with too few observations
+    if (left_n < tree_prior.GetMinSamplesLeaf() || right_n < tree_prior.GetMinSamplesLeaf()) {
+      return;
+    }
+    
     // Determine probability of growing the split node and its two new left and right nodes
     double pg = tree_prior.GetAlpha() * std::pow(1+leaf_depth, -tree_prior.GetBeta());
     double pgl = tree_prior.GetAlpha() * std::pow(1+leaf_depth+1, -tree_prior.GetBeta());
-- 
2.43.0


From a25c6f5e73dc6ebd83f0f251e580c88a116b3a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:57 +0000
Subject: [PATCH 03/56] fix: make MCMC grow/prune proposal probabilities in the
 MH ratio match the proposals made

---
 include/stochtree/tree_sampler.h | 115 ++++++-------------------------
 1 file changed, 22 insertions(+), 93 deletions(-)

diff --git a/include/stochtree/tree_sampler.h b/include/stochtree/tree_sampler.h
index 2b4424b..a044135 100644
--- a/include/stochtree/tree_sampler.h
+++ b/include/stochtree/tree_sampler.h
@@ -40,76 +40,9 @@ static inline void VarSplitRange(ForestTracker& tracker, ForestDataset& dataset,
   }
 }
 
-static inline bool NodesNonConstantAfterSplit(ForestDataset& dataset, ForestTracker& tracker, TreeSplit& split, int tree_num, int leaf_split, int feature_split) {
-  int p = dataset.GetCovariates().cols();
-  data_size_t idx;
-  double feature_value;
-  double split_feature_value;
-  double var_max_left;
-  double var_min_left;
-  double var_max_right;
-  double var_min_right;
-  
-  for (int j = 0; j < p; j++) {
-    auto node_begin_iter = tracker.UnsortedNodeBeginIterator(tree_num, leaf_split);
-    auto node_end_iter = tracker.UnsortedNodeEndIterator(tree_num, leaf_split);
-    var_max_left = std::numeric_limits<double>::min();
-    var_min_left = std::numeric_limits<double>::max();
-    var_max_right = std::numeric_limits<double>::min();
-    var_min_right = std::numeric_limits<double>::max();
-
-    for (auto i = node_begin_iter; i != node_end_iter; i++) {
-      auto idx = *i;
-      split_feature_value = dataset.CovariateValue(idx, feature_split);
-      feature_value = dataset.CovariateValue(idx, j);
-      if (split.SplitTrue(split_feature_value)) {
-        if (var_max_left < feature_value) {
-          var_max_left = feature_value;
-        } else if (var_min_left > feature_value) {
-          var_min_left = feature_value;
-        }
-      } else {
-        if (var_max_right < feature_value) {
-          var_max_right = feature_value;
-        } else if (var_min_right > feature_value) {
-          var_min_right = feature_value;
-        }
-      }
-    }
-    if ((var_max_left > var_min_left) && (var_max_right > var_min_right)) {
-      return true;
-    }
-  }
-  return false;
-}
-
-static inline bool NodeNonConstant(ForestDataset& dataset, ForestTracker& tracker, int tree_num, int node_id) {
-  int p = dataset.GetCovariates().cols();
-  data_size_t idx;
-  double feature_value;
-  double var_max;
-  double var_min;
-  
-  for (int j = 0; j < p; j++) {
-    auto node_begin_iter = tracker.UnsortedNodeBeginIterator(tree_num, node_id);
-    auto node_end_iter = tracker.UnsortedNodeEndIterator(tree_num, node_id);
-    var_max = std::numeric_limits<double>::min();
-    var_min = std::numeric_limits<double>::max();
-
-    for (auto i = node_begin_iter; i != node_end_iter; i++) {
-      auto idx = *i;
-      feature_value = dataset.CovariateValue(idx, j);
-      if (var_max < feature_value) {
-        var_max = feature_value;
-      } else if (var_min > feature_value) {
-        var_min = feature_value;
-      }
-    }
-    if (var_max > var_min) {
-      return true;
-    }
-  }
-  return false;
+/*! \brief Whether a leaf holds enough observations to be split into two valid leaves */
+static inline bool LeafSplitPossible(data_size_t leaf_size, TreePrior& tree_prior) {
+  return leaf_size >= 2 * tree_prior.GetMinSamplesLeaf();
 }
 
 static inline void AddSplitToModel(ForestTracker& tracker, ForestDataset& dataset, TreePrior& tree_prior, TreeSplit& split, std::mt19937& gen, Tree* tree, int tree_num, int leaf_node, int feature_split, bool keep_sorted = false) {
@@ -268,7 +201,7 @@ class MCMCForestSampler {
     bool grow_possible = false;
     std::vector<int> leaves = tree->GetLeaves();
     for (auto& leaf: leaves) {
-      if (tracker.UnsortedNodeSize(tree_num, leaf) > 2 * tree_prior.GetMinSamplesLeaf()) {
+      if (LeafSplitPossible(tracker.UnsortedNodeSize(tree_num, leaf), tree_prior)) {
         grow_possible = true;
         break;
       }
@@ -304,7 +237,7 @@ class MCMCForestSampler {
     if (step_chosen == 0) {
       GrowTreeOneIter(tree, tracker, leaf_model, dataset, residual, tree_prior, gen, tree_num, variable_weights, global_variance, prob_grow);
     } else {
-      PruneTreeOneIter(tree, tracker, leaf_model, dataset, residual, tree_prior, gen, tree_num, global_variance);
+      PruneTreeOneIter(tree, tracker, leaf_model, dataset, residual, tree_prior, gen, tree_num, global_variance, 1 - prob_grow);
     }
   }
 
@@ -366,20 +299,27 @@ class MCMCForestSampler {
     // Determine whether a "grow" move is possible from the newly formed tree
     // in order to compute the probability of choosing "prune" from the new tree
     // (which is always possible by construction)
-    bool non_constant = NodesNonConstantAfterSplit(dataset, tracker, split, tree_num, leaf_chosen, var_chosen);
-    bool min_samples_left_check = left_n >= 2*tree_prior.GetMinSamplesLeaf();
-    bool min_samples_right_check = right_n >= 2*tree_prior.GetMinSamplesLeaf();
+    bool grow_possible_new = LeafSplitPossible(left_n, tree_prior) || LeafSplitPossible(right_n, tree_prior);
+    for (auto& leaf: leaves) {
+      if (leaf != leaf_chosen && LeafSplitPossible(tracker.UnsortedNodeSize(tree_num, leaf), tree_prior)) {
+        grow_possible_new = true;
+      }
+    }
     double prob_prune_new;
-    if (non_constant && (min_samples_left_check || min_samples_right_check)) {
+    if (grow_possible_new) {
       prob_prune_new = 0.5;
     } else {
       prob_prune_new = 1.0;
     }
 
     // Determine the number of leaves in the current tree and leaf parents in the proposed tree
-    int num_leaf_parents = tree->NumLeafParents();
+    // (if the parent of the chosen leaf is a "leaf parent" in the current tree, it will not be one in the proposed tree)
+    int num_leaf_parents_new = tree->NumLeafParents() + 1;
+    if (!tree->IsRoot(leaf_chosen) && tree->IsLeafParent(tree->Parent(leaf_chosen))) {
+      num_leaf_parents_new -= 1;
+    }
     double p_leaf = 1/static_cast<double>(num_leaves);
-    double p_leaf_parent = 1/static_cast<double>(num_leaf_parents+1);
+    double p_leaf_parent = 1/static_cast<double>(num_leaf_parents_new);
 
     // Compute the final MH ratio
     double log_mh_ratio = (
@@ -404,7 +344,7 @@ class MCMCForestSampler {
   }
 
   void PruneTreeOneIter(Tree* tree, ForestTracker& tracker, LeafModel& leaf_model, ForestDataset& dataset, ColumnVector& residual, 
-                        TreePrior& tree_prior, std::mt19937& gen, int tree_num, double global_variance) {
+                        TreePrior& tree_prior, std::mt19937& gen, int tree_num, double global_variance, double prob_prune_old) {
     // Choose a "leaf parent" node at random
     int num_leaves = tree->NumLeaves();
     int num_leaf_parents = tree->NumLeafParents();
@@ -433,7 +373,7 @@ class MCMCForestSampler {
     // Determine whether a "prune" move is possible from the new tree,
     // in order to compute the probability of choosing "grow" from the new tree
     // (which is always possible by construction)
-    bool non_root_tree = tree->NumNodes() > 1;
+    bool non_root_tree = num_leaves - 1 > 1;
     double prob_grow_new;
     if (non_root_tree) {
       prob_grow_new = 0.5;
@@ -441,25 +381,14 @@ class MCMCForestSampler {
       prob_grow_new = 1.0;
     }
 
-    // Determine whether a "grow" move was possible from the old tree,
-    // in order to compute the probability of choosing "prune" from the old tree
-    bool non_constant_left = NodeNonConstant(dataset, tracker, tree_num, left_node);
-    bool non_constant_right = NodeNonConstant(dataset, tracker, tree_num, right_node);
-    double prob_prune_old;
-    if (non_constant_left && non_constant_right) {
-      prob_prune_old = 0.5;
-    } else {
-      prob_prune_old = 1.0;
-    }
-
     // Determine the number of leaves in the current tree and leaf parents in the proposed tree
     double p_leaf = 1/static_cast<double>(num_leaves-1);
     double p_leaf_parent = 1/static_cast<double>(num_leaf_parents);
 
     // Compute the final MH ratio
     double log_mh_ratio = (
-      std::log(1-pg) - std::log(pg) - std::log(1-pgl) - std::log(1-pgr) + std::log(prob_prune_old) +
-      std::log(p_leaf) - std::log(prob_grow_new) - std::log(p_leaf_parent) + no_split_log_marginal_likelihood - split_log_marginal_likelihood
+      std::log(1-pg) - std::log(pg) - std::log(1-pgl) - std::log(1-pgr) + std::log(prob_grow_new) +
+      std::log(p_leaf) - std::log(prob_prune_old) - std::log(p_leaf_parent) + no_split_log_marginal_likelihood - split_log_marginal_likelihood
     );
     // Threshold at 0
     if (log_mh_ratio > 0) {
-- 
2.43.0


From 1c27366cf2596b6b150564ae648d296de70f215a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:12 +0000
Subject: [PATCH 04/56] fix: compute each row's forest prediction separately
 when updating the residual for an entire forest

---
 include/stochtree/tree_sampler.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/stochtree/tree_sampler.h b/include/stochtree/tree_sampler.h
index a044135..16f5866 100644
--- a/include/stochtree/tree_sampler.h
+++ b/include/stochtree/tree_sampler.h
@@ -86,18 +86,19 @@ static inline double ComputeMeanOutcome(ColumnVector& residual) {
 
 static inline void UpdateResidualEntireForest(ForestTracker& tracker, ForestDataset& dataset, ColumnVector& residual, TreeEnsemble* forest, bool requires_basis, std::function<double(double, double)> op) {
   data_size_t n = dataset.GetCovariates().rows();
-  double tree_pred = 0.;
-  double pred_value = 0.;
-  double new_resid = 0.;
+  double tree_pred;
+  double pred_value;
+  double new_resid;
   int32_t leaf_pred;
   for (data_size_t i = 0; i < n; i++) {
+    pred_value = 0.;
     for (int j = 0; j < forest->NumTrees(); j++) {
       Tree* tree = forest->GetTree(j);
       leaf_pred = tracker.GetNodeId(i, j);
       if (requires_basis) {
-        tree_pred += tree->PredictFromNode(leaf_pred, dataset.GetBasis(), i);
+        tree_pred = tree->PredictFromNode(leaf_pred, dataset.GetBasis(), i);
       } else {
-        tree_pred += tree->PredictFromNode(leaf_pred);
+        tree_pred = tree->PredictFromNode(leaf_pred);
       }
       tracker.SetTreeSamplePrediction(i, j, tree_pred);
       pred_value += tree_pred;
-- 
2.43.0


From 8c487b5a53444b3bac1f6fca80c0cce937b87054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:12 +0000
Subject: [PATCH 05/56] fix: subtract (rather than add) the initial forest
 prediction from the residual in the Python samplers

---
 stochtree/bart.py | 2 +-
 stochtree/bcf.py  | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/stochtree/bart.py b/stochtree/bart.py
index 963c47e..82f14df 100644
--- a/stochtree/bart.py
+++ b/stochtree/bart.py
@@ -239,7 +239,7 @@ class BARTModel:
         # Initialize the leaves of each tree in the prognostic forest
         init_root = np.squeeze(np.mean(resid_train)) / num_trees
         self.forest_container.set_root_leaves(0, init_root)
-        forest_sampler.update_residual(forest_dataset_train, residual_train, self.forest_container, False, 0, True)
+        forest_sampler.update_residual(forest_dataset_train, residual_train, self.forest_container, False, 0, False)
 
         # Run GFR (warm start) if specified
         if self.num_gfr > 0:
diff --git a/stochtree/bcf.py b/stochtree/bcf.py
index bfc334d..f556f92 100644
--- a/stochtree/bcf.py
+++ b/stochtree/bcf.py
@@ -632,14 +632,14 @@ class BCFModel:
         # Initialize the leaves of each tree in the prognostic forest
         init_mu = np.squeeze(np.mean(resid_train)) / num_trees_mu
         self.forest_container_mu.set_root_leaves(0, init_mu)
-        forest_sampler_mu.update_residual(forest_dataset_train, residual_train, self.forest_container_mu, False, 0, True)
+        forest_sampler_mu.update_residual(forest_dataset_train, residual_train, self.forest_container_mu, False, 0, False)
 
         # Initialize the leaves of each tree in the treatment forest
         if self.multivariate_treatment:
             self.forest_container_tau.set_root_leaves(0, np.zeros(self.treatment_dim))
         else:
             self.forest_container_tau.set_root_leaves(0, 0.)
-        forest_sampler_tau.update_residual(forest_dataset_train, residual_train, self.forest_container_tau, True, 0, True)
+        forest_sampler_tau.update_residual(forest_dataset_train, residual_train, self.forest_container_tau, True, 0, False)
 
         # Run GFR (warm start) if specified
         if self.num_gfr > 0:
-- 
2.43.0


From 8e9419e5729b5a7bff2406d512bd635352052dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:26 +0000
Subject: [PATCH 06/56] fix: accumulate sufficient statistics over the current
 bin for reordered (unordered categorical) cutpoints

---
 src/leaf_model.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/leaf_model.cpp b/src/leaf_model.cpp
index c3d54cd..787e8d7 100644
--- a/src/leaf_model.cpp
+++ b/src/leaf_model.cpp
@@ -81,12 +81,11 @@ void AccumulateCutpointBinSuffStat(SuffStatType& left_suff_stat, ForestTracker&
   // Determine cutpoint bin start and end points
   data_size_t current_bin_begin = cutpoint_grid_container.BinStartIndex(cutpoint_num, feature_num);
   data_size_t current_bin_size = cutpoint_grid_container.BinLength(cutpoint_num, feature_num);
-  data_size_t next_bin_begin = cutpoint_grid_container.BinStartIndex(cutpoint_num + 1, feature_num);
 
   // Cutpoint specific iterators
   // TODO: fix the hack of having to subtract off node_begin, probably by cleaning up the CutpointGridContainer interface
   auto cutpoint_begin_iter = node_begin_iter + current_bin_begin - node_begin;
-  auto cutpoint_end_iter = node_begin_iter + next_bin_begin - node_begin;
+  auto cutpoint_end_iter = cutpoint_begin_iter + current_bin_size;
 
   // Accumulate sufficient statistics
   for (auto i = cutpoint_begin_iter; i != cutpoint_end_iter; i++) {
-- 
2.43.0


From 6bf5af95945a3d4d2ee1b62303965cb8848bab8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:48 +0000
Subject: [PATCH 07/56] fix: keep the list and count of deleted tree nodes
 consistent when a tree is reset, re-initialized or reloaded

---
 src/tree.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tree.cpp b/src/tree.cpp
index 68ac632..420b99b 100644
--- a/src/tree.cpp
+++ b/src/tree.cpp
@@ -310,6 +310,7 @@ void Tree::Reset() {
   leaves_.clear();
   leaf_parents_.clear();
   internal_nodes_.clear();
+  deleted_nodes_.clear();
 
   // Set bool / integer variables to default values
   num_nodes = 0;
@@ -331,6 +332,7 @@ void Tree::Init(std::int32_t output_dimension) {
   parent_.clear();
 
   num_nodes = 0;
+  num_deleted_nodes = 0;
   has_categorical_split_ = false;
 
   leaf_vector_.clear();
@@ -343,6 +345,7 @@ void Tree::Init(std::int32_t output_dimension) {
   leaves_.clear();
   leaf_parents_.clear();
   internal_nodes_.clear();
+  deleted_nodes_.clear();
 
   // Set output dimension
   output_dimension_ = output_dimension;
@@ -645,7 +648,6 @@ void Tree::from_json(const json& tree_json) {
   tree_json.at("num_deleted_nodes").get_to(this->num_deleted_nodes);
   tree_json.at("has_categorical_split").get_to(this->has_categorical_split_);
   tree_json.at("output_dimension").get_to(this->output_dimension_);
-  this->num_deleted_nodes = 0;
   
   // Unpack the array based fields
   JsonToTreeNodeVectors(tree_json, this);
-- 
2.43.0


From 89c4ae05d07db735a34274f7e31c9b74afefaeaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:02 +0000
Subject: [PATCH 08/56] fix: leave a forest container unchanged if adding or
 initializing samples fails

---
 src/container.cpp | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/container.cpp b/src/container.cpp
index 747e699..5c422dd 100644
--- a/src/container.cpp
+++ b/src/container.cpp
@@ -34,32 +34,37 @@ void ForestContainer::InitializeRoot(double leaf_value) {
   CHECK(initialized_);
   CHECK_EQ(num_samples_, 0);
   CHECK_EQ(forests_.size(), 0);
-  forests_.resize(1);
-  forests_[0].reset(new TreeEnsemble(num_trees_, output_dimension_, is_leaf_constant_));
+  std::unique_ptr<TreeEnsemble> root_forest = std::make_unique<TreeEnsemble>(num_trees_, output_dimension_, is_leaf_constant_);
+  root_forest->SetLeafValue(leaf_value);
   // NOTE: not setting num_samples = 1, since we are just initializing constant root 
   // nodes and the forest still needs to be sampled by either MCMC or GFR
+  forests_.push_back(std::move(root_forest));
   num_samples_ = 0;
-  SetLeafValue(0, leaf_value);
 }
 
 void ForestContainer::InitializeRoot(std::vector<double>& leaf_vector) {
   CHECK(initialized_);
   CHECK_EQ(num_samples_, 0);
   CHECK_EQ(forests_.size(), 0);
-  forests_.resize(1);
-  forests_[0].reset(new TreeEnsemble(num_trees_, output_dimension_, is_leaf_constant_));
+  std::unique_ptr<TreeEnsemble> root_forest = std::make_unique<TreeEnsemble>(num_trees_, output_dimension_, is_leaf_constant_);
+  root_forest->SetLeafVector(leaf_vector);
   // NOTE: not setting num_samples = 1, since we are just initializing constant root 
   // nodes and the forest still needs to be sampled by either MCMC or GFR
+  forests_.push_back(std::move(root_forest));
   num_samples_ = 0;
-  SetLeafVector(0, leaf_vector);
 }
 
 void ForestContainer::AddSamples(int num_samples) {
   CHECK(initialized_);
   int total_new_samples = num_samples + num_samples_;
+  // Build the new forests before modifying the container, so that a failed allocation leaves it unchanged
+  std::vector<std::unique_ptr<TreeEnsemble>> new_forests(num_samples);
+  for (auto& forest : new_forests) {
+    forest = std::make_unique<TreeEnsemble>(num_trees_, output_dimension_, is_leaf_constant_);
+  }
   forests_.resize(total_new_samples);
-  for (int i = num_samples_; i < total_new_samples; i++) {
-    forests_[i].reset(new TreeEnsemble(num_trees_, output_dimension_, is_leaf_constant_));
+  for (int i = 0; i < num_samples; i++) {
+    forests_[num_samples_ + i] = std::move(new_forests[i]);
   }
   num_samples_ = total_new_samples;
 }
-- 
2.43.0


From 51ff5965a14dba16b7f5a1b82e58601c8e103d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:02 +0000
Subject: [PATCH 09/56] fix: reload the initialized roots of a forest container
 that was saved before its first sample

---
 src/container.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/container.cpp b/src/container.cpp
index 5c422dd..9762d2d 100644
--- a/src/container.cpp
+++ b/src/container.cpp
@@ -132,9 +132,13 @@ void ForestContainer::from_json(const json& forest_container_json) {
   this->initialized_ = forest_container_json.at("initialized");
 
   std::string forest_label;
+  // A container whose roots were initialized, but which has not been sampled yet, 
+  // holds a single forest even though it has no samples
+  int num_forests = this->num_samples_;
+  if ((num_forests == 0) && (forest_container_json.contains("forest_0"))) num_forests = 1;
   forests_.clear();
-  forests_.resize(this->num_samples_);
-  for (int i = 0; i < this->num_samples_; i++) {
+  forests_.resize(num_forests);
+  for (int i = 0; i < num_forests; i++) {
     forest_label = "forest_" + std::to_string(i);
     forests_[i] = std::make_unique<TreeEnsemble>(this->num_trees_, this->output_dimension_, this->is_leaf_constant_);
     forests_[i]->from_json(forest_container_json.at(forest_label));
-- 
2.43.0


From 0a897dda30203dd8f4dcbf4f1b1197e294c44757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:02 +0000
Subject: [PATCH 10/56] fix: record the size of the last category when it has a
 single member, and the category set for an observation

---
 include/stochtree/category_tracker.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/stochtree/category_tracker.h b/include/stochtree/category_tracker.h
index 04ee0b0..edd11be 100644
--- a/include/stochtree/category_tracker.h
+++ b/include/stochtree/category_tracker.h
@@ -64,7 +64,7 @@ class SampleCategoryMapper {
 
   inline void SetCategoryId(data_size_t sample_id, int category_id) {
     CHECK_LT(sample_id, num_observations_);
-    observation_indices_[sample_id] = sample_id;
+    observation_indices_[sample_id] = category_id;
   }
   
   inline int NumObservations() {return num_observations_;}
@@ -91,7 +91,6 @@ class CategorySampleTracker {
     int observation_count = 0;
     for (int i = 0; i < n; i++) {
       bool start_cond = i == 0;
-      bool end_cond = i == n-1;
       bool new_group_cond{false};
       if (i > 0) new_group_cond = group_indices[indices_[i]] != group_indices[indices_[i-1]];
       if (start_cond || new_group_cond) {
@@ -106,14 +105,14 @@ class CategorySampleTracker {
         }
         observation_count = 1;
         category_count_++;
-      } else if (end_cond) {
-        category_length_.push_back(observation_count+1);
       } else {
         observation_count++;
       }
       // Add the index to the category's node index vector in either case
       node_index_vector_[category_count_ - 1].emplace_back(indices_[i]);
     }
+    // Store the length of the last category
+    if (n > 0) category_length_.push_back(observation_count);
   }
 
   /*! \brief Zero-indexed numeric index that category_id is remapped to internally */
-- 
2.43.0


From c20cfb84b175baa61c0c62f4a719d4a6f5b3dce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:02 +0000
Subject: [PATCH 11/56] fix: report a random effects group label that was not
 in the training data, and replace the labels of a reloaded mapper

---
 include/stochtree/category_tracker.h | 14 +++++++++-----
 include/stochtree/random_effects.h   |  6 +++++-
 src/random_effects.cpp               |  1 +
 3 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/include/stochtree/category_tracker.h b/include/stochtree/category_tracker.h
index edd11be..f65e889 100644
--- a/include/stochtree/category_tracker.h
+++ b/include/stochtree/category_tracker.h
@@ -117,21 +117,25 @@ class CategorySampleTracker {
 
   /*! \brief Zero-indexed numeric index that category_id is remapped to internally */
   inline int32_t CategoryNumber(int category_id) {
-    return category_id_map_[category_id];
+    auto pos = category_id_map_.find(category_id);
+    if (pos == category_id_map_.end()) {
+      Log::Fatal("Category %d was not found in the training dataset", category_id);
+    }
+    return pos->second;
   }
 
   /*! \brief First index of data points contained in node_id */
-  inline data_size_t CategoryBegin(int category_id) {return category_begin_[category_id_map_[category_id]];}
+  inline data_size_t CategoryBegin(int category_id) {return category_begin_[CategoryNumber(category_id)];}
 
   /*! \brief One past the last index of data points contained in node_id */
   inline data_size_t CategoryEnd(int category_id) {
-    int32_t id = category_id_map_[category_id];
+    int32_t id = CategoryNumber(category_id);
     return category_begin_[id] + category_length_[id];
   }
 
   /*! \brief Number of data points contained in node_id */
   inline data_size_t CategorySize(int category_id) {
-    return category_length_[category_id_map_[category_id]];
+    return category_length_[CategoryNumber(category_id)];
   }
 
   /*! \brief Number of total categories stored */
@@ -142,7 +146,7 @@ class CategorySampleTracker {
 
   /*! \brief Data indices for a given node */
   std::vector<data_size_t>& NodeIndices(int category_id) {
-    int32_t id = category_id_map_[category_id];
+    int32_t id = CategoryNumber(category_id);
     // std::vector<data_size_t>::iterator start = indices_.begin() + category_begin_[id];
     // std::vector<data_size_t>::iterator end = indices_.begin() + category_begin_[id] + category_length_[id];
     // std::vector<data_size_t> output(start, end);
diff --git a/include/stochtree/random_effects.h b/include/stochtree/random_effects.h
index 7d7a65c..ecdbcfc 100644
--- a/include/stochtree/random_effects.h
+++ b/include/stochtree/random_effects.h
@@ -76,7 +76,11 @@ class LabelMapper {
     return pos != label_map_.end();
   }
   int32_t CategoryNumber(int32_t category_id) {
-    return label_map_[category_id];
+    auto pos = label_map_.find(category_id);
+    if (pos == label_map_.end()) {
+      Log::Fatal("Random effects group label %d was not found in the training dataset", category_id);
+    }
+    return pos->second;
   }
   std::vector<int32_t>& Keys() {return keys_;}
   std::map<int32_t, int32_t>& Map() {return label_map_;}
diff --git a/src/random_effects.cpp b/src/random_effects.cpp
index 19108d4..538b1d5 100644
--- a/src/random_effects.cpp
+++ b/src/random_effects.cpp
@@ -31,6 +31,7 @@ void LabelMapper::from_json(const nlohmann::json& rfx_label_mapper_json) {
   int num_keys = rfx_label_mapper_json.at("keys").size();
   int num_values = rfx_label_mapper_json.at("values").size();
   CHECK_EQ(num_keys, num_values);
+  this->Reset();
   for (int i = 0; i < num_keys; i++) {
     int32_t key = rfx_label_mapper_json.at("keys").at(i);
     int32_t value = rfx_label_mapper_json.at("values").at(i);
-- 
2.43.0


From 80040fc5d678d4a4a37e7f691454c11047b61e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:52 +0000
Subject: [PATCH 12/56] fix: report an error when a model cannot be completely
 written to a file

---
 include/stochtree/container.h | 5 +++++
 src/py_stochtree.cpp          | 4 ++++
 src/serialization.cpp         | 4 ++++
 3 files changed, 13 insertions(+)

diff --git a/include/stochtree/container.h b/include/stochtree/container.h
index 1af8dd2..f3efa42 100644
--- a/include/stochtree/container.h
+++ b/include/stochtree/container.h
@@ -9,6 +9,7 @@
 #include <stochtree/data.h>
 #include <stochtree/ensemble.h>
 #include <nlohmann/json.hpp>
+#include <stochtree/log.h>
 #include <stochtree/tree.h>
 
 #include <algorithm>
@@ -52,6 +53,10 @@ class ForestContainer {
     nlohmann::json model_json = this->to_json();
     std::ofstream output_file(filename);
     output_file << model_json << std::endl;
+    output_file.close();
+    if (output_file.fail()) {
+      Log::Fatal("Unable to save the forest container to %s", filename.c_str());
+    }
   }
   
   void LoadFromJsonFile(std::string filename) {
diff --git a/src/py_stochtree.cpp b/src/py_stochtree.cpp
index cb329f1..b590eeb 100644
--- a/src/py_stochtree.cpp
+++ b/src/py_stochtree.cpp
@@ -427,6 +427,10 @@ class JsonCpp {
   void SaveFile(std::string filename) {
     std::ofstream output_file(filename);
     output_file << *json_ << std::endl;
+    output_file.close();
+    if (output_file.fail()) {
+      StochTree::Log::Fatal("Unable to save json to %s", filename.c_str());
+    }
   }
 
   std::string DumpJson() {
diff --git a/src/serialization.cpp b/src/serialization.cpp
index ba73475..34874fb 100644
--- a/src/serialization.cpp
+++ b/src/serialization.cpp
@@ -308,6 +308,10 @@ std::string json_add_rfx_groupids_cpp(cpp11::external_pointer<nlohmann::json> js
 void json_save_cpp(cpp11::external_pointer<nlohmann::json> json_ptr, std::string filename) {
     std::ofstream output_file(filename);
     output_file << *json_ptr << std::endl;
+    output_file.close();
+    if (output_file.fail()) {
+        StochTree::Log::Fatal("Unable to save json to %s", filename.c_str());
+    }
 }
 
 [[cpp11::register]]
-- 
2.43.0


From c1eb5bd1a50dec2e8fdef0bc8706ca02ebba7c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:05 +0000
Subject: [PATCH 13/56] fix: leave a model unchanged when loading it from json
 fails

---
 R/random_effects.R            | 10 +++++++---
 include/stochtree/container.h |  1 -
 include/stochtree/ensemble.h  | 21 +++++++++++++--------
 src/container.cpp             | 27 +++++++++++++++++----------
 src/py_stochtree.cpp          |  1 -
 src/random_effects.cpp        | 33 ++++++++++++++++++---------------
 src/tree.cpp                  | 21 +++++++++++++--------
 7 files changed, 68 insertions(+), 46 deletions(-)

diff --git a/R/random_effects.R b/R/random_effects.R
index dbcdbbb..4b333a8 100644
--- a/R/random_effects.R
+++ b/R/random_effects.R
@@ -48,9 +48,13 @@ RandomEffectSamples <- R6::R6Class(
         #' @param json_rfx_groupids_label Label referring to a particular set of rfx group IDs (i.e. "random_effect_groupids_0") in the overall json hierarchy
         #' @return A new `RandomEffectSamples` object.
         load_from_json = function(json_object, json_rfx_container_label, json_rfx_mapper_label, json_rfx_groupids_label) {
-            self$rfx_container_ptr <- rfx_container_from_json_cpp(json_object$json_ptr, json_rfx_container_label)
-            self$label_mapper_ptr <- rfx_label_mapper_from_json_cpp(json_object$json_ptr, json_rfx_mapper_label)
-            self$training_group_ids <- rfx_group_ids_from_json_cpp(json_object$json_ptr, json_rfx_groupids_label)
+            # Load every component before replacing any of them
+            rfx_container_ptr <- rfx_container_from_json_cpp(json_object$json_ptr, json_rfx_container_label)
+            label_mapper_ptr <- rfx_label_mapper_from_json_cpp(json_object$json_ptr, json_rfx_mapper_label)
+            training_group_ids <- rfx_group_ids_from_json_cpp(json_object$json_ptr, json_rfx_groupids_label)
+            self$rfx_container_ptr <- rfx_container_ptr
+            self$label_mapper_ptr <- label_mapper_ptr
+            self$training_group_ids <- training_group_ids
         }, 
         
         #' @description
diff --git a/include/stochtree/container.h b/include/stochtree/container.h
index f3efa42..3d0e28c 100644
--- a/include/stochtree/container.h
+++ b/include/stochtree/container.h
@@ -62,7 +62,6 @@ class ForestContainer {
   void LoadFromJsonFile(std::string filename) {
     std::ifstream f(filename);
     nlohmann::json file_tree_json = nlohmann::json::parse(f);
-    this->Reset();
     this->from_json(file_tree_json);
   }
 
diff --git a/include/stochtree/ensemble.h b/include/stochtree/ensemble.h
index d6d2b66..5cbf03a 100644
--- a/include/stochtree/ensemble.h
+++ b/include/stochtree/ensemble.h
@@ -330,18 +330,23 @@ class TreeEnsemble {
   
   /*! \brief Load from JSON */
   void from_json(const json& ensemble_json) {
-    this->num_trees_ = ensemble_json.at("num_trees");
-    this->output_dimension_ = ensemble_json.at("output_dimension");
-    this->is_leaf_constant_ = ensemble_json.at("is_leaf_constant");
+    // Unpack the json into temporaries, so that the ensemble is unchanged if any of it is missing or invalid
+    int num_trees = ensemble_json.at("num_trees");
+    int output_dimension = ensemble_json.at("output_dimension");
+    bool is_leaf_constant = ensemble_json.at("is_leaf_constant");
 
     std::string tree_label;
-    trees_.clear();
-    trees_.resize(this->num_trees_);
-    for (int i = 0; i < this->num_trees_; i++) {
+    std::vector<std::unique_ptr<Tree>> trees(num_trees);
+    for (int i = 0; i < num_trees; i++) {
       tree_label = "tree_" + std::to_string(i);
-      trees_[i] = std::make_unique<Tree>();
-      trees_[i]->from_json(ensemble_json.at(tree_label));
+      trees[i] = std::make_unique<Tree>();
+      trees[i]->from_json(ensemble_json.at(tree_label));
     }
+
+    this->num_trees_ = num_trees;
+    this->output_dimension_ = output_dimension;
+    this->is_leaf_constant_ = is_leaf_constant;
+    this->trees_ = std::move(trees);
   }
 
  private:
diff --git a/src/container.cpp b/src/container.cpp
index 9762d2d..00c1ccb 100644
--- a/src/container.cpp
+++ b/src/container.cpp
@@ -125,24 +125,31 @@ json ForestContainer::to_json() {
 
 /*! \brief Load from JSON */
 void ForestContainer::from_json(const json& forest_container_json) {
-  this->num_samples_ = forest_container_json.at("num_samples");
-  this->num_trees_ = forest_container_json.at("num_trees");
-  this->output_dimension_ = forest_container_json.at("output_dimension");
-  this->is_leaf_constant_ = forest_container_json.at("is_leaf_constant");
-  this->initialized_ = forest_container_json.at("initialized");
+  // Unpack the json into temporaries, so that the container is unchanged if any of it is missing or invalid
+  int num_samples = forest_container_json.at("num_samples");
+  int num_trees = forest_container_json.at("num_trees");
+  int output_dimension = forest_container_json.at("output_dimension");
+  bool is_leaf_constant = forest_container_json.at("is_leaf_constant");
+  bool initialized = forest_container_json.at("initialized");
 
   std::string forest_label;
   // A container whose roots were initialized, but which has not been sampled yet, 
   // holds a single forest even though it has no samples
-  int num_forests = this->num_samples_;
+  int num_forests = num_samples;
   if ((num_forests == 0) && (forest_container_json.contains("forest_0"))) num_forests = 1;
-  forests_.clear();
-  forests_.resize(num_forests);
+  std::vector<std::unique_ptr<TreeEnsemble>> forests(num_forests);
   for (int i = 0; i < num_forests; i++) {
     forest_label = "forest_" + std::to_string(i);
-    forests_[i] = std::make_unique<TreeEnsemble>(this->num_trees_, this->output_dimension_, this->is_leaf_constant_);
-    forests_[i]->from_json(forest_container_json.at(forest_label));
+    forests[i] = std::make_unique<TreeEnsemble>(num_trees, output_dimension, is_leaf_constant);
+    forests[i]->from_json(forest_container_json.at(forest_label));
   }
+
+  this->num_samples_ = num_samples;
+  this->num_trees_ = num_trees;
+  this->output_dimension_ = output_dimension;
+  this->is_leaf_constant_ = is_leaf_constant;
+  this->initialized_ = initialized;
+  this->forests_ = std::move(forests);
 }
 
 } // namespace StochTree
diff --git a/src/py_stochtree.cpp b/src/py_stochtree.cpp
index b590eeb..9de9d44 100644
--- a/src/py_stochtree.cpp
+++ b/src/py_stochtree.cpp
@@ -683,7 +683,6 @@ class JsonCpp {
 
 void ForestContainerCpp::LoadFromJson(JsonCpp& json, std::string forest_label) {
   nlohmann::json forest_json = json.SubsetJsonForest(forest_label);
-  forest_samples_->Reset();
   forest_samples_->from_json(forest_json);
 }
 
diff --git a/src/random_effects.cpp b/src/random_effects.cpp
index 538b1d5..20f2ceb 100644
--- a/src/random_effects.cpp
+++ b/src/random_effects.cpp
@@ -31,13 +31,17 @@ void LabelMapper::from_json(const nlohmann::json& rfx_label_mapper_json) {
   int num_keys = rfx_label_mapper_json.at("keys").size();
   int num_values = rfx_label_mapper_json.at("values").size();
   CHECK_EQ(num_keys, num_values);
-  this->Reset();
+  // Unpack the json into temporaries, so that the mapper is unchanged if any of it is missing or invalid
+  std::vector<int32_t> keys;
+  std::map<int32_t, int32_t> label_map;
   for (int i = 0; i < num_keys; i++) {
     int32_t key = rfx_label_mapper_json.at("keys").at(i);
     int32_t value = rfx_label_mapper_json.at("values").at(i);
-    keys_.push_back(key);
-    label_map_.insert({key, value});
+    keys.push_back(key);
+    label_map.insert({key, value});
   }
+  keys_ = std::move(keys);
+  label_map_ = std::move(label_map);
 }
 
 void MultivariateRegressionRandomEffectsModel::SampleRandomEffects(RandomEffectsDataset& dataset, ColumnVector& residual, RandomEffectsTracker& rfx_tracker, 
@@ -271,28 +275,27 @@ void RandomEffectsContainer::from_json(const nlohmann::json& rfx_container_json)
   int beta_size = rfx_container_json.at("beta_size");
   int alpha_size = rfx_container_json.at("alpha_size");
 
-  // Clear all internal arrays
-  beta_.clear();
-  xi_.clear();
-  alpha_.clear();
-  sigma_xi_.clear();
+  // Unpack the json into a temporary, so that the container is unchanged if any of it is missing or invalid
+  RandomEffectsContainer container;
 
   // Unpack internal counts
-  this->num_samples_ = rfx_container_json.at("num_samples");
-  this->num_components_ = rfx_container_json.at("num_components");
-  this->num_groups_ = rfx_container_json.at("num_groups");
+  container.num_samples_ = rfx_container_json.at("num_samples");
+  container.num_components_ = rfx_container_json.at("num_components");
+  container.num_groups_ = rfx_container_json.at("num_groups");
   
   // Unpack beta and xi
   for (int i = 0; i < beta_size; i++) {
-    beta_.push_back(rfx_container_json.at("beta").at(i));
-    xi_.push_back(rfx_container_json.at("xi").at(i));
+    container.beta_.push_back(rfx_container_json.at("beta").at(i));
+    container.xi_.push_back(rfx_container_json.at("xi").at(i));
   }
   
   // Unpack alpha and sigma_xi
   for (int i = 0; i < alpha_size; i++) {
-    alpha_.push_back(rfx_container_json.at("alpha").at(i));
-    sigma_xi_.push_back(rfx_container_json.at("sigma_xi").at(i));
+    container.alpha_.push_back(rfx_container_json.at("alpha").at(i));
+    container.sigma_xi_.push_back(rfx_container_json.at("sigma_xi").at(i));
   }
+
+  *this = std::move(container);
 }
 
 }  // namespace StochTree
diff --git a/src/tree.cpp b/src/tree.cpp
index 420b99b..26297ec 100644
--- a/src/tree.cpp
+++ b/src/tree.cpp
@@ -643,17 +643,22 @@ void JsonToNodeLists(const json& tree_json, Tree* tree) {
 }
 
 void Tree::from_json(const json& tree_json) {
+  // Unpack the json into a temporary, so that the tree is unchanged if any of it is missing or invalid
+  Tree tree;
+
   // Unpack non-array fields
-  tree_json.at("num_nodes").get_to(this->num_nodes);
-  tree_json.at("num_deleted_nodes").get_to(this->num_deleted_nodes);
-  tree_json.at("has_categorical_split").get_to(this->has_categorical_split_);
-  tree_json.at("output_dimension").get_to(this->output_dimension_);
+  tree_json.at("num_nodes").get_to(tree.num_nodes);
+  tree_json.at("num_deleted_nodes").get_to(tree.num_deleted_nodes);
+  tree_json.at("has_categorical_split").get_to(tree.has_categorical_split_);
+  tree_json.at("output_dimension").get_to(tree.output_dimension_);
   
   // Unpack the array based fields
-  JsonToTreeNodeVectors(tree_json, this);
-  JsonToMultivariateLeafVector(tree_json, this);
-  JsonToSplitCategoryVector(tree_json, this);
-  JsonToNodeLists(tree_json, this);
+  JsonToTreeNodeVectors(tree_json, &tree);
+  JsonToMultivariateLeafVector(tree_json, &tree);
+  JsonToSplitCategoryVector(tree_json, &tree);
+  JsonToNodeLists(tree_json, &tree);
+
+  *this = std::move(tree);
 }
 
 } // namespace StochTree
-- 
2.43.0


From 36bcf4ebc50a4671e226e5edb60cc60b2fa1df9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:05 +0000
Subject: [PATCH 14/56] fix: draw variance parameters from their conjugate
 posteriors

---
 include/stochtree/variance_model.h | 8 ++++----
 src/random_effects.cpp             | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/stochtree/variance_model.h b/include/stochtree/variance_model.h
index 53140dd..c989dd4 100644
--- a/include/stochtree/variance_model.h
+++ b/include/stochtree/variance_model.h
@@ -26,7 +26,7 @@ class GlobalHomoskedasticVarianceModel {
   ~GlobalHomoskedasticVarianceModel() {}
   double PosteriorShape(Eigen::VectorXd& residuals, double nu, double lambda) {
     data_size_t n = residuals.rows();
-    return (nu/2.0) + n;
+    return (nu + n)/2.0;
   }
   double PosteriorScale(Eigen::VectorXd& residuals, double nu, double lambda) {
     data_size_t n = residuals.rows();
@@ -35,7 +35,7 @@ class GlobalHomoskedasticVarianceModel {
     for (data_size_t i = 0; i < n; i++) {
       sum_sq_resid += std::pow(residuals(i, 0), 2);
     }
-    return (nu_lambda/2.0) + sum_sq_resid;
+    return (nu_lambda + sum_sq_resid)/2.0;
   }
   double SampleVarianceParameter(Eigen::VectorXd& residuals, double nu, double lambda, std::mt19937& gen) {
     double ig_shape = PosteriorShape(residuals, nu, lambda);
@@ -54,11 +54,11 @@ class LeafNodeHomoskedasticVarianceModel {
   ~LeafNodeHomoskedasticVarianceModel() {}
   double PosteriorShape(TreeEnsemble* ensemble, double a, double b) {
     data_size_t num_leaves = ensemble->NumLeaves();
-    return (a/2.0) + num_leaves;
+    return (a + num_leaves)/2.0;
   }
   double PosteriorScale(TreeEnsemble* ensemble, double a, double b) {
     double mu_sq = ensemble->SumLeafSquared();
-    return (b/2.0) + mu_sq;
+    return (b + mu_sq)/2.0;
   }
   double SampleVarianceParameter(TreeEnsemble* ensemble, double a, double b, std::mt19937& gen) {
     double ig_shape = PosteriorShape(ensemble, a, b);
diff --git a/src/random_effects.cpp b/src/random_effects.cpp
index 20f2ceb..db593e3 100644
--- a/src/random_effects.cpp
+++ b/src/random_effects.cpp
@@ -170,7 +170,7 @@ Eigen::MatrixXd MultivariateRegressionRandomEffectsModel::GroupParameterVariance
 }
 
 double MultivariateRegressionRandomEffectsModel::VarianceComponentShape(RandomEffectsDataset& dataset, ColumnVector& residual, RandomEffectsTracker& rfx_tracker, double global_variance, int32_t component_id) {
-  return static_cast<double>(variance_prior_shape_ + num_groups_);
+  return variance_prior_shape_ + num_groups_/2.0;
 }
 
 double MultivariateRegressionRandomEffectsModel::VarianceComponentScale(RandomEffectsDataset& dataset, ColumnVector& residual, RandomEffectsTracker& rfx_tracker, double global_variance, int32_t component_id) {
@@ -178,7 +178,7 @@ double MultivariateRegressionRandomEffectsModel::VarianceComponentScale(RandomEf
   Eigen::MatrixXd xi = group_parameters_;
   double output = variance_prior_scale_;
   for (int i = 0; i < num_groups; i++) {
-    output += xi(component_id, i)*xi(component_id, i);
+    output += xi(component_id, i)*xi(component_id, i)/2.0;
   }
   return output;
 }
-- 
2.43.0


From d92211cc4b97636dce25a98c772c8cbc230c4810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:09 +0000
Subject: [PATCH 15/56] fix: skip blank lines in text files wherever the read
 blocks begin

---
 include/stochtree/io.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/stochtree/io.h b/include/stochtree/io.h
index 3bc277f..efe64e0 100644
--- a/include/stochtree/io.h
+++ b/include/stochtree/io.h
@@ -501,9 +501,9 @@ class TextReader {
       size_t cnt = 0;
       size_t i = 0;
       size_t last_i = 0;
-      // skip the break between \r and \n
-      if (last_line_.size() == 0 && buffer_process[0] == '\n') {
-        i = 1;
+      // skip line breaks that continue from the previous block
+      if (last_line_.size() == 0) {
+        while (i < read_cnt && (buffer_process[i] == '\n' || buffer_process[i] == '\r')) { ++i; }
         last_i = i;
       }
       while (i < read_cnt) {
@@ -519,7 +519,7 @@ class TextReader {
           ++i;
           ++total_cnt;
           // skip end of line
-          while ((buffer_process[i] == '\n' || buffer_process[i] == '\r') && i < read_cnt) { ++i; }
+          while (i < read_cnt && (buffer_process[i] == '\n' || buffer_process[i] == '\r')) { ++i; }
           last_i = i;
         } else {
           ++i;
@@ -655,9 +655,9 @@ class TextReader {
       size_t i = 0;
       size_t last_i = 0;
       INDEX_T start_idx = used_cnt;
-      // skip the break between \r and \n
-      if (last_line_.size() == 0 && buffer_process[0] == '\n') {
-        i = 1;
+      // skip line breaks that continue from the previous block
+      if (last_line_.size() == 0) {
+        while (i < read_cnt && (buffer_process[i] == '\n' || buffer_process[i] == '\r')) { ++i; }
         last_i = i;
       }
       while (i < read_cnt) {
@@ -679,7 +679,7 @@ class TextReader {
           ++i;
           ++total_cnt;
           // skip end of line
-          while ((buffer_process[i] == '\n' || buffer_process[i] == '\r') && i < read_cnt) { ++i; }
+          while (i < read_cnt && (buffer_process[i] == '\n' || buffer_process[i] == '\r')) { ++i; }
           last_i = i;
         } else {
           ++i;
-- 
2.43.0


From fc0e7cf86450bc4d762c5bbd710d32916de57ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:09 +0000
Subject: [PATCH 16/56] fix: report text files that cannot be opened or read
 instead of treating them as empty or shorter

---
 include/stochtree/io.h | 31 +++++++++++++++++++++++--------
 src/io.cpp             |  6 +++++-
 2 files changed, 28 insertions(+), 9 deletions(-)

diff --git a/include/stochtree/io.h b/include/stochtree/io.h
index efe64e0..a757b47 100644
--- a/include/stochtree/io.h
+++ b/include/stochtree/io.h
@@ -27,6 +27,7 @@
 #include <cstdio>
 #include <cstdlib>
 #include <cstring>
+#include <exception>
 #include <functional>
 #include <iostream>
 #include <memory>
@@ -379,7 +380,7 @@ class PipelineReader {
   static size_t Read(const char* filename, int skip_bytes, const std::function<size_t(const char*, size_t)>& process_fun) {
     auto reader = VirtualFileReader::Make(filename);
     if (!reader->Init()) {
-      return 0;
+      Log::Fatal("Could not open %s", filename);
     }
     size_t cnt = 0;
     const size_t buffer_size =  16 * 1024 * 1024;
@@ -388,24 +389,38 @@ class PipelineReader {
     // buffer used for the file reading
     auto buffer_read = std::vector<char>(buffer_size);
     size_t read_cnt = 0;
-    if (skip_bytes > 0) {
+    size_t remaining_skip_bytes = skip_bytes > 0 ? static_cast<size_t>(skip_bytes) : 0;
+    while (remaining_skip_bytes > 0) {
       // skip first k bytes
-      read_cnt = reader->Read(buffer_process.data(), skip_bytes);
+      read_cnt = reader->Read(buffer_process.data(), std::min(remaining_skip_bytes, buffer_size));
+      if (read_cnt == 0) break;
+      remaining_skip_bytes -= read_cnt;
     }
     // read first block
     read_cnt = reader->Read(buffer_process.data(), buffer_size);
 
     size_t last_read_cnt = 0;
     while (read_cnt > 0) {
+      std::exception_ptr read_error = nullptr;
       // start read thread
       std::thread read_worker = std::thread(
-        [=, &last_read_cnt, &reader, &buffer_read] {
-        last_read_cnt = reader->Read(buffer_read.data(), buffer_size);
+        [=, &last_read_cnt, &reader, &buffer_read, &read_error] {
+        try {
+          last_read_cnt = reader->Read(buffer_read.data(), buffer_size);
+        } catch (...) {
+          read_error = std::current_exception();
+        }
       });
       // start process
-      cnt += process_fun(buffer_process.data(), read_cnt);
+      try {
+        cnt += process_fun(buffer_process.data(), read_cnt);
+      } catch (...) {
+        read_worker.join();
+        throw;
+      }
       // wait for read thread
       read_worker.join();
+      if (read_error) std::rethrow_exception(read_error);
       // exchange the buffer
       std::swap(buffer_process, buffer_read);
       read_cnt = last_read_cnt;
@@ -433,7 +448,7 @@ class TextReader {
         Log::Fatal("Could not open %s", filename);
       }
       std::stringstream str_buf;
-      char read_c;
+      char read_c = '\0';
       size_t nread = reader->Read(&read_c, 1);
       while (nread == 1) {
         if (read_c == '\n' || read_c == '\r') {
@@ -563,7 +578,7 @@ class TextReader {
     *out_len = 0;
     auto reader = VirtualFileReader::Make(filename_);
     if (!reader->Init()) {
-      return ret;
+      Log::Fatal("Could not open %s", filename_);
     }
     const size_t buffer_size = 16 * 1024 * 1024;
     auto buffer_read = std::vector<char>(buffer_size);
diff --git a/src/io.cpp b/src/io.cpp
index 1324957..8eb2847 100644
--- a/src/io.cpp
+++ b/src/io.cpp
@@ -39,7 +39,11 @@ struct LocalFile : VirtualFileReader, VirtualFileWriter {
   }
 
   size_t Read(void* buffer, size_t bytes) const {
-    return fread(buffer, 1, bytes, file_);
+    size_t read_cnt = fread(buffer, 1, bytes, file_);
+    if (read_cnt < bytes && ferror(file_)) {
+      Log::Fatal("Error reading from %s", filename_.c_str());
+    }
+    return read_cnt;
   }
 
   size_t Write(const void* buffer, size_t bytes) {
-- 
2.43.0


From bfbc3df999742488224d55794f040a44167a2a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:14 +0000
Subject: [PATCH 17/56] fix: count a random effects sample only once it has
 been stored

---
 src/random_effects.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/random_effects.cpp b/src/random_effects.cpp
index db593e3..75defa2 100644
--- a/src/random_effects.cpp
+++ b/src/random_effects.cpp
@@ -184,19 +184,19 @@ double MultivariateRegressionRandomEffectsModel::VarianceComponentScale(RandomEf
 }
 
 void RandomEffectsContainer::AddSample(MultivariateRegressionRandomEffectsModel& model){
-  // Increment number of samples
+  // Allocate space for the new sample, incrementing the number of samples only once it has been stored
   int sample_ind = num_samples_;
-  num_samples_++;
+  int num_samples = num_samples_ + 1;
 
   // Add alpha
-  alpha_.resize(num_samples_*num_components_);
+  alpha_.resize(num_samples*num_components_);
   for (int i = 0; i < num_components_; i++) {
     alpha_.at(sample_ind*num_components_ + i) = model.GetWorkingParameter()(i);
   }
 
   // Add xi and beta
-  xi_.resize(num_samples_*num_components_*num_groups_);
-  beta_.resize(num_samples_*num_components_*num_groups_);
+  xi_.resize(num_samples*num_components_*num_groups_);
+  beta_.resize(num_samples*num_components_*num_groups_);
   for (int i = 0; i < num_components_; i++) {
     for (int j = 0; j < num_groups_; j++) {
       xi_.at(sample_ind*num_groups_*num_components_ + j*num_components_ + i) = model.GetGroupParameters()(i,j);
@@ -205,10 +205,11 @@ void RandomEffectsContainer::AddSample(MultivariateRegressionRandomEffectsModel&
   }
 
   // Add sigma
-  sigma_xi_.resize(num_samples_*num_components_);
+  sigma_xi_.resize(num_samples*num_components_);
   for (int i = 0; i < num_components_; i++) {
     sigma_xi_.at(sample_ind*num_components_ + i) = model.GetGroupParameterCovariance()(i,i);
   }
+  num_samples_ = num_samples;
 }
 
 void RandomEffectsContainer::Predict(RandomEffectsDataset& dataset, LabelMapper& label_mapper, std::vector<double>& output) {
-- 
2.43.0


From a7ddb7977a7d87577b6ae9756084b9c5a7b14431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:54 +0000
Subject: [PATCH 18/56] fix: drop a forest sample from its container if drawing
 it is interrupted by an exception

---
 include/stochtree/container.h    |  8 ++++++++
 include/stochtree/tree_sampler.h | 18 ++++++++++++++++++
 2 files changed, 26 insertions(+)

diff --git a/include/stochtree/container.h b/include/stochtree/container.h
index 3d0e28c..a583c65 100644
--- a/include/stochtree/container.h
+++ b/include/stochtree/container.h
@@ -48,6 +48,14 @@ class ForestContainer {
   inline void SetLeafValue(int ensemble_num, double leaf_value) {forests_[ensemble_num]->SetLeafValue(leaf_value);}
   inline void SetLeafVector(int ensemble_num, std::vector<double>& leaf_vector) {forests_[ensemble_num]->SetLeafVector(leaf_vector);}
   inline void IncrementSampleCount() {num_samples_++;}
+  
+  /*! \brief Drop every sample after the first `num_samples` samples */
+  inline void TruncateSamples(int num_samples) {
+    if (num_samples < num_samples_) {
+      forests_.resize(num_samples);
+      num_samples_ = num_samples;
+    }
+  }
 
   void SaveToJsonFile(std::string filename) {
     nlohmann::json model_json = this->to_json();
diff --git a/include/stochtree/tree_sampler.h b/include/stochtree/tree_sampler.h
index 16f5866..d4ef43e 100644
--- a/include/stochtree/tree_sampler.h
+++ b/include/stochtree/tree_sampler.h
@@ -137,6 +137,20 @@ static inline void UpdateResidualTree(ForestTracker& tracker, ForestDataset& dat
   }
 }
 
+/*! \brief Removes a forest sample from its container if drawing it is interrupted by an exception, 
+ *  so that a container never reports a sample that was not completed
+ */
+class UnfinishedSampleGuard {
+ public:
+  UnfinishedSampleGuard(ForestContainer& forests) : forests_(forests), prev_num_samples_(forests.NumSamples()) {}
+  ~UnfinishedSampleGuard() {if (!finished_) forests_.TruncateSamples(prev_num_samples_);}
+  void SetFinished() {finished_ = true;}
+ private:
+  ForestContainer& forests_;
+  int prev_num_samples_;
+  bool finished_{false};
+};
+
 template <typename LeafModel>
 class MCMCForestSampler {
  public:
@@ -148,6 +162,7 @@ class MCMCForestSampler {
                      double global_variance, bool pre_initialized = false) {
     // Previous number of samples
     int prev_num_samples = forests.NumSamples();
+    UnfinishedSampleGuard sample_guard(forests);
     
     if ((prev_num_samples == 0) && (!pre_initialized)) {
       // Add new forest to the container
@@ -188,6 +203,7 @@ class MCMCForestSampler {
       tree = ensemble->GetTree(i);
       UpdateResidualTree(tracker, dataset, residual, tree, i, leaf_model.RequiresBasis(), minus_op_, true);
     }
+    sample_guard.SetFinished();
   }
  
  private:
@@ -421,6 +437,7 @@ class GFRForestSampler {
                      double global_variance, std::vector<FeatureType>& feature_types, bool pre_initialized = false) {
     // Previous number of samples
     int prev_num_samples = forests.NumSamples();
+    UnfinishedSampleGuard sample_guard(forests);
     
     if ((prev_num_samples == 0) && (!pre_initialized)) {
       // Add new forest to the container
@@ -466,6 +483,7 @@ class GFRForestSampler {
       // Subtract tree i's predictions back out of the residual
       UpdateResidualTree(tracker, dataset, residual, tree, i, leaf_model.RequiresBasis(), minus_op_, true);
     }
+    sample_guard.SetFinished();
   }
 
  private:
-- 
2.43.0


From b896514fb10679a320a59a90f67b9a0502f7b6a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:54 +0000
Subject: [PATCH 19/56] fix: replace a random effects container as a whole when
 it is loaded from json

---
 src/random_effects.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/random_effects.cpp b/src/random_effects.cpp
index 75defa2..a110d43 100644
--- a/src/random_effects.cpp
+++ b/src/random_effects.cpp
@@ -296,7 +296,14 @@ void RandomEffectsContainer::from_json(const nlohmann::json& rfx_container_json)
     container.sigma_xi_.push_back(rfx_container_json.at("sigma_xi").at(i));
   }
 
-  *this = std::move(container);
+  // Nothing below allocates memory, so the container is replaced as a whole
+  num_samples_ = container.num_samples_;
+  num_components_ = container.num_components_;
+  num_groups_ = container.num_groups_;
+  beta_ = std::move(container.beta_);
+  xi_ = std::move(container.xi_);
+  alpha_ = std::move(container.alpha_);
+  sigma_xi_ = std::move(container.sigma_xi_);
 }
 
 }  // namespace StochTree
-- 
2.43.0


From 053ca6e1711754c13e956d69cea83a393ec43809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:09 +0000
Subject: [PATCH 20/56] fix: calibrate the error variance for rank-deficient
 covariates and when only lamb is given

---
 stochtree/bart.py | 9 +++++++--
 stochtree/bcf.py  | 9 +++++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/stochtree/bart.py b/stochtree/bart.py
index 82f14df..4b50c2e 100644
--- a/stochtree/bart.py
+++ b/stochtree/bart.py
@@ -172,10 +172,15 @@ class BARTModel:
         resid_train = (y_train-self.y_bar)/self.y_std
 
         # Calibrate priors for global sigma^2 and sigma_leaf
-        if lamb is None:
+        if lamb is None or sigma2 is None:
             reg_basis = np.c_[np.ones(self.n_train),X_train_processed]
             reg_soln = lstsq(reg_basis, np.squeeze(resid_train))
-            sigma2hat = reg_soln[1] / self.n_train
+            sum_sq_resid = reg_soln[1]
+            if np.size(sum_sq_resid) == 0:
+                # lstsq does not return the residual sum of squares of a rank-deficient regression
+                sum_sq_resid = np.sum(np.square(np.squeeze(resid_train) - reg_basis @ reg_soln[0]))
+            sigma2hat = sum_sq_resid / self.n_train
+        if lamb is None:
             quantile_cutoff = q
             lamb = (sigma2hat*gamma.ppf(1-quantile_cutoff,nu))/nu
         sigma2 = sigma2hat if sigma2 is None else sigma2
diff --git a/stochtree/bcf.py b/stochtree/bcf.py
index f556f92..2683b40 100644
--- a/stochtree/bcf.py
+++ b/stochtree/bcf.py
@@ -505,10 +505,15 @@ class BCFModel:
         resid_train = (y_train-self.y_bar)/self.y_std
 
         # Calibrate priors for global sigma^2 and sigma_leaf_mu / sigma_leaf_tau
-        if lamb is None:
+        if lamb is None or sigma2 is None:
             reg_basis = np.c_[np.ones(self.n_train),X_train_processed]
             reg_soln = lstsq(reg_basis, np.squeeze(resid_train))
-            sigma2hat = reg_soln[1] / self.n_train
+            sum_sq_resid = reg_soln[1]
+            if np.size(sum_sq_resid) == 0:
+                # lstsq does not return the residual sum of squares of a rank-deficient regression
+                sum_sq_resid = np.sum(np.square(np.squeeze(resid_train) - reg_basis @ reg_soln[0]))
+            sigma2hat = sum_sq_resid / self.n_train
+        if lamb is None:
             quantile_cutoff = q
             lamb = (sigma2hat*gamma.ppf(1-quantile_cutoff,nu))/nu
         sigma2 = sigma2hat if sigma2 is None else sigma2
-- 
2.43.0


From 70ba0cb5cae9f84344a23d27592de857ae0d70b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:29 +0000
Subject: [PATCH 21/56] fix: keep_gfr / keep_burnin without such samples no
 longer fail after sampling

---
 stochtree/bart.py | 4 ++--
 stochtree/bcf.py  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/stochtree/bart.py b/stochtree/bart.py
index 4b50c2e..d33f804 100644
--- a/stochtree/bart.py
+++ b/stochtree/bart.py
@@ -291,11 +291,11 @@ class BARTModel:
         # Prediction indices to be stored
         if self.num_mcmc > 0:
             self.keep_indices = mcmc_indices
-            if keep_gfr:
+            if keep_gfr and self.num_gfr > 0:
                 self.keep_indices = np.concatenate((gfr_indices, self.keep_indices))
             else:
                 # Don't retain both GFR and burnin samples
-                if keep_burnin:
+                if keep_burnin and self.num_burnin > 0:
                     self.keep_indices = np.concatenate((burnin_indices, self.keep_indices))
         else:
             if self.num_gfr > 0 and self.num_burnin > 0:
diff --git a/stochtree/bcf.py b/stochtree/bcf.py
index 2683b40..b79176f 100644
--- a/stochtree/bcf.py
+++ b/stochtree/bcf.py
@@ -761,11 +761,11 @@ class BCFModel:
         # Prediction indices to be stored
         if self.num_mcmc > 0:
             self.keep_indices = mcmc_indices
-            if keep_gfr:
+            if keep_gfr and self.num_gfr > 0:
                 self.keep_indices = np.concatenate((gfr_indices, self.keep_indices))
             else:
                 # Don't retain both GFR and burnin samples
-                if keep_burnin:
+                if keep_burnin and self.num_burnin > 0:
                     self.keep_indices = np.concatenate((burnin_indices, self.keep_indices))
         else:
             if self.num_gfr > 0 and self.num_burnin > 0:
-- 
2.43.0


From 003ad9f8317ae5c277c9b57c9b96ce0b02967b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:29 +0000
Subject: [PATCH 22/56] fix: sample BART models with several leaf basis columns

---
 stochtree/bart.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/stochtree/bart.py b/stochtree/bart.py
index d33f804..0ad6854 100644
--- a/stochtree/bart.py
+++ b/stochtree/bart.py
@@ -187,7 +187,12 @@ class BARTModel:
         b_leaf = np.squeeze(np.var(resid_train)) / num_trees if b_leaf is None else b_leaf
         sigma_leaf = np.squeeze(np.var(resid_train)) / num_trees if sigma_leaf is None else sigma_leaf
         current_sigma2 = sigma2
-        current_leaf_scale = np.array([[sigma_leaf]])
+        if self.num_basis > 1:
+            current_leaf_scale = np.diagflat(np.repeat(sigma_leaf, self.num_basis))
+            # Sampling the leaf scale is not supported for multivariate leaf regressions
+            sample_sigma_leaf = False
+        else:
+            current_leaf_scale = np.array([[sigma_leaf]])
 
         # Container of variance parameter samples
         self.num_gfr = num_gfr
@@ -243,8 +248,11 @@ class BARTModel:
 
         # Initialize the leaves of each tree in the prognostic forest
         init_root = np.squeeze(np.mean(resid_train)) / num_trees
-        self.forest_container.set_root_leaves(0, init_root)
-        forest_sampler.update_residual(forest_dataset_train, residual_train, self.forest_container, False, 0, False)
+        if self.num_basis > 1:
+            self.forest_container.set_root_leaves(0, np.zeros(self.num_basis))
+        else:
+            self.forest_container.set_root_leaves(0, init_root)
+        forest_sampler.update_residual(forest_dataset_train, residual_train, self.forest_container, self.has_basis, 0, False)
 
         # Run GFR (warm start) if specified
         if self.num_gfr > 0:
-- 
2.43.0


From a0b465660e66d10adb5af6f3335c58b126e1a03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:29 +0000
Subject: [PATCH 23/56] fix: apply the training set's covariate preprocessing
 when predicting

---
 stochtree/bart.py |  5 +++--
 stochtree/bcf.py  | 10 ++++++----
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/stochtree/bart.py b/stochtree/bart.py
index 0ad6854..72f22ca 100644
--- a/stochtree/bart.py
+++ b/stochtree/bart.py
@@ -346,9 +346,10 @@ class BARTModel:
             )
             raise NotSampledError(msg)
         
+        # Apply the covariate preprocessing of the training set
+        covariates = self._covariate_transformer.transform(covariates)
+        
         # Convert everything to standard shape (2-dimensional)
-        if covariates.ndim == 1:
-            covariates = np.expand_dims(covariates, 1)
         if basis is not None:
             if basis.ndim == 1:
                 basis = np.expand_dims(basis, 1)
diff --git a/stochtree/bcf.py b/stochtree/bcf.py
index b79176f..ca1c161 100644
--- a/stochtree/bcf.py
+++ b/stochtree/bcf.py
@@ -832,9 +832,10 @@ class BCFModel:
             )
             raise NotSampledError(msg)
         
+        # Apply the covariate preprocessing of the training set
+        X = self._covariate_transformer.transform(X)
+        
         # Convert everything to standard shape (2-dimensional)
-        if X.ndim == 1:
-            X = np.expand_dims(X, 1)
         if Z.ndim == 1:
             Z = np.expand_dims(Z, 1)
         if propensity is not None:
@@ -902,9 +903,10 @@ class BCFModel:
             )
             raise NotSampledError(msg)
         
+        # Apply the covariate preprocessing of the training set
+        X = self._covariate_transformer.transform(X)
+        
         # Convert everything to standard shape (2-dimensional)
-        if X.ndim == 1:
-            X = np.expand_dims(X, 1)
         if Z.ndim == 1:
             Z = np.expand_dims(Z, 1)
         if propensity is not None:
-- 
2.43.0


From 5574ab6cedde820467e9aaeb8a8cde053831811d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:03 +0000
Subject: [PATCH 24/56] fix: BCF outcome predictions add the treatment term row
 by row

---
 stochtree/bcf.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/stochtree/bcf.py b/stochtree/bcf.py
index ca1c161..988942f 100644
--- a/stochtree/bcf.py
+++ b/stochtree/bcf.py
@@ -788,10 +788,7 @@ class BCFModel:
             adaptive_coding_weights = np.expand_dims(self.b1_samples[self.keep_indices] - self.b0_samples[self.keep_indices], axis=(0,2))
             self.tau_hat_train = self.tau_hat_train*adaptive_coding_weights
         self.tau_hat_train = self.tau_hat_train*self.y_std
-        if self.multivariate_treatment:
-            treatment_term_train = np.multiply(np.atleast_3d(Z_train).swapaxes(1,2),self.tau_hat_train).sum(axis=2)
-        else:
-            treatment_term_train = Z_train*np.squeeze(self.tau_hat_train)
+        treatment_term_train = np.multiply(np.expand_dims(Z_train,1),self.tau_hat_train).sum(axis=2)
         self.y_hat_train = self.mu_hat_train + treatment_term_train
         if self.has_test:
             mu_raw_test = self.forest_container_mu.forest_container_cpp.Predict(forest_dataset_test.dataset_cpp)
@@ -802,10 +799,7 @@ class BCFModel:
                 adaptive_coding_weights_test = np.expand_dims(self.b1_samples[self.keep_indices] - self.b0_samples[self.keep_indices], axis=(0,2))
                 self.tau_hat_test = self.tau_hat_test*adaptive_coding_weights_test
             self.tau_hat_test = self.tau_hat_test*self.y_std
-            if self.multivariate_treatment:
-                treatment_term_test = np.multiply(np.atleast_3d(Z_test).swapaxes(1,2),self.tau_hat_test).sum(axis=2)
-            else:
-                treatment_term_test = Z_test*np.squeeze(self.tau_hat_test)
+            treatment_term_test = np.multiply(np.expand_dims(Z_test,1),self.tau_hat_test).sum(axis=2)
             self.y_hat_test = self.mu_hat_test + treatment_term_test
     
     def predict_tau(self, X: np.array, Z: np.array, propensity: np.array = None) -> np.array:
@@ -961,7 +955,7 @@ class BCFModel:
         tau_x = tau_raw[:,self.keep_indices]
 
         # Outcome predictions
-        yhat_x = mu_x + Z*tau_x
+        yhat_x = mu_x + np.multiply(np.expand_dims(Z,1),tau_x).sum(axis=2)
 
         # Return result matrices as a tuple
         return (tau_x, mu_x, yhat_x)
-- 
2.43.0


From 07debef9a5de012920b8146a56c410d47a193946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:03 +0000
Subject: [PATCH 25/56] fix: estimate propensities for a BCF test set after
 fitting the propensity model

---
 stochtree/bcf.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/stochtree/bcf.py b/stochtree/bcf.py
index 988942f..3ef5261 100644
--- a/stochtree/bcf.py
+++ b/stochtree/bcf.py
@@ -488,7 +488,6 @@ class BCFModel:
         if pi_train is None and propensity_covariate != "none":
             self.bart_propensity_model = BARTModel()
             if self.has_test:
-                pi_test = np.mean(self.bart_propensity_model.y_hat_test, axis = 1, keepdims = True)
                 self.bart_propensity_model.sample(X_train=X_train_processed, y_train=Z_train, X_test=X_test_processed, num_gfr=10, num_mcmc=10)
                 pi_train = np.mean(self.bart_propensity_model.y_hat_train, axis = 1, keepdims = True)
                 pi_test = np.mean(self.bart_propensity_model.y_hat_test, axis = 1, keepdims = True)
-- 
2.43.0


From 8b644afaebbc7b5fca51a1b118f8dfe74b8cd818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:40 +0000
Subject: [PATCH 26/56] fix: BCF variable subsets by name or array, kept apart
 for the two forests

---
 stochtree/bcf.py | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/stochtree/bcf.py b/stochtree/bcf.py
index 3ef5261..b2ca8ea 100644
--- a/stochtree/bcf.py
+++ b/stochtree/bcf.py
@@ -341,7 +341,7 @@ class BCFModel:
                 if all(isinstance(i, str) for i in keep_vars_mu):
                     if not np.all(np.isin(keep_vars_mu, X_train.columns)):
                         raise ValueError("keep_vars_mu includes some variable names that are not in X_train")
-                    variable_subset_mu = [i for i in X_train.shape[1] if keep_vars_mu.count(X_train.columns.array[i]) > 0]
+                    variable_subset_mu = [i for i in range(X_train.shape[1]) if keep_vars_mu.count(X_train.columns.array[i]) > 0]
                 elif all(isinstance(i, int) for i in keep_vars_mu):
                     if any(i >= X_train.shape[1] for i in keep_vars_mu):
                         raise ValueError("keep_vars_mu includes some variable indices that exceed the number of columns in X_train")
@@ -351,10 +351,10 @@ class BCFModel:
                 else:
                     raise ValueError("keep_vars_mu must be a list of variable names (str) or column indices (int)")
             elif isinstance(keep_vars_mu, np.ndarray):
-                if keep_vars_mu.dtype == np.str_:
+                if keep_vars_mu.dtype.kind == "U":
                     if not np.all(np.isin(keep_vars_mu, X_train.columns)):
                         raise ValueError("keep_vars_mu includes some variable names that are not in X_train")
-                    variable_subset_mu = [i for i in X_train.shape[1] if keep_vars_mu.count(X_train.columns.array[i]) > 0]
+                    variable_subset_mu = [i for i in range(X_train.shape[1]) if keep_vars_mu.tolist().count(X_train.columns.array[i]) > 0]
                 else:
                     if np.any(keep_vars_mu >= X_train.shape[1]):
                         raise ValueError("keep_vars_mu includes some variable indices that exceed the number of columns in X_train")
@@ -378,18 +378,18 @@ class BCFModel:
                 else:
                     raise ValueError("drop_vars_mu must be a list of variable names (str) or column indices (int)")
             elif isinstance(drop_vars_mu, np.ndarray):
-                if drop_vars_mu.dtype == np.str_:
+                if drop_vars_mu.dtype.kind == "U":
                     if not np.all(np.isin(drop_vars_mu, X_train.columns)):
                         raise ValueError("drop_vars_mu includes some variable names that are not in X_train")
-                    keep_inds = ~np.isin(X_train.columns.array, drop_vars_mu)
-                    variable_subset_mu = [i for i in keep_inds]
+                    keep_inds = ~np.isin(X_train.columns.array.astype(str), drop_vars_mu)
+                    variable_subset_mu = [i for i in np.flatnonzero(keep_inds)]
                 else:
                     if np.any(drop_vars_mu >= X_train.shape[1]):
                         raise ValueError("drop_vars_mu includes some variable indices that exceed the number of columns in X_train")
                     if np.any(drop_vars_mu < 0):
                         raise ValueError("drop_vars_mu includes some negative variable indices")
                     keep_inds = ~np.isin(np.arange(X_train.shape[1]), drop_vars_mu)
-                    variable_subset_mu = [i for i in keep_inds]
+                    variable_subset_mu = [i for i in np.flatnonzero(keep_inds)]
             else:
                 raise ValueError("drop_vars_mu must be a list or np.array")
         else:
@@ -409,10 +409,10 @@ class BCFModel:
                 else:
                     raise ValueError("keep_vars_tau must be a list of variable names (str) or column indices (int)")
             elif isinstance(keep_vars_tau, np.ndarray):
-                if keep_vars_tau.dtype == np.str_:
+                if keep_vars_tau.dtype.kind == "U":
                     if not np.all(np.isin(keep_vars_tau, X_train.columns)):
                         raise ValueError("keep_vars_tau includes some variable names that are not in X_train")
-                    variable_subset_tau = [i for i in range(X_train.shape[1]) if keep_vars_tau.count(X_train.columns.array[i]) > 0]
+                    variable_subset_tau = [i for i in range(X_train.shape[1]) if keep_vars_tau.tolist().count(X_train.columns.array[i]) > 0]
                 else:
                     if np.any(keep_vars_tau >= X_train.shape[1]):
                         raise ValueError("keep_vars_tau includes some variable indices that exceed the number of columns in X_train")
@@ -436,18 +436,18 @@ class BCFModel:
                 else:
                     raise ValueError("drop_vars_tau must be a list of variable names (str) or column indices (int)")
             elif isinstance(drop_vars_tau, np.ndarray):
-                if drop_vars_tau.dtype == np.str_:
+                if drop_vars_tau.dtype.kind == "U":
                     if not np.all(np.isin(drop_vars_tau, X_train.columns)):
                         raise ValueError("drop_vars_tau includes some variable names that are not in X_train")
-                    keep_inds = ~np.isin(X_train.columns.array, drop_vars_tau)
-                    variable_subset_tau = [i for i in keep_inds]
+                    keep_inds = ~np.isin(X_train.columns.array.astype(str), drop_vars_tau)
+                    variable_subset_tau = [i for i in np.flatnonzero(keep_inds)]
                 else:
                     if np.any(drop_vars_tau >= X_train.shape[1]):
                         raise ValueError("drop_vars_tau includes some variable indices that exceed the number of columns in X_train")
                     if np.any(drop_vars_tau < 0):
                         raise ValueError("drop_vars_tau includes some negative variable indices")
                     keep_inds = ~np.isin(np.arange(X_train.shape[1]), drop_vars_tau)
-                    variable_subset_tau = [i for i in keep_inds]
+                    variable_subset_tau = [i for i in np.flatnonzero(keep_inds)]
             else:
                 raise ValueError("drop_vars_tau must be a list or np.array")
         else:
@@ -536,10 +536,10 @@ class BCFModel:
         variable_weights = variable_weights[original_var_indices]*variable_weights_adj
 
         # Create mu and tau specific variable weights with weights zeroed out for excluded variables
-        variable_weights_tau = variable_weights
-        variable_weights_mu = variable_weights
+        variable_weights_tau = variable_weights.copy()
+        variable_weights_mu = variable_weights.copy()
         variable_weights_mu[[variable_subset_mu.count(i) == 0 for i in original_var_indices]] = 0
-        variable_weights_tau[[variable_subset_tau.count(i) == 0 for i in original_var_indices]] <- 0
+        variable_weights_tau[[variable_subset_tau.count(i) == 0 for i in original_var_indices]] = 0
         
         # Update covariates to include propensities if requested
         if propensity_covariate not in ["none", "mu", "tau", "both"]:
-- 
2.43.0


From d762bb37211898c682bcb2a023c6c73847822808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:40 +0000
Subject: [PATCH 27/56] fix: the random seed of a BCF session seeds all of its
 random numbers

---
 stochtree/bcf.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/stochtree/bcf.py b/stochtree/bcf.py
index b2ca8ea..86b9f10 100644
--- a/stochtree/bcf.py
+++ b/stochtree/bcf.py
@@ -488,11 +488,11 @@ class BCFModel:
         if pi_train is None and propensity_covariate != "none":
             self.bart_propensity_model = BARTModel()
             if self.has_test:
-                self.bart_propensity_model.sample(X_train=X_train_processed, y_train=Z_train, X_test=X_test_processed, num_gfr=10, num_mcmc=10)
+                self.bart_propensity_model.sample(X_train=X_train_processed, y_train=Z_train, X_test=X_test_processed, num_gfr=10, num_mcmc=10, random_seed=random_seed)
                 pi_train = np.mean(self.bart_propensity_model.y_hat_train, axis = 1, keepdims = True)
                 pi_test = np.mean(self.bart_propensity_model.y_hat_test, axis = 1, keepdims = True)
             else:
-                self.bart_propensity_model.sample(X_train=X_train_processed, y_train=Z_train, num_gfr=10, num_mcmc=10)
+                self.bart_propensity_model.sample(X_train=X_train_processed, y_train=Z_train, num_gfr=10, num_mcmc=10, random_seed=random_seed)
                 pi_train = np.mean(self.bart_propensity_model.y_hat_train, axis = 1, keepdims = True)
             self.internal_propensity_model = True
         else:
@@ -617,6 +617,9 @@ class BCFModel:
         else:
             cpp_rng = RNG(random_seed)
         
+        # Random number generator of the coding parameters
+        self.rng = np.random.default_rng(None if random_seed is None or random_seed == -1 else random_seed)
+        
         # Sampling data structures
         forest_sampler_mu = ForestSampler(forest_dataset_train, feature_types, num_trees_mu, self.n_train, alpha_mu, beta_mu, min_samples_leaf_mu)
         forest_sampler_tau = ForestSampler(forest_dataset_train, feature_types, num_trees_tau, self.n_train, alpha_tau, beta_tau, min_samples_leaf_tau)
-- 
2.43.0


From c12d8496e3e6bb2852550ac316a0baf0629badc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:40 +0000
Subject: [PATCH 28/56] fix: predict_tau uses the propensity score when both
 forests do

---
 stochtree/bcf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stochtree/bcf.py b/stochtree/bcf.py
index 86b9f10..0b2bedf 100644
--- a/stochtree/bcf.py
+++ b/stochtree/bcf.py
@@ -845,14 +845,14 @@ class BCFModel:
             if propensity.shape[0] != X.shape[0]:
                 raise ValueError("X and propensity must have the same number of rows")
         else:
-            if self.propensity_covariate == "tau":
+            if self.propensity_covariate in ("tau", "both"):
                 if not self.internal_propensity_model:
                     raise ValueError("Propensity scores not provided, but no propensity model was trained during sampling")
                 else:
                     propensity = np.mean(self.bart_propensity_model.predict(X), axis=1, keepdims=True)
         
         # Update covariates to include propensities if requested
-        if self.propensity_covariate == "tau":
+        if self.propensity_covariate in ("tau", "both"):
             X_tau = np.c_[X, propensity]
         else:
             X_tau = X
-- 
2.43.0


From 8c5cb1ebe7ffc0e26fac54479a8d13e9978ee1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:40 +0000
Subject: [PATCH 29/56] fix: sampling a BCF model does not write into the
 caller's leaf scale

---
 stochtree/bcf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stochtree/bcf.py b/stochtree/bcf.py
index 0b2bedf..72cc340 100644
--- a/stochtree/bcf.py
+++ b/stochtree/bcf.py
@@ -528,7 +528,7 @@ class BCFModel:
         if not isinstance(sigma_leaf_tau, np.ndarray):
             current_leaf_scale_tau = np.array([[sigma_leaf_tau]])
         else:
-            current_leaf_scale_tau = sigma_leaf_tau
+            current_leaf_scale_tau = sigma_leaf_tau.copy()
 
         # Update variable weights
         variable_counts = [original_var_indices.count(i) for i in original_var_indices]
-- 
2.43.0


From 5f8a2654989a6972c325e429e29d1c11a86e47bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:40 +0000
Subject: [PATCH 30/56] fix: preprocess integer and string dataframe columns as
 documented

---
 stochtree/preprocessing.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/stochtree/preprocessing.py b/stochtree/preprocessing.py
index b9c6ceb..0186b10 100644
--- a/stochtree/preprocessing.py
+++ b/stochtree/preprocessing.py
@@ -32,7 +32,10 @@ class CovariateTransformer:
     
     def _process_unordered_categorical(self, covariate: pd.Series) -> int:
         num_onehot = len(self._onehot_encoders)
-        category_list = covariate.array.categories.to_list()
+        if isinstance(covariate.dtype, pd.CategoricalDtype):
+            category_list = covariate.array.categories.to_list()
+        else:
+            category_list = sorted(covariate.unique().tolist())
         enc = OneHotEncoder(categories=[category_list], sparse_output=False)
         enc.fit(pd.DataFrame(covariate))
         self._onehot_encoders.append(enc)
@@ -62,7 +65,7 @@ class CovariateTransformer:
         categorical_types = covariates.apply(lambda x: isinstance(x.dtype, pd.CategoricalDtype))
         float_types = covariates.apply(lambda x: pd.api.types.is_float_dtype(x))
         integer_types = covariates.apply(lambda x: pd.api.types.is_integer_dtype(x))
-        string_types = covariates.apply(lambda x: pd.api.types.is_integer_dtype(x))
+        string_types = covariates.apply(lambda x: isinstance(x.dtype, pd.StringDtype))
         if np.any(datetime_types):
             # raise ValueError("DateTime columns are currently unsupported")
             datetime_cols = covariates.columns[datetime_types].to_list()
-- 
2.43.0


From 9b2b09794146c855201d4ee7d73d7494711c9f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:40 +0000
Subject: [PATCH 31/56] fix: read strided residuals and variance weights in
 order

---
 stochtree/data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stochtree/data.py b/stochtree/data.py
index 20b01e6..eb2aab5 100644
--- a/stochtree/data.py
+++ b/stochtree/data.py
@@ -41,10 +41,10 @@ class Dataset:
         Add variance weights to a dataset
         """
         n = variance_weights.size
-        self.dataset_cpp.AddVarianceWeights(variance_weights, n)
+        self.dataset_cpp.AddVarianceWeights(np.ascontiguousarray(variance_weights), n)
 
 class Residual:
     def __init__(self, residual: np.array) -> None:
         # Initialize a ResidualCpp object
         n = residual.size
-        self.residual_cpp = ResidualCpp(residual, n)
+        self.residual_cpp = ResidualCpp(np.ascontiguousarray(residual), n)
-- 
2.43.0


From 6929cadfa384be32dfdab05028c98fb4d95af9d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:40 +0000
Subject: [PATCH 32/56] fix: BCF predictions count the control group's adaptive
 coding

---
 stochtree/bcf.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/stochtree/bcf.py b/stochtree/bcf.py
index 72cc340..292dbb1 100644
--- a/stochtree/bcf.py
+++ b/stochtree/bcf.py
@@ -788,6 +788,7 @@ class BCFModel:
         self.tau_hat_train = tau_raw_train[:,self.keep_indices]
         if self.adaptive_coding:
             adaptive_coding_weights = np.expand_dims(self.b1_samples[self.keep_indices] - self.b0_samples[self.keep_indices], axis=(0,2))
+            self.mu_hat_train = self.mu_hat_train + self.tau_hat_train[:,:,0]*self.b0_samples[self.keep_indices]*self.y_std
             self.tau_hat_train = self.tau_hat_train*adaptive_coding_weights
         self.tau_hat_train = self.tau_hat_train*self.y_std
         treatment_term_train = np.multiply(np.expand_dims(Z_train,1),self.tau_hat_train).sum(axis=2)
@@ -799,6 +800,7 @@ class BCFModel:
             self.tau_hat_test = tau_raw_test[:,self.keep_indices]
             if self.adaptive_coding:
                 adaptive_coding_weights_test = np.expand_dims(self.b1_samples[self.keep_indices] - self.b0_samples[self.keep_indices], axis=(0,2))
+                self.mu_hat_test = self.mu_hat_test + self.tau_hat_test[:,:,0]*self.b0_samples[self.keep_indices]*self.y_std
                 self.tau_hat_test = self.tau_hat_test*adaptive_coding_weights_test
             self.tau_hat_test = self.tau_hat_test*self.y_std
             treatment_term_test = np.multiply(np.expand_dims(Z_test,1),self.tau_hat_test).sum(axis=2)
@@ -952,6 +954,7 @@ class BCFModel:
         # Estimate treatment effect
         tau_raw = self.forest_container_tau.forest_container_cpp.PredictRaw(forest_dataset_tau.dataset_cpp)
         if self.adaptive_coding:
+            mu_x = mu_x + tau_raw[:,self.keep_indices,0]*self.b0_samples[self.keep_indices]*self.y_std
             tau_raw = tau_raw*np.expand_dims(self.b1_samples - self.b0_samples, axis=(0,2))
         tau_raw = tau_raw*self.y_std
         tau_x = tau_raw[:,self.keep_indices]
-- 
2.43.0


From d961c6b15157cf0d4cb13ce4d248e5158a880936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:40 +0000
Subject: [PATCH 33/56] fix: say that propensities of multivariate treatments
 must be given

---
 stochtree/bcf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/stochtree/bcf.py b/stochtree/bcf.py
index 292dbb1..79757bc 100644
--- a/stochtree/bcf.py
+++ b/stochtree/bcf.py
@@ -486,6 +486,8 @@ class BCFModel:
 
         # Check if user has provided propensities that are needed in the model
         if pi_train is None and propensity_covariate != "none":
+            if self.multivariate_treatment:
+                raise ValueError("Propensities of a multivariate treatment are not estimated: pi_train must be provided or propensity_covariate set to 'none'")
             self.bart_propensity_model = BARTModel()
             if self.has_test:
                 self.bart_propensity_model.sample(X_train=X_train_processed, y_train=Z_train, X_test=X_test_processed, num_gfr=10, num_mcmc=10, random_seed=random_seed)
-- 
2.43.0


From 48e5b5e9aa44665bfaaab1f250f3b7aedca3b0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:57 +0000
Subject: [PATCH 34/56] fix: accept read-only arrays, whose values are only
 read

---
 src/py_stochtree.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/py_stochtree.cpp b/src/py_stochtree.cpp
index 9de9d44..4cc6714 100644
--- a/src/py_stochtree.cpp
+++ b/src/py_stochtree.cpp
@@ -35,7 +35,7 @@ class ForestDatasetCpp {
 
   void AddCovariates(py::array_t<double> covariate_matrix, data_size_t num_row, int num_col, bool row_major) {
     // Extract pointer to contiguous block of memory
-    double* data_ptr = static_cast<double*>(covariate_matrix.mutable_data());
+    double* data_ptr = const_cast<double*>(covariate_matrix.data());
     
     // Load covariates
     dataset_->AddCovariates(data_ptr, num_row, num_col, row_major);
@@ -43,7 +43,7 @@ class ForestDatasetCpp {
 
   void AddBasis(py::array_t<double> basis_matrix, data_size_t num_row, int num_col, bool row_major) {
     // Extract pointer to contiguous block of memory
-    double* data_ptr = static_cast<double*>(basis_matrix.mutable_data());
+    double* data_ptr = const_cast<double*>(basis_matrix.data());
     
     // Load covariates
     dataset_->AddBasis(data_ptr, num_row, num_col, row_major);
@@ -51,7 +51,7 @@ class ForestDatasetCpp {
 
   void UpdateBasis(py::array_t<double> basis_matrix, data_size_t num_row, int num_col, bool row_major) {
     // Extract pointer to contiguous block of memory
-    double* data_ptr = static_cast<double*>(basis_matrix.mutable_data());
+    double* data_ptr = const_cast<double*>(basis_matrix.data());
     
     // Load covariates
     dataset_->UpdateBasis(data_ptr, num_row, num_col, row_major);
@@ -59,7 +59,7 @@ class ForestDatasetCpp {
 
   void AddVarianceWeights(py::array_t<double> weight_vector, data_size_t num_row) {
     // Extract pointer to contiguous block of memory
-    double* data_ptr = static_cast<double*>(weight_vector.mutable_data());
+    double* data_ptr = const_cast<double*>(weight_vector.data());
     
     // Load covariates
     dataset_->AddVarianceWeights(data_ptr, num_row);
@@ -81,7 +81,7 @@ class ResidualCpp {
  public:
   ResidualCpp(py::array_t<double> residual_array, data_size_t num_row) {
     // Extract pointer to contiguous block of memory
-    double* data_ptr = static_cast<double*>(residual_array.mutable_data());
+    double* data_ptr = const_cast<double*>(residual_array.data());
     
     // Initialize pointer to C++ ColumnVector class
     residual_ = std::make_unique<StochTree::ColumnVector>(data_ptr, num_row);
-- 
2.43.0


From 0aa6c06c13fe065cef0379bfc71619d3eaf54e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:00 +0000
Subject: [PATCH 35/56] fix: look up random effects labels in the R model being
 predicted

---
 R/bart.R | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/R/bart.R b/R/bart.R
index c9c9e05..08e460b 100644
--- a/R/bart.R
+++ b/R/bart.R
@@ -574,7 +574,7 @@ predict.bartmodel <- function(bart, X_test, W_test = NULL, group_ids_test = NULL
     # Recode group IDs to integer vector (if passed as, for example, a vector of county names, etc...)
     has_rfx <- F
     if (!is.null(group_ids_test)) {
-        rfx_unique_group_ids <- bcf$rfx_unique_group_ids
+        rfx_unique_group_ids <- bart$rfx_unique_group_ids
         group_ids_factor_test <- factor(group_ids_test, levels = rfx_unique_group_ids)
         if (sum(is.na(group_ids_factor_test)) > 0) {
             stop("All random effect group labels provided in group_ids_test must be present in group_ids_train")
-- 
2.43.0


From eee1aa170fd0f1cbd732442df30f75f787d8644b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:00 +0000
Subject: [PATCH 36/56] fix: sample R models with random intercepts and a test
 set

---
 R/bart.R | 2 +-
 R/bcf.R  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/R/bart.R b/R/bart.R
index 08e460b..e67d60a 100644
--- a/R/bart.R
+++ b/R/bart.R
@@ -191,7 +191,7 @@ bart <- function(X_train, y_train, W_train = NULL, group_ids_train = NULL,
     }
     if (has_rfx_test) {
         if (is.null(rfx_basis_test)) {
-            if (!is.null(rfx_basis_train)) {
+            if (has_basis_rfx) {
                 stop("Random effects basis provided for training set, must also be provided for the test set")
             }
             rfx_basis_test <- matrix(rep(1,nrow(X_test)), nrow = nrow(X_test), ncol = 1)
diff --git a/R/bcf.R b/R/bcf.R
index 3425e96..d2c3e15 100644
--- a/R/bcf.R
+++ b/R/bcf.R
@@ -331,7 +331,7 @@ bcf <- function(X_train, Z_train, y_train, pi_train = NULL, group_ids_train = NU
     }
     if (has_rfx_test) {
         if (is.null(rfx_basis_test)) {
-            if (!is.null(rfx_basis_train)) {
+            if (has_basis_rfx) {
                 stop("Random effects basis provided for training set, must also be provided for the test set")
             }
             rfx_basis_test <- matrix(rep(1,nrow(X_test)), nrow = nrow(X_test), ncol = 1)
-- 
2.43.0


From 5156d75059caaa272516ad8d5f89e822e92af1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:00 +0000
Subject: [PATCH 37/56] fix: keep_gfr / keep_burnin without such samples no
 longer fail after sampling in R

---
 R/bart.R | 4 ++--
 R/bcf.R  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/R/bart.R b/R/bart.R
index e67d60a..c22e9e3 100644
--- a/R/bart.R
+++ b/R/bart.R
@@ -402,8 +402,8 @@ bart <- function(X_train, y_train, W_train = NULL, group_ids_train = NULL,
     # Compute retention indices
     if (num_mcmc > 0) {
         keep_indices = mcmc_indices
-        if (keep_gfr) keep_indices <- c(gfr_indices, keep_indices)
-        if (keep_burnin) keep_indices <- c(burnin_indices, keep_indices)
+        if (keep_gfr && (num_gfr > 0)) keep_indices <- c(gfr_indices, keep_indices)
+        if (keep_burnin && (num_burnin > 0)) keep_indices <- c(burnin_indices, keep_indices)
     } else {
         if ((num_gfr > 0) && (num_burnin > 0)) {
             # Override keep_gfr = FALSE since there are no MCMC samples
diff --git a/R/bcf.R b/R/bcf.R
index d2c3e15..b21ae1c 100644
--- a/R/bcf.R
+++ b/R/bcf.R
@@ -730,8 +730,8 @@ bcf <- function(X_train, Z_train, y_train, pi_train = NULL, group_ids_train = NU
     # Compute retention indices
     if (num_mcmc > 0) {
         keep_indices = mcmc_indices
-        if (keep_gfr) keep_indices <- c(gfr_indices, keep_indices)
-        if (keep_burnin) keep_indices <- c(burnin_indices, keep_indices)
+        if (keep_gfr && (num_gfr > 0)) keep_indices <- c(gfr_indices, keep_indices)
+        if (keep_burnin && (num_burnin > 0)) keep_indices <- c(burnin_indices, keep_indices)
     } else {
         if ((num_gfr > 0) && (num_burnin > 0)) {
             # Override keep_gfr = FALSE since there are no MCMC samples
-- 
2.43.0


From d65c2755919a0b1c492dd54bd1bc598e1d4e668a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:00 +0000
Subject: [PATCH 38/56] fix: sample R models with several leaf basis columns

---
 R/bart.R | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/R/bart.R b/R/bart.R
index c22e9e3..06affeb 100644
--- a/R/bart.R
+++ b/R/bart.R
@@ -224,7 +224,11 @@ bart <- function(X_train, y_train, W_train = NULL, group_ids_train = NULL,
     if (is.null(sigma2_init)) sigma2_init <- sigma2hat
     if (is.null(b_leaf)) b_leaf <- var(resid_train)/(2*num_trees)
     if (is.null(tau_init)) tau_init <- var(resid_train)/(num_trees)
-    current_leaf_scale <- as.matrix(tau_init)
+    if ((!is.null(W_train)) && (ncol(W_train) > 1)) {
+        current_leaf_scale <- diag(as.numeric(tau_init), ncol(W_train))
+    } else {
+        current_leaf_scale <- as.matrix(tau_init)
+    }
     current_sigma2 <- sigma2_init
     
     # Determine leaf model type
-- 
2.43.0


From aab156909350109d0d98e31620d9740867d7b75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:00 +0000
Subject: [PATCH 39/56] fix: calibrate lambda with the quantile passed to R
 models

---
 R/bart.R | 2 +-
 R/bcf.R  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/R/bart.R b/R/bart.R
index 06affeb..99d6fba 100644
--- a/R/bart.R
+++ b/R/bart.R
@@ -217,7 +217,7 @@ bart <- function(X_train, y_train, W_train = NULL, group_ids_train = NULL,
     # Calibrate priors for sigma^2 and tau
     reg_basis <- cbind(W_train, X_train)
     sigma2hat <- (sigma(lm(resid_train~reg_basis)))^2
-    quantile_cutoff <- 0.9
+    quantile_cutoff <- q
     if (is.null(lambda)) {
         lambda <- (sigma2hat*qgamma(1-quantile_cutoff,nu))/nu
     }
diff --git a/R/bcf.R b/R/bcf.R
index b21ae1c..fadfa93 100644
--- a/R/bcf.R
+++ b/R/bcf.R
@@ -412,7 +412,7 @@ bcf <- function(X_train, Z_train, y_train, pi_train = NULL, group_ids_train = NU
     # Calibrate priors for global sigma^2 and sigma_leaf_mu / sigma_leaf_tau
     reg_basis <- X_train
     sigma2hat <- mean(resid(lm(resid_train~reg_basis))^2)
-    quantile_cutoff <- 0.9
+    quantile_cutoff <- q
     if (is.null(lambda)) {
         lambda <- (sigma2hat*qgamma(1-quantile_cutoff,nu))/nu
     }
-- 
2.43.0


From 273148b1b93d205ec438c973229c21014ad2fdc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:00 +0000
Subject: [PATCH 40/56] fix: estimate propensity scores in R models fitted
 without them

---
 R/bcf.R | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/R/bcf.R b/R/bcf.R
index fadfa93..8a9a459 100644
--- a/R/bcf.R
+++ b/R/bcf.R
@@ -371,12 +371,16 @@ bcf <- function(X_train, Z_train, y_train, pi_train = NULL, group_ids_train = NU
     # Estimate if pre-estimated propensity score is not provided
     if ((is.null(pi_train)) && (propensity_covariate != "none")) {
         # Estimate using the last of several iterations of GFR BART
-        num_burnin <- 10
+        num_burnin_propensity <- 10
         num_total <- 50
         bart_model_propensity <- bart(X_train = X_train_raw, y_train = as.numeric(Z_train), X_test = X_test_raw, 
                                       num_gfr = num_total, num_burnin = 0, num_mcmc = 0)
-        pi_train <- rowMeans(bart_model_propensity$y_hat_train[(num_burnin+1):num_total])
-        if (has_test) pi_test <- rowMeans(bart_model_propensity$y_hat_test[,(num_burnin+1):num_total])
+        propensity_indices <- (num_burnin_propensity+1):num_total
+        pi_train <- as.matrix(rowMeans(bart_model_propensity$y_hat_train[,propensity_indices,drop=F]))
+        if (has_test) {
+            y_hat_test_propensity <- matrix(bart_model_propensity$y_hat_test, nrow = nrow(X_test))
+            pi_test <- as.matrix(rowMeans(y_hat_test_propensity[,propensity_indices,drop=F]))
+        }
     }
 
     if (has_test) {
-- 
2.43.0


From 124c08b6259b65b462f05b7d4ba8a292ac61039c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:00 +0000
Subject: [PATCH 41/56] fix: R models without propensity covariates need no
 test set propensities

---
 R/bcf.R | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/R/bcf.R b/R/bcf.R
index 8a9a459..d8fa2cd 100644
--- a/R/bcf.R
+++ b/R/bcf.R
@@ -383,7 +383,7 @@ bcf <- function(X_train, Z_train, y_train, pi_train = NULL, group_ids_train = NU
         }
     }
 
-    if (has_test) {
+    if ((has_test) && (propensity_covariate != "none")) {
         if (is.null(pi_test)) stop("Propensity score must be provided for the test set if provided for the training set")
     }
     
@@ -963,6 +963,7 @@ predict.bcf <- function(bcf, X_test, Z_test, pi_test = NULL, group_ids_test = NU
     }
     
     # Add propensities to any covariate set
+    X_test_mu <- X_test_tau <- X_test
     if (bcf$model_params$propensity_covariate == "both") {
         X_test_mu <- cbind(X_test, pi_test)
         X_test_tau <- cbind(X_test, pi_test)
-- 
2.43.0


From 7e147a5567697883c5392d8a5a4259566fb5be32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:00 +0000
Subject: [PATCH 42/56] fix: random effects of R causal models: intercepts,
 prior variances and small groups

---
 R/bcf.R | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/R/bcf.R b/R/bcf.R
index d8fa2cd..b913528 100644
--- a/R/bcf.R
+++ b/R/bcf.R
@@ -296,16 +296,6 @@ bcf <- function(X_train, Z_train, y_train, pi_train = NULL, group_ids_train = NU
         }
     }
 
-    # Random effects covariance prior
-    if (has_rfx) {
-        if (is.null(rfx_prior_var)) {
-            rfx_prior_var <- rep(1, ncol(rfx_basis_train))
-        } else {
-            if ((!is.integer(rfx_prior_var)) && (!is.numeric(rfx_prior_var))) stop("rfx_prior_var must be a numeric vector")
-            if (length(rfx_prior_var) != ncol(rfx_basis_train)) stop("length(rfx_prior_var) must equal ncol(rfx_basis_train)")
-        }
-    }
-    
     # Update variable weights
     variable_weights_adj <- 1/sapply(original_var_indices, function(x) sum(original_var_indices == x))
     variable_weights <- variable_weights[original_var_indices]*variable_weights_adj
@@ -329,6 +319,16 @@ bcf <- function(X_train, Z_train, y_train, pi_train = NULL, group_ids_train = NU
         num_rfx_components <- ncol(rfx_basis_train)
         if (num_rfx_groups == 1) warning("Only one group was provided for random effect sampling, so the 'redundant parameterization' is likely overkill")
     }
+    # Random effects covariance prior
+    if (has_rfx) {
+        if (is.null(rfx_prior_var)) {
+            rfx_prior_var <- rep(1, ncol(rfx_basis_train))
+        } else {
+            if ((!is.integer(rfx_prior_var)) && (!is.numeric(rfx_prior_var))) stop("rfx_prior_var must be a numeric vector")
+            if (length(rfx_prior_var) != ncol(rfx_basis_train)) stop("length(rfx_prior_var) must equal ncol(rfx_basis_train)")
+        }
+    }
+
     if (has_rfx_test) {
         if (is.null(rfx_basis_test)) {
             if (has_basis_rfx) {
@@ -445,8 +445,10 @@ bcf <- function(X_train, Z_train, y_train, pi_train = NULL, group_ids_train = NU
             rfx_group_model <- lm(resid_group ~ 0+basis_group)
             xi_init[,i] <- unname(coef(rfx_group_model))
         }
+        # Coefficients that the observations of a group do not identify
+        xi_init[is.na(xi_init)] <- 0
         sigma_alpha_init <- diag(1,num_rfx_components,num_rfx_components)
-        sigma_xi_init <- diag(rfx_prior_var)
+        sigma_xi_init <- diag(as.numeric(rfx_prior_var),num_rfx_components,num_rfx_components)
         sigma_xi_shape <- 1
         sigma_xi_scale <- 1
     }
-- 
2.43.0


From 6b00e22d3d95d0fb2a1a8c971ce8c17d0a1bbbc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:00 +0000
Subject: [PATCH 43/56] fix: R causal model predictions count the control
 group's adaptive coding

---
 R/bcf.R | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/R/bcf.R b/R/bcf.R
index b913528..734a323 100644
--- a/R/bcf.R
+++ b/R/bcf.R
@@ -707,6 +707,8 @@ bcf <- function(X_train, Z_train, y_train, pi_train = NULL, group_ids_train = NU
     mu_hat_train <- forest_samples_mu$predict(forest_dataset_train)*y_std_train + y_bar_train
     if (adaptive_coding) {
         tau_hat_train_raw <- forest_samples_tau$predict_raw(forest_dataset_train)
+        # Under adaptive coding, b_0*tau(X) is part of the prognostic term
+        mu_hat_train <- mu_hat_train + t(t(tau_hat_train_raw) * b_0_samples)*y_std_train
         tau_hat_train <- t(t(tau_hat_train_raw) * (b_1_samples - b_0_samples))*y_std_train
     } else {
         tau_hat_train <- forest_samples_tau$predict_raw(forest_dataset_train)*y_std_train
@@ -716,6 +718,7 @@ bcf <- function(X_train, Z_train, y_train, pi_train = NULL, group_ids_train = NU
         mu_hat_test <- forest_samples_mu$predict(forest_dataset_test)*y_std_train + y_bar_train
         if (adaptive_coding) {
             tau_hat_test_raw <- forest_samples_tau$predict_raw(forest_dataset_test)
+            mu_hat_test <- mu_hat_test + t(t(tau_hat_test_raw) * b_0_samples)*y_std_train
             tau_hat_test <- t(t(tau_hat_test_raw) * (b_1_samples - b_0_samples))*y_std_train
         } else {
             tau_hat_test <- forest_samples_tau$predict_raw(forest_dataset_test)*y_std_train
@@ -987,6 +990,8 @@ predict.bcf <- function(bcf, X_test, Z_test, pi_test = NULL, group_ids_test = NU
     mu_hat_test <- bcf$forests_mu$predict(prediction_dataset_mu)*y_std + y_bar
     if (bcf$model_params$adaptive_coding) {
         tau_hat_test_raw <- bcf$forests_tau$predict_raw(prediction_dataset_tau)
+        # Under adaptive coding, b_0*tau(X) is part of the prognostic term
+        mu_hat_test <- mu_hat_test + t(t(tau_hat_test_raw) * bcf$b_0_samples)*y_std
         tau_hat_test <- t(t(tau_hat_test_raw) * (bcf$b_1_samples - bcf$b_0_samples))*y_std
     } else {
         tau_hat_test <- bcf$forests_tau$predict_raw(prediction_dataset_tau)*y_std
-- 
2.43.0


From 667d59c9b6c0e2a5d4ea9fed21d97f55979adf42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:00 +0000
Subject: [PATCH 44/56] fix: the random seed of an R causal model seeds all of
 its random numbers

---
 R/bcf.R | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/R/bcf.R b/R/bcf.R
index 734a323..8852b48 100644
--- a/R/bcf.R
+++ b/R/bcf.R
@@ -122,6 +122,18 @@ bcf <- function(X_train, Z_train, y_train, pi_train = NULL, group_ids_train = NU
                 num_gfr = 5, num_burnin = 0, num_mcmc = 100, sample_sigma_global = T, sample_sigma_leaf_mu = T, 
                 sample_sigma_leaf_tau = F, propensity_covariate = "mu", adaptive_coding = T, b_0 = -0.5, 
                 b_1 = 0.5, rfx_prior_var = NULL, random_seed = -1, keep_burnin = F, keep_gfr = F, verbose = F) {
+    # Coding parameters are drawn from R's generator: seed it along with the C++ generator
+    # and give its state back to the caller
+    if ((!is.null(random_seed)) && (random_seed != -1)) {
+        has_seed <- exists(".Random.seed", envir = globalenv(), inherits = FALSE)
+        if (has_seed) old_seed <- get(".Random.seed", envir = globalenv(), inherits = FALSE)
+        on.exit({
+            if (has_seed) assign(".Random.seed", old_seed, envir = globalenv())
+            else if (exists(".Random.seed", envir = globalenv(), inherits = FALSE)) rm(".Random.seed", envir = globalenv())
+        })
+        set.seed(random_seed, kind = "Mersenne-Twister", normal.kind = "Inversion", sample.kind = "Rejection")
+    }
+    
     # Variable weight preprocessing (and initialization if necessary)
     if (is.null(variable_weights)) {
         variable_weights = rep(1/ncol(X_train), ncol(X_train))
@@ -374,7 +386,8 @@ bcf <- function(X_train, Z_train, y_train, pi_train = NULL, group_ids_train = NU
         num_burnin_propensity <- 10
         num_total <- 50
         bart_model_propensity <- bart(X_train = X_train_raw, y_train = as.numeric(Z_train), X_test = X_test_raw, 
-                                      num_gfr = num_total, num_burnin = 0, num_mcmc = 0)
+                                      num_gfr = num_total, num_burnin = 0, num_mcmc = 0, 
+                                      random_seed = random_seed)
         propensity_indices <- (num_burnin_propensity+1):num_total
         pi_train <- as.matrix(rowMeans(bart_model_propensity$y_hat_train[,propensity_indices,drop=F]))
         if (has_test) {
-- 
2.43.0


From 570040e36c69708c0626c840d2693e1016b5ca2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:00 +0000
Subject: [PATCH 45/56] fix: R label mappings keep their names and scalars are
 read as scalars

---
 R/random_effects.R | 2 +-
 R/serialization.R  | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/R/random_effects.R b/R/random_effects.R
index 4b333a8..a5152c4 100644
--- a/R/random_effects.R
+++ b/R/random_effects.R
@@ -121,7 +121,7 @@ RandomEffectSamples <- R6::R6Class(
         extract_label_mapping = function() {
             keys_and_vals <- rfx_label_mapper_to_list_cpp(self$label_mapper_ptr)
             result <- as.list(keys_and_vals[[2]] + 1)
-            setNames(result, keys_and_vals[[1]])
+            result <- setNames(result, keys_and_vals[[1]])
             return(result)
         }
     )
diff --git a/R/serialization.R b/R/serialization.R
index eda655f..ead94f2 100644
--- a/R/serialization.R
+++ b/R/serialization.R
@@ -350,9 +350,9 @@ loadVectorJson <- function(json_object, json_vector_label, subfolder_name = NULL
 #' @export
 loadScalarJson <- function(json_object, json_scalar_label, subfolder_name = NULL) {
     if (is.null(subfolder_name)) {
-        output <- json_object$get_vector(json_scalar_label, subfolder_name)
+        output <- json_object$get_scalar(json_scalar_label, subfolder_name)
     } else {
-        output <- json_object$get_vector(json_scalar_label, subfolder_name)
+        output <- json_object$get_scalar(json_scalar_label, subfolder_name)
     }
     return(output)
 }
-- 
2.43.0


From a15bff3465af3a016fe0f09c4af7c3f18dd5535b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:02 +0000
Subject: [PATCH 46/56] fix: bcf without a propensity covariate passes integer
 feature types

---
 R/bcf.R | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/R/bcf.R b/R/bcf.R
index 8852b48..eebdc64 100644
--- a/R/bcf.R
+++ b/R/bcf.R
@@ -227,7 +227,7 @@ bcf <- function(X_train, Z_train, y_train, pi_train = NULL, group_ids_train = NU
     X_train_raw <- X_train
     X_train <- train_cov_preprocess_list$data
     original_var_indices <- X_train_metadata$original_var_indices
-    feature_types <- X_train_metadata$feature_types
+    feature_types <- as.integer(X_train_metadata$feature_types)
     X_test_raw <- X_test
     if (!is.null(X_test)) X_test <- preprocessPredictionData(X_test, X_train_metadata)
     
-- 
2.43.0


From 7a4cdb24eb3a912bf13aff5ea92a03d7787b1355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:02 +0000
Subject: [PATCH 47/56] fix: predict.bcf compares the number of covariates
 before categorical columns are expanded

---
 R/bcf.R | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/R/bcf.R b/R/bcf.R
index eebdc64..7e26798 100644
--- a/R/bcf.R
+++ b/R/bcf.R
@@ -929,6 +929,7 @@ predict.bcf <- function(bcf, X_test, Z_test, pi_test = NULL, group_ids_test = NU
     if ((!is.data.frame(X_test)) && (!is.matrix(X_test))) {
         stop("X_test must be a matrix or dataframe")
     }
+    num_cov_orig <- ncol(X_test)
     train_set_metadata <- bcf$train_set_metadata
     X_test <- preprocessPredictionData(X_test, train_set_metadata)
     
@@ -950,7 +951,7 @@ predict.bcf <- function(bcf, X_test, Z_test, pi_test = NULL, group_ids_test = NU
     if (nrow(X_test) != nrow(Z_test)) {
         stop("X_test and Z_test must have the same number of rows")
     }
-    if (bcf$model_params$num_covariates != ncol(X_test)) {
+    if (bcf$model_params$num_covariates != num_cov_orig) {
         stop("X_test and must have the same number of columns as the covariates used to train the model")
     }
     if ((bcf$model_params$has_rfx) && (is.null(group_ids_test))) {
-- 
2.43.0


From 05671c42a67dc289abdab730fab6d153807fd97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:02 +0000
Subject: [PATCH 48/56] fix: computeForestKernels accepts a missing test set,
 as documented

---
 R/kernel.R | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/R/kernel.R b/R/kernel.R
index 5b19908..a6cc637 100644
--- a/R/kernel.R
+++ b/R/kernel.R
@@ -148,16 +148,16 @@ computeForestKernels <- function(bart_model, X_train, X_test=NULL, forest_num=NU
     if (!is.data.frame(X_train)) {
         stop("X_train must be a dataframe")
     }
-    if (!is.data.frame(X_test)) {
+    if ((!is.null(X_test)) && (!is.data.frame(X_test))) {
         stop("X_test must be a dataframe")
     }
     train_set_metadata <- bart_model$train_set_metadata
     X_train <- preprocessPredictionDataFrame(X_train, train_set_metadata)
-    X_test <- preprocessPredictionDataFrame(X_test, train_set_metadata)
+    if (!is.null(X_test)) X_test <- preprocessPredictionDataFrame(X_test, train_set_metadata)
     
     # Data checks
     stopifnot(bart_model$model_params$num_covariates == ncol(X_train))
-    stopifnot(bart_model$model_params$num_covariates == ncol(X_test))
+    stopifnot(is.null(X_test) || (bart_model$model_params$num_covariates == ncol(X_test)))
 
     # Initialize and compute kernel
     forest_kernel <- createForestKernel()
-- 
2.43.0


From 3a2dd1b786f6d15c3ec4c95e1b29cbf757755cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:39 +0000
Subject: [PATCH 49/56] fix: R datasets and outcomes accept matrices and
 vectors stored as integers

---
 R/data.R | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/R/data.R b/R/data.R
index a070e54..66a4760 100644
--- a/R/data.R
+++ b/R/data.R
@@ -20,6 +20,10 @@ ForestDataset <- R6::R6Class(
         #' @param variance_weights (Optional) Vector of observation-specific variance weights
         #' @return A new `ForestDataset` object.
         initialize = function(covariates, basis=NULL, variance_weights=NULL) {
+            # Data stored as integers is valid, but must be passed to C++ as doubles
+            if (is.integer(covariates)) storage.mode(covariates) <- "double"
+            if (is.integer(basis)) storage.mode(basis) <- "double"
+            if (is.integer(variance_weights)) storage.mode(variance_weights) <- "double"
             self$data_ptr <- create_forest_dataset_cpp()
             forest_dataset_add_covariates_cpp(self$data_ptr, covariates)
             if (!is.null(basis)) {
@@ -35,6 +39,7 @@ ForestDataset <- R6::R6Class(
         #' @param basis Updated matrix of bases used to define a leaf regression
         update_basis = function(basis) {
             stopifnot(self$has_basis())
+            if (is.integer(basis)) storage.mode(basis) <- "double"
             forest_dataset_update_basis_cpp(self$data_ptr, basis)
         }, 
         
@@ -98,6 +103,7 @@ Outcome <- R6::R6Class(
         #' @param outcome Vector of outcome values
         #' @return A new `Outcome` object.
         initialize = function(outcome) {
+            if (is.integer(outcome)) storage.mode(outcome) <- "double"
             self$data_ptr <- create_column_vector_cpp(outcome)
         }
     )
@@ -124,6 +130,8 @@ RandomEffectsDataset <- R6::R6Class(
         #' @param variance_weights (Optional) Vector of observation-specific variance weights
         #' @return A new `RandomEffectsDataset` object.
         initialize = function(group_labels, basis, variance_weights=NULL) {
+            if (is.integer(basis)) storage.mode(basis) <- "double"
+            if (is.integer(variance_weights)) storage.mode(variance_weights) <- "double"
             self$data_ptr <- create_rfx_dataset_cpp()
             rfx_dataset_add_group_labels_cpp(self$data_ptr, group_labels)
             rfx_dataset_add_basis_cpp(self$data_ptr, basis)
-- 
2.43.0


From df6dc5debfb37c9c0e026d96edb1e6f304b7be86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:30 +0000
Subject: [PATCH 50/56] fix: calibrate bart's error variance from the outcome
 when the regression has no residual degrees of freedom

---
 R/bart.R | 1 +
 1 file changed, 1 insertion(+)

diff --git a/R/bart.R b/R/bart.R
index 99d6fba..de31283 100644
--- a/R/bart.R
+++ b/R/bart.R
@@ -217,6 +217,7 @@ bart <- function(X_train, y_train, W_train = NULL, group_ids_train = NULL,
     # Calibrate priors for sigma^2 and tau
     reg_basis <- cbind(W_train, X_train)
     sigma2hat <- (sigma(lm(resid_train~reg_basis)))^2
+    if (!is.finite(sigma2hat)) sigma2hat <- as.numeric(var(resid_train))  # no residual degrees of freedom
     quantile_cutoff <- q
     if (is.null(lambda)) {
         lambda <- (sigma2hat*qgamma(1-quantile_cutoff,nu))/nu
-- 
2.43.0


From 45c18ecaf402ccdeb2514899f6509159f877e0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:58 +0000
Subject: [PATCH 51/56] fix: refresh the residual when BCF draws new coding
 parameters (Python)

---
 stochtree/bcf.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/stochtree/bcf.py b/stochtree/bcf.py
index 79757bc..4c7df30 100644
--- a/stochtree/bcf.py
+++ b/stochtree/bcf.py
@@ -696,7 +696,10 @@ class BCFModel:
                     current_b_1 = self.rng.normal(loc = (s_ty1/(s_tt1 + 2*current_sigma2)), 
                                              scale = np.sqrt(current_sigma2/(s_tt1 + 2*current_sigma2)), size = 1)
                     tau_basis_train = (1-np.squeeze(Z_train))*current_b_0 + np.squeeze(Z_train)*current_b_1
+                    # Refresh the treatment forest's contribution to the residual, which depends on the basis
+                    forest_sampler_tau.update_residual(forest_dataset_train, residual_train, self.forest_container_tau, True, i, True)
                     forest_dataset_train.update_basis(tau_basis_train)
+                    forest_sampler_tau.update_residual(forest_dataset_train, residual_train, self.forest_container_tau, True, i, False)
                     if self.has_test:
                         tau_basis_test = (1-np.squeeze(Z_test))*current_b_0 + np.squeeze(Z_test)*current_b_1
                         forest_dataset_test.update_basis(tau_basis_test)
@@ -752,7 +755,10 @@ class BCFModel:
                     current_b_1 = self.rng.normal(loc = (s_ty1/(s_tt1 + 2*current_sigma2)), 
                                              scale = np.sqrt(current_sigma2/(s_tt1 + 2*current_sigma2)), size = 1)
                     tau_basis_train = (1-np.squeeze(Z_train))*current_b_0 + np.squeeze(Z_train)*current_b_1
+                    # Refresh the treatment forest's contribution to the residual, which depends on the basis
+                    forest_sampler_tau.update_residual(forest_dataset_train, residual_train, self.forest_container_tau, True, i, True)
                     forest_dataset_train.update_basis(tau_basis_train)
+                    forest_sampler_tau.update_residual(forest_dataset_train, residual_train, self.forest_container_tau, True, i, False)
                     if self.has_test:
                         tau_basis_test = (1-np.squeeze(Z_test))*current_b_0 + np.squeeze(Z_test)*current_b_1
                         forest_dataset_test.update_basis(tau_basis_test)
-- 
2.43.0


From cc15e5d77e78af1af5dd607291a6f6d0aa1c6d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:58 +0000
Subject: [PATCH 52/56] fix: refresh the residual when bcf draws new coding
 parameters (R)

---
 R/bcf.R | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/R/bcf.R b/R/bcf.R
index 7e26798..75e8b06 100644
--- a/R/bcf.R
+++ b/R/bcf.R
@@ -589,15 +589,16 @@ bcf <- function(X_train, Z_train, y_train, pi_train = NULL, group_ids_train = NU
                 
                 # Update basis for the leaf regression
                 tau_basis_train <- (1-Z_train)*current_b_0 + Z_train*current_b_1
+                # (the treatment forest's contribution to the residual depends on the basis)
+                forest_samples_tau$update_residual(forest_dataset_train, outcome_train, forest_model_tau, T, i-1, T)
                 forest_dataset_train$update_basis(tau_basis_train)
+                forest_samples_tau$update_residual(forest_dataset_train, outcome_train, forest_model_tau, T, i-1, F)
                 b_0_samples[i] <- current_b_0
                 b_1_samples[i] <- current_b_1
                 if (has_test) {
                     tau_basis_test <- (1-Z_test)*current_b_0 + Z_test*current_b_1
                     forest_dataset_test$update_basis(tau_basis_test)
                 }
-                
-                # TODO Update leaf predictions and residual
             }
             
             # Sample variance parameters (if requested)
@@ -687,7 +688,10 @@ bcf <- function(X_train, Z_train, y_train, pi_train = NULL, group_ids_train = NU
                 
                 # Update basis for the leaf regression
                 tau_basis_train <- (1-Z_train)*current_b_0 + Z_train*current_b_1
+                # (the treatment forest's contribution to the residual depends on the basis)
+                forest_samples_tau$update_residual(forest_dataset_train, outcome_train, forest_model_tau, T, i-1, T)
                 forest_dataset_train$update_basis(tau_basis_train)
+                forest_samples_tau$update_residual(forest_dataset_train, outcome_train, forest_model_tau, T, i-1, F)
                 b_0_samples[i] <- current_b_0
                 b_1_samples[i] <- current_b_1
                 if (has_test) {
@@ -695,8 +699,6 @@ bcf <- function(X_train, Z_train, y_train, pi_train = NULL, group_ids_train = NU
                     forest_dataset_test$update_basis(tau_basis_test)
                 }
                 
-                # TODO Update leaf predictions and residual
-                
             }
             
             # Sample variance parameters (if requested)
-- 
2.43.0


From eb170badda2e27a8bd6bbb4e11d0661781100062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:30 +0000
Subject: [PATCH 53/56] fix: keep offering cutpoints after a run of equal
 values when cutpoints are thinned

A bin could only be closed at exactly the step size, so a tie there swallowed all later cutpoints of the feature.
---
 src/cutpoint_candidates.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cutpoint_candidates.cpp b/src/cutpoint_candidates.cpp
index 4a0845c..9a9e6e0 100644
--- a/src/cutpoint_candidates.cpp
+++ b/src/cutpoint_candidates.cpp
@@ -304,7 +304,7 @@ void FeatureCutpointGrid::ScanNumericCutpoints(Eigen::MatrixXd& covariates, Eige
     } else {
       next_sort_ind = feature_node_sort_tracker->SortIndex(i + 1, feature_index);
       next_val = covariates(next_sort_ind, feature_index);
-      bin_complete = ((stride_length <= step_size) && ((stride_length + 1) > step_size));
+      bin_complete = (stride_length >= step_size);
       stride_complete = ((bin_complete) && (std::fabs(next_val - current_val) > StochTree::kEpsilon));
       if (stride_complete) {
         // Update bin vectors
-- 
2.43.0


From 2cfce5fe4b7c36a2e753d7677227ad997f686517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:30 +0000
Subject: [PATCH 54/56] fix: offer no more cutpoints than the cutpoint grid
 size

The step size was rounded down, so up to twice the documented maximum was considered.
---
 src/cutpoint_candidates.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cutpoint_candidates.cpp b/src/cutpoint_candidates.cpp
index 9a9e6e0..a8695a0 100644
--- a/src/cutpoint_candidates.cpp
+++ b/src/cutpoint_candidates.cpp
@@ -286,7 +286,7 @@ void FeatureCutpointGrid::ScanNumericCutpoints(Eigen::MatrixXd& covariates, Eige
   bool last_element;
   bool stride_complete;
   bool bin_complete;
-  double step_size = node_size / cutpoint_grid_size_;
+  data_size_t step_size = (node_size + cutpoint_grid_size_ - 1) / cutpoint_grid_size_;
   double current_val, next_val;
   for (data_size_t i = node_begin; i < node_end; i++){
     current_sort_ind = feature_node_sort_tracker->SortIndex(i, feature_index);
-- 
2.43.0


From 974d51d42ea2ee01f19677075e50b92c5140983d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:30 +0000
Subject: [PATCH 55/56] fix: let Tree::InplacePredictFromNodes write to the
 caller's vector

---
 include/stochtree/tree.h | 2 +-
 src/tree.cpp             | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/stochtree/tree.h b/include/stochtree/tree.h
index bbacd56..fc22431 100644
--- a/include/stochtree/tree.h
+++ b/include/stochtree/tree.h
@@ -223,7 +223,7 @@ class Tree {
   /*! \brief Predict a tree based on node membership indices
    * TODO: generalize to vector leaves
    */
-  void InplacePredictFromNodes(std::vector<double> result, std::vector<std::int32_t> node_indices);
+  void InplacePredictFromNodes(std::vector<double>& result, std::vector<std::int32_t> node_indices);
   std::vector<double> PredictFromNodes(std::vector<std::int32_t> node_indices);
   std::vector<double> PredictFromNodes(std::vector<std::int32_t> node_indices, Eigen::MatrixXd& basis);
   double PredictFromNode(std::int32_t node_id);
diff --git a/src/tree.cpp b/src/tree.cpp
index 26297ec..132ff66 100644
--- a/src/tree.cpp
+++ b/src/tree.cpp
@@ -38,7 +38,7 @@ std::int32_t Tree::NumSplitNodes() const {
   return splits;
 }
 
-void Tree::InplacePredictFromNodes(std::vector<double> result, std::vector<std::int32_t> node_indices) {
+void Tree::InplacePredictFromNodes(std::vector<double>& result, std::vector<std::int32_t> node_indices) {
   if (result.size() != node_indices.size()) {
     Log::Fatal("Indices and result vector are different sizes");
   }
-- 
2.43.0


From ee8c18b87df909f4421c3a11207c7bc2f49ee3f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:30 +0000
Subject: [PATCH 56/56] fix: calibrate the error variance from the outcome when
 the regression interpolates it

With at least as many columns as rows the residual variance is numerically zero, and sampling with a fixed
error variance gave NaN.
---
 R/bcf.R           | 4 +++-
 stochtree/bart.py | 3 +++
 stochtree/bcf.py  | 3 +++
 3 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/R/bcf.R b/R/bcf.R
index 75e8b06..86fabdc 100644
--- a/R/bcf.R
+++ b/R/bcf.R
@@ -428,7 +428,9 @@ bcf <- function(X_train, Z_train, y_train, pi_train = NULL, group_ids_train = NU
     
     # Calibrate priors for global sigma^2 and sigma_leaf_mu / sigma_leaf_tau
     reg_basis <- X_train
-    sigma2hat <- mean(resid(lm(resid_train~reg_basis))^2)
+    reg_soln <- lm(resid_train~reg_basis)
+    sigma2hat <- mean(resid(reg_soln)^2)
+    if (reg_soln$df.residual == 0) sigma2hat <- as.numeric(var(resid_train))  # no residual degrees of freedom
     quantile_cutoff <- q
     if (is.null(lambda)) {
         lambda <- (sigma2hat*qgamma(1-quantile_cutoff,nu))/nu
diff --git a/stochtree/bart.py b/stochtree/bart.py
index 72f22ca..8ebae11 100644
--- a/stochtree/bart.py
+++ b/stochtree/bart.py
@@ -180,6 +180,9 @@ class BARTModel:
                 # lstsq does not return the residual sum of squares of a rank-deficient regression
                 sum_sq_resid = np.sum(np.square(np.squeeze(resid_train) - reg_basis @ reg_soln[0]))
             sigma2hat = sum_sq_resid / self.n_train
+            if reg_soln[2] >= self.n_train:
+                # the regression has no residual degrees of freedom
+                sigma2hat = np.var(resid_train)
         if lamb is None:
             quantile_cutoff = q
             lamb = (sigma2hat*gamma.ppf(1-quantile_cutoff,nu))/nu
diff --git a/stochtree/bcf.py b/stochtree/bcf.py
index 4c7df30..2d2b88e 100644
--- a/stochtree/bcf.py
+++ b/stochtree/bcf.py
@@ -514,6 +514,9 @@ class BCFModel:
                 # lstsq does not return the residual sum of squares of a rank-deficient regression
                 sum_sq_resid = np.sum(np.square(np.squeeze(resid_train) - reg_basis @ reg_soln[0]))
             sigma2hat = sum_sq_resid / self.n_train
+            if reg_soln[2] >= self.n_train:
+                # the regression has no residual degrees of freedom
+                sigma2hat = np.var(resid_train)
         if lamb is None:
             quantile_cutoff = q
             lamb = (sigma2hat*gamma.ppf(1-quantile_cutoff,nu))/nu
-- 
2.43.0

