From 9a8e07fc392a3c786577a1d906312c7e50b35a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:09 +0000
Subject: [PATCH 01/32] fix: messages of binary factors were computed on the
 transposed factor

---
 src/src/structure/SpecialFactors.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/src/structure/SpecialFactors.cpp b/src/src/structure/SpecialFactors.cpp
index d1f11a2..d470a10 100644
--- a/src/src/structure/SpecialFactors.cpp
+++ b/src/src/structure/SpecialFactors.cpp
@@ -144,8 +144,8 @@ void fill_message(const UnaryFactor &merged_unaries,
                   const Immutable &binary_factor, Function &recipient) {
   std::size_t message_pos;
   std::size_t sender_pos;
-  get_positions(binary_factor, merged_unaries.getVariable(), message_pos,
-                sender_pos);
+  get_positions(binary_factor, merged_unaries.getVariable(), sender_pos,
+                message_pos);
   std::size_t message_size =
       binary_factor.function().vars().getVariables()[message_pos]->size();
   for (std::size_t r = 0; r < message_size; ++r) {
-- 
2.43.0


From 87c3a5ba505973abd7d056439b24baf885d22fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:19 +0000
Subject: [PATCH 02/32] fix: removing an evidence re-activated the connections
 to variables still observed

---
 src/src/structure/EvidenceManager.cpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/src/structure/EvidenceManager.cpp b/src/src/structure/EvidenceManager.cpp
index c7e7a33..78e6a34 100644
--- a/src/src/structure/EvidenceManager.cpp
+++ b/src/src/structure/EvidenceManager.cpp
@@ -76,10 +76,22 @@ void EvidenceRemover::removeEvidence_(const categoric::VariablePtr &variable) {
   resetBelief();
   state.evidences.erase(evidence_it);
   auto &node = *state.nodes[variable].get();
-  while (!node.disabled_connections.empty()) {
-    auto it = node.disabled_connections.begin();
-    it->first->merged_unaries.reset();
-    Node::activate(node, *it->first, it->second.factor);
+  std::vector<Node *> connected_nodes;
+  for (auto &[connected_node, connection] : node.disabled_connections) {
+    connected_nodes.push_back(connected_node);
+  }
+  for (auto *connected_node : connected_nodes) {
+    connected_node->merged_unaries.reset();
+    auto &connection = node.disabled_connections.find(connected_node)->second;
+    auto connected_evidence = state.evidences.find(connected_node->variable);
+    if (connected_evidence == state.evidences.end()) {
+      Node::activate(node, *connected_node, connection.factor);
+    } else {
+      // the connected node is still observed
+      connection.message = std::make_unique<factor::Evidence>(
+          *connection.factor, connected_node->variable,
+          connected_evidence->second);
+    }
   }
   node.merged_unaries.reset();
 }
-- 
2.43.0


From ee377801b3e0e0ebf88fc8c707ac4b4558ea6141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:19 +0000
Subject: [PATCH 03/32] fix: a refused removal of evidences left the model half
 updated

---
 src/src/structure/EvidenceManager.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/src/structure/EvidenceManager.cpp b/src/src/structure/EvidenceManager.cpp
index 78e6a34..28b6457 100644
--- a/src/src/structure/EvidenceManager.cpp
+++ b/src/src/structure/EvidenceManager.cpp
@@ -110,6 +110,12 @@ void EvidenceRemover::removeEvidences(
   if (variables.empty()) {
     return;
   }
+  const auto &evidences = this->state().evidences;
+  for (const auto &variable : variables) {
+    if (evidences.find(variable) == evidences.end()) {
+      throw Error::make(variable->name(), " is not an evidence");
+    }
+  }
   for (const auto &variable : variables) {
     removeEvidence_(variable);
   }
-- 
2.43.0


From 36e3bf75eb7d52060d644e7d44b0874bf0de59a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:13 +0000
Subject: [PATCH 04/32] fix: changing weights left stale cached unary factors
 and evidence messages

---
 .../structure/bases/FactorsAware.h               |  6 ++++++
 src/src/structure/bases/FactorsAware.cpp         | 16 ++++++++++++++++
 src/src/trainable/FactorsTunableManager.cpp      |  4 +++-
 3 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/header/EasyFactorGraph/structure/bases/FactorsAware.h b/src/header/EasyFactorGraph/structure/bases/FactorsAware.h
index f796d7b..69a3411 100644
--- a/src/header/EasyFactorGraph/structure/bases/FactorsAware.h
+++ b/src/header/EasyFactorGraph/structure/bases/FactorsAware.h
@@ -21,6 +21,12 @@ public:
 protected:
   void addDistribution(const EFG::factor::ImmutablePtr &distribution);
 
+  /**
+   * @brief to be called when the images of some of the factors already part of
+   * the model changed: everything that was cached from them is invalidated.
+   */
+  void resetFactorsDependencies();
+
 private:
   NodeLocation findOrMakeNode(const categoric::VariablePtr &var);
 
diff --git a/src/src/structure/bases/FactorsAware.cpp b/src/src/structure/bases/FactorsAware.cpp
index 05812f7..ce44e9c 100644
--- a/src/src/structure/bases/FactorsAware.cpp
+++ b/src/src/structure/bases/FactorsAware.cpp
@@ -37,6 +37,22 @@ void FactorsAware::addDistribution(
   factorsAll.emplace(distribution);
 }
 
+void FactorsAware::resetFactorsDependencies() {
+  resetBelief();
+  auto &state = stateMutable();
+  for (auto &[var, node] : state.nodes) {
+    node->merged_unaries.reset();
+  }
+  for (const auto &[var, value] : state.evidences) {
+    auto *node = state.nodes.find(var)->second.get();
+    for (auto &[connected_node, connection] : node->disabled_connections) {
+      connected_node->disabled_connections.find(node)->second.message =
+          std::make_unique<factor::Evidence>(*connection.factor,
+                                             node->variable, value);
+    }
+  }
+}
+
 namespace {
 void check_is_same_variable(const categoric::VariablePtr &a,
                             const categoric::VariablePtr &b) {
diff --git a/src/src/trainable/FactorsTunableManager.cpp b/src/src/trainable/FactorsTunableManager.cpp
index 2b86e32..3f00ffe 100644
--- a/src/src/trainable/FactorsTunableManager.cpp
+++ b/src/src/trainable/FactorsTunableManager.cpp
@@ -58,7 +58,7 @@ void FactorsTunableGetter::setWeights(const std::vector<float> &weights) {
   for (std::size_t k = 0; k < tuners.size(); ++k) {
     tuners[k]->setWeight(weights[k]);
   }
-  resetBelief();
+  resetFactorsDependencies();
 }
 
 std::vector<float> FactorsTunableGetter::getWeightsGradient(
@@ -140,6 +140,8 @@ void FactorsTunableInserter::addTunableFactor(
         tuner_sharing.addElement(std::move(tuner));
         tuner_sharing.setWeight(tuner_sharing.getWeight());
       });
+  // the weight of the inserted factor may be changed
+  resetFactorsDependencies();
 }
 
 void FactorsTunableInserter::copyTunableFactor(
-- 
2.43.0


From 8efdaa7ef0ebc2329c87e4c44390aa6150d8c1c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:37 +0000
Subject: [PATCH 05/32] fix: pool workers could read the pointer to their tasks
 before its initialization

---
 src/header/EasyFactorGraph/structure/bases/PoolAware.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/header/EasyFactorGraph/structure/bases/PoolAware.h b/src/header/EasyFactorGraph/structure/bases/PoolAware.h
index 4577a51..82d2b9f 100644
--- a/src/header/EasyFactorGraph/structure/bases/PoolAware.h
+++ b/src/header/EasyFactorGraph/structure/bases/PoolAware.h
@@ -40,9 +40,10 @@ private:
   struct Worker {
     Worker(std::size_t th_id, Context &context);
 
-    std::thread loop;
-
+    // must be initialized before starting the thread, which reads it
     std::atomic<const Tasks *> to_process = nullptr;
+
+    std::thread loop;
   };
   using WorkerPtr = std::unique_ptr<Worker>;
   std::vector<WorkerPtr> workers;
-- 
2.43.0


From ba62125193c9068deb0dfa229215075ea45968d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:05 +0000
Subject: [PATCH 06/32] fix: joint distributions including several evidences
 read freed memory

---
 src/src/structure/QueryManager.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/src/structure/QueryManager.cpp b/src/src/structure/QueryManager.cpp
index fd49c1b..568252d 100644
--- a/src/src/structure/QueryManager.cpp
+++ b/src/src/structure/QueryManager.cpp
@@ -11,6 +11,8 @@
 #include <EasyFactorGraph/structure/SpecialFactors.h>
 #include <EasyFactorGraph/structure/bases/StateAware.h>
 
+#include <list>
+
 namespace EFG::strct {
 namespace {
 factor::MergedUnaries gather_incoming_messages(Node &subject) {
@@ -114,7 +116,8 @@ QueryManager::getJointMarginalDistribution(const categoric::Group &subgroup,
   }
 
   std::unordered_set<const factor::Immutable *> contributions;
-  std::vector<factor::Indicator> indicators;
+  // addresses of the indicators are stored in contributions: must be stable
+  std::list<factor::Indicator> indicators;
   for (auto &[node, location] : locations) {
     VisitorConst<HiddenClusters::iterator, Evidences::iterator>{
         [&node = node, &subgroup_nodes,
-- 
2.43.0


From 8bf458af6589a74f2ce2f2103f02b55572609e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:42 +0000
Subject: [PATCH 07/32] fix: asking for 0 threads left the model without a pool

---
 src/src/structure/bases/PoolAware.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/src/structure/bases/PoolAware.cpp b/src/src/structure/bases/PoolAware.cpp
index 151877e..674124a 100644
--- a/src/src/structure/bases/PoolAware.cpp
+++ b/src/src/structure/bases/PoolAware.cpp
@@ -77,6 +77,10 @@ void PoolAware::setPoolSize(const std::size_t new_size) {
   if (new_size == pool->size()) {
     return;
   }
+  if (0 == new_size) {
+    // the current pool should survive
+    throw Error{"Invalid Pool size"};
+  }
   pool.emplace(new_size);
 }
 } // namespace EFG::strct
-- 
2.43.0


From 32ec718045a27d8a98c03ab4497bfc0f16c06424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:21 +0000
Subject: [PATCH 08/32] fix: variables with the same name and different sizes
 were accepted in a model

---
 src/src/structure/bases/FactorsAware.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/src/structure/bases/FactorsAware.cpp b/src/src/structure/bases/FactorsAware.cpp
index ce44e9c..41f9d13 100644
--- a/src/src/structure/bases/FactorsAware.cpp
+++ b/src/src/structure/bases/FactorsAware.cpp
@@ -61,6 +61,14 @@ void check_is_same_variable(const categoric::VariablePtr &a,
                       " multiple times with different VariablePtr");
   }
 }
+
+void check_has_different_name(const categoric::VariablePtr &a,
+                              const categoric::VariablePtr &b) {
+  if (a->name() == b->name()) {
+    throw Error::make("Trying to insert variable named: ", a->name(),
+                      " multiple times with different sizes");
+  }
+}
 } // namespace
 
 StateAware::NodeLocation
@@ -69,8 +77,11 @@ FactorsAware::findOrMakeNode(const categoric::VariablePtr &var) {
     check_is_same_variable(var, info.value().node->variable);
     return *info;
   }
-  // create this node
   auto &state = stateMutable();
+  for (const auto &other : state.variables) {
+    check_has_different_name(var, other);
+  }
+  // create this node
   state.variables.push_back(var);
   auto *added =
       state.nodes.emplace(var, std::make_unique<Node>()).first->second.get();
-- 
2.43.0


From d7deb1c6e2d82e5c969e8660d54fa2eda6008a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:54:51 +0000
Subject: [PATCH 09/32] fix: a tunable factor refused for its sharing group was
 partially inserted

---
 src/src/trainable/FactorsTunableManager.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/src/trainable/FactorsTunableManager.cpp b/src/src/trainable/FactorsTunableManager.cpp
index 3f00ffe..ac0342c 100644
--- a/src/src/trainable/FactorsTunableManager.cpp
+++ b/src/src/trainable/FactorsTunableManager.cpp
@@ -119,6 +119,10 @@ TunerPtr FactorsTunableInserter::makeTuner(const FactorExponentialPtr &factor) {
 void FactorsTunableInserter::addTunableFactor(
     const FactorExponentialPtr &factor,
     const std::optional<categoric::VariablesSet> &group_sharing_weight) {
+  // throw before altering the model, in case of an invalid group
+  auto other_it = (std::nullopt == group_sharing_weight)
+                      ? tuners.end()
+                      : findTuner(*group_sharing_weight);
   addDistribution(factor);
   auto tuner = makeTuner(factor);
   tunable_factors.emplace(factor);
@@ -126,7 +130,6 @@ void FactorsTunableInserter::addTunableFactor(
     tuners.emplace_back(std::move(tuner));
     return;
   }
-  auto other_it = findTuner(*group_sharing_weight);
   visitTuner(
       other_it->get(),
       [&tuner, &other_it](BaseTuner &) {
-- 
2.43.0


From 480b645391bd6fe3a8cdd30f68cc35252dfb1608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:01:12 +0000
Subject: [PATCH 10/32] fix: a refused binary factor left its first variable in
 the model

---
 .../structure/bases/FactorsAware.h             |  2 ++
 src/src/structure/bases/FactorsAware.cpp       | 18 ++++++++++++++----
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/header/EasyFactorGraph/structure/bases/FactorsAware.h b/src/header/EasyFactorGraph/structure/bases/FactorsAware.h
index 69a3411..44deeca 100644
--- a/src/header/EasyFactorGraph/structure/bases/FactorsAware.h
+++ b/src/header/EasyFactorGraph/structure/bases/FactorsAware.h
@@ -28,6 +28,8 @@ protected:
   void resetFactorsDependencies();
 
 private:
+  void checkCanBeInserted(const categoric::VariablePtr &var) const;
+
   NodeLocation findOrMakeNode(const categoric::VariablePtr &var);
 
   void addUnaryDistribution(const EFG::factor::ImmutablePtr &unary_factor);
diff --git a/src/src/structure/bases/FactorsAware.cpp b/src/src/structure/bases/FactorsAware.cpp
index 41f9d13..f39815d 100644
--- a/src/src/structure/bases/FactorsAware.cpp
+++ b/src/src/structure/bases/FactorsAware.cpp
@@ -71,16 +71,23 @@ void check_has_different_name(const categoric::VariablePtr &a,
 }
 } // namespace
 
+void FactorsAware::checkCanBeInserted(const categoric::VariablePtr &var) const {
+  if (auto info = locate(var); info.has_value()) {
+    check_is_same_variable(var, info.value().node->variable);
+    return;
+  }
+  for (const auto &other : state().variables) {
+    check_has_different_name(var, other);
+  }
+}
+
 StateAware::NodeLocation
 FactorsAware::findOrMakeNode(const categoric::VariablePtr &var) {
+  checkCanBeInserted(var);
   if (auto info = locate(var); info.has_value()) {
-    check_is_same_variable(var, info.value().node->variable);
     return *info;
   }
   auto &state = stateMutable();
-  for (const auto &other : state.variables) {
-    check_has_different_name(var, other);
-  }
   // create this node
   state.variables.push_back(var);
   auto *added =
@@ -115,6 +122,9 @@ void hybrid_insertion(Node *node_hidden, Node *node_evidence,
 void FactorsAware::addBinaryDistribution(
     const EFG::factor::ImmutablePtr &binary_factor) {
   const auto &vars = binary_factor->function().vars().getVariables();
+  // throw before altering the model, in case one of the variables is invalid
+  checkCanBeInserted(vars.front());
+  checkCanBeInserted(vars.back());
   const auto nodeA_location = findOrMakeNode(vars.front());
   auto *nodeA = nodeA_location.node;
   const auto nodeB_location = findOrMakeNode(vars.back());
-- 
2.43.0


From d2f548d7284f3a48ff5fb6cd9319b24dab23ee76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:57 +0000
Subject: [PATCH 11/32] fix: beliefs of variables with many neighbours
 overflowed

---
 src/src/structure/SpecialFactors.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/src/structure/SpecialFactors.cpp b/src/src/structure/SpecialFactors.cpp
index d470a10..0866c4c 100644
--- a/src/src/structure/SpecialFactors.cpp
+++ b/src/src/structure/SpecialFactors.cpp
@@ -71,8 +71,9 @@ MergedUnaries::MergedUnaries(const std::vector<const Immutable *> &factors)
           factors.front()->function().vars().getVariables().front())) {
   for (const auto *factor : factors) {
     merge(*factor);
+    // done at every step, as the product of many images may overflow
+    normalize();
   }
-  normalize();
 }
 
 void MergedUnaries::merge(const Immutable &to_merge) {
-- 
2.43.0


From 7b4afb7881e387971dc0aa71c462f5cc2aae183f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:26 +0000
Subject: [PATCH 12/32] fix: joint distributions of variables with many
 neighbours overflowed

---
 src/src/structure/QueryManager.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/src/structure/QueryManager.cpp b/src/src/structure/QueryManager.cpp
index 568252d..225246b 100644
--- a/src/src/structure/QueryManager.cpp
+++ b/src/src/structure/QueryManager.cpp
@@ -118,19 +118,23 @@ QueryManager::getJointMarginalDistribution(const categoric::Group &subgroup,
   std::unordered_set<const factor::Immutable *> contributions;
   // addresses of the indicators are stored in contributions: must be stable
   std::list<factor::Indicator> indicators;
+  std::list<factor::MergedUnaries> merged_unaries;
   for (auto &[node, location] : locations) {
     VisitorConst<HiddenClusters::iterator, Evidences::iterator>{
-        [&node = node, &subgroup_nodes,
-         &contributions](const HiddenClusters::iterator &) {
-          contributions.emplace(node->merged_unaries.get());
+        [&node = node, &subgroup_nodes, &contributions,
+         &merged_unaries](const HiddenClusters::iterator &) {
+          // merged in advance, as their product may overflow
+          std::vector<const factor::Immutable *> unaries = {
+              node->merged_unaries.get()};
           for (const auto &[connected_node, connection] :
                node->active_connections) {
             if (subgroup_nodes.find(connected_node) == subgroup_nodes.end()) {
-              contributions.emplace(connection.message.get());
+              unaries.push_back(connection.message.get());
             } else {
               contributions.emplace(connection.factor.get());
             }
           }
+          contributions.emplace(&merged_unaries.emplace_back(unaries));
         },
         [&node = node, &contributions,
          &indicators](const Evidences::iterator &location) {
-- 
2.43.0


From ab3b415eaef943f5b94828081b75c12e4c1c5d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:56 +0000
Subject: [PATCH 13/32] fix: gradients of conditional models conditioned on the
 values of other variables

---
 .../model/ConditionalRandomField.h            |  2 --
 src/src/model/ConditionalRandomField.cpp      | 20 +++++++++----------
 2 files changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/header/EasyFactorGraph/model/ConditionalRandomField.h b/src/header/EasyFactorGraph/model/ConditionalRandomField.h
index acca867..9f8c185 100644
--- a/src/header/EasyFactorGraph/model/ConditionalRandomField.h
+++ b/src/header/EasyFactorGraph/model/ConditionalRandomField.h
@@ -83,7 +83,5 @@ private:
 
   void replaceIfNeeded(train::TunerPtr &container,
                        const train::BaseTuner &subject);
-
-  const std::vector<std::size_t> evidence_vars_positions;
 };
 } // namespace EFG::model
diff --git a/src/src/model/ConditionalRandomField.cpp b/src/src/model/ConditionalRandomField.cpp
index 34e8154..d471b10 100644
--- a/src/src/model/ConditionalRandomField.cpp
+++ b/src/src/model/ConditionalRandomField.cpp
@@ -30,18 +30,15 @@ find_positions(const categoric::VariablesSoup &all_vars,
 }
 } // namespace
 
-ConditionalRandomField::ConditionalRandomField(const ConditionalRandomField &o)
-    : evidence_vars_positions(
-          find_positions(o.getAllVariables(), o.getObservedVariables())) {
+ConditionalRandomField::ConditionalRandomField(
+    const ConditionalRandomField &o) {
   absorb(SourceStructure{static_cast<const strct::FactorsConstGetter *>(&o),
                          static_cast<const train::FactorsTunableGetter *>(&o)},
          false);
 }
 
 ConditionalRandomField::ConditionalRandomField(const RandomField &source,
-                                               bool copy)
-    : evidence_vars_positions(find_positions(source.getAllVariables(),
-                                             source.getObservedVariables())) {
+                                               bool copy) {
   absorb(
       SourceStructure{
           static_cast<const strct::FactorsConstGetter *>(&source),
@@ -164,13 +161,16 @@ std::vector<float> ConditionalRandomField::getWeightsGradient_(
         receiver += coeff * tuner->getGradientBeta();
       });
     }
+    // positions in the combinations, which follow the order of this model
+    const auto observed = getObservedVariables();
+    const auto observed_positions = find_positions(getAllVariables(), observed);
     train_set_combinations.forEachSample(
-        [this, &tasks](const auto &combination) {
+        [this, &tasks, &observed,
+         &observed_positions](const auto &combination) {
           {
             std::size_t var_pos = 0;
-            for (auto &[var, val] : this->state().evidences) {
-              this->setEvidence(
-                  var, combination[this->evidence_vars_positions[var_pos]]);
+            for (const auto &var : observed) {
+              this->setEvidence(var, combination[observed_positions[var_pos]]);
               ++var_pos;
             }
           }
-- 
2.43.0


From 451f21c28d70784be09e0157e648d582e42215e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:06 +0000
Subject: [PATCH 14/32] fix: evidences of conditional models did not follow the
 documented order

---
 src/src/model/ConditionalRandomField.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/src/model/ConditionalRandomField.cpp b/src/src/model/ConditionalRandomField.cpp
index d471b10..bba0bb5 100644
--- a/src/src/model/ConditionalRandomField.cpp
+++ b/src/src/model/ConditionalRandomField.cpp
@@ -122,8 +122,9 @@ void ConditionalRandomField::setEvidences(
     throw Error::make("Expected ", std::to_string(state.evidences.size()),
                       " evidences, but got instead ", values.size());
   }
+  const auto observed = getObservedVariables();
   std::size_t k = 0;
-  for (const auto &[var, val] : state.evidences) {
+  for (const auto &var : observed) {
     setEvidence(var, values[k]);
     ++k;
   }
-- 
2.43.0


From 18ee63d5dd2030dee5e05578c7b604d1ad755e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:43 +0000
Subject: [PATCH 15/32] fix: a refused set of evidences was partially applied
 to conditional models

---
 src/src/model/ConditionalRandomField.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/src/model/ConditionalRandomField.cpp b/src/src/model/ConditionalRandomField.cpp
index bba0bb5..31f3f0e 100644
--- a/src/src/model/ConditionalRandomField.cpp
+++ b/src/src/model/ConditionalRandomField.cpp
@@ -124,6 +124,15 @@ void ConditionalRandomField::setEvidences(
   }
   const auto observed = getObservedVariables();
   std::size_t k = 0;
+  for (const auto &var : observed) {
+    // throw before altering the model
+    if (var->size() <= values[k]) {
+      throw Error::make(std::to_string(values[k]),
+                        " is an invalid evidence for variable ", var->name());
+    }
+    ++k;
+  }
+  k = 0;
   for (const auto &var : observed) {
     setEvidence(var, values[k]);
     ++k;
-- 
2.43.0


From a594ef24505bee65db6f13875aac5791ea5ddb84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:47 +0000
Subject: [PATCH 16/32] fix: small ranges made the generation of conditional
 train sets divide by zero

---
 src/src/model/ConditionalRandomField.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/src/model/ConditionalRandomField.cpp b/src/src/model/ConditionalRandomField.cpp
index 31f3f0e..1d11655 100644
--- a/src/src/model/ConditionalRandomField.cpp
+++ b/src/src/model/ConditionalRandomField.cpp
@@ -220,8 +220,9 @@ std::vector<std::vector<std::size_t>> ConditionalRandomField::makeTrainSet(
     categoric::for_each_combination(evidences_range, emplace_samples);
   } else {
     const std::size_t result_max_size = evidences_group.size();
-    const std::size_t result_size_approx =
-        static_cast<std::size_t>(floorf(result_max_size * range_percentage));
+    const std::size_t result_size_approx = std::max<std::size_t>(
+        1,
+        static_cast<std::size_t>(floorf(result_max_size * range_percentage)));
     const std::size_t delta = result_max_size / result_size_approx;
     std::size_t k = 0;
     while (k < result_max_size) {
-- 
2.43.0


From 3e8ee5a902ce436850a379a398bbb722bc6069f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:18 +0000
Subject: [PATCH 17/32] fix: unseeded threads drew the same random numbers
 while sampling

---
 src/src/structure/GibbsSampler.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/src/structure/GibbsSampler.cpp b/src/src/structure/GibbsSampler.cpp
index 503bac7..c7b20be 100644
--- a/src/src/structure/GibbsSampler.cpp
+++ b/src/src/structure/GibbsSampler.cpp
@@ -104,12 +104,12 @@ make_sampling_tasks(const std::vector<GibbsSampler::SamplerNode> &nodes,
                     std::vector<UniformSampler> &engines,
                     const std::optional<std::size_t> &seed, Pool &pool) {
   engines.resize(pool.size());
-  if (std::nullopt != seed) {
-    std::size_t s = *seed;
-    for (auto &engine : engines) {
-      engine.resetSeed(s);
-      s += 5;
-    }
+  // engines with the same seed would draw correlated values
+  std::size_t s =
+      seed.has_value() ? *seed : static_cast<std::size_t>(time(NULL));
+  for (auto &engine : engines) {
+    engine.resetSeed(s);
+    s += 5;
   }
 
   std::vector<Tasks> result;
-- 
2.43.0


From 6d52681e3af02dbc90feb32051529ab388df1212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:24 +0000
Subject: [PATCH 18/32] fix: groups accepted variables with the same name and
 different sizes

---
 src/src/categoric/Group.cpp | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/src/categoric/Group.cpp b/src/src/categoric/Group.cpp
index 59794c6..a461f45 100644
--- a/src/src/categoric/Group.cpp
+++ b/src/src/categoric/Group.cpp
@@ -8,7 +8,20 @@
 #include <EasyFactorGraph/Error.h>
 #include <EasyFactorGraph/categoric/Group.h>
 
+#include <algorithm>
+#include <set>
+#include <string>
+
 namespace EFG::categoric {
+namespace {
+bool has_unique_names(const VariablesSoup &soup) {
+  std::set<std::string> names;
+  return std::all_of(soup.begin(), soup.end(), [&names](const auto &var) {
+    return names.emplace(var->name()).second;
+  });
+}
+} // namespace
+
 VariablesSet to_vars_set(const VariablesSoup &soup) {
   VariablesSet result;
   for (const auto &var : soup) {
@@ -22,7 +35,7 @@ Group::Group(const VariablesSoup &group)
   if (group.empty()) {
     throw Error{"Variables group can't be empty"};
   }
-  if (group.size() != group_sorted.size()) {
+  if (!has_unique_names(group)) {
     throw Error{"Variables group with multiple variables with same name"};
   }
 }
@@ -33,8 +46,10 @@ Group::Group(const VariablePtr &var) {
 }
 
 void Group::add(const VariablePtr &var) {
-  auto it = group_sorted.find(var);
-  if (it == group_sorted.end()) {
+  auto it = std::find_if(
+      group.begin(), group.end(),
+      [&var](const auto &element) { return element->name() == var->name(); });
+  if (it == group.end()) {
     group.push_back(var);
     group_sorted.emplace(var);
     return;
@@ -45,7 +60,8 @@ void Group::add(const VariablePtr &var) {
 
 void Group::replaceVariables(const VariablesSoup &new_variables) {
   auto new_group_sorted = to_vars_set(new_variables);
-  if (new_group_sorted.size() != group.size()) {
+  if (!has_unique_names(new_variables) ||
+      new_variables.size() != group.size()) {
     throw Error{"Invalid new variables group"};
   }
   for (std::size_t k = 0; k < new_variables.size(); ++k) {
-- 
2.43.0


From bca4cc8f552513c81a08ab6b2c09767ac1e0c535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:27 +0000
Subject: [PATCH 19/32] fix: names with characters escaped by json were altered
 when imported

---
 src/src/io/json/Importer.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/src/io/json/Importer.cpp b/src/src/io/json/Importer.cpp
index e78b250..d8afd46 100644
--- a/src/src/io/json/Importer.cpp
+++ b/src/src/io/json/Importer.cpp
@@ -37,8 +37,7 @@ const nlohmann::json &access(const nlohmann::json &subject,
 
 std::string to_string(const nlohmann::json &subject) {
   if (subject.is_string()) {
-    auto raw_dump = subject.dump();
-    return std::string{raw_dump, 1, raw_dump.size() - 2};
+    return subject.get<std::string>();
   }
   throw Error{"Expected a string"};
 }
-- 
2.43.0


From 41779d0c267ed1224e2ed10c3f4a85522d46f4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:40 +0000
Subject: [PATCH 20/32] fix: images and weights were rounded to 6 decimals when
 exported

---
 src/src/io/Utils.cpp         | 8 ++++++++
 src/src/io/Utils.h           | 5 +++++
 src/src/io/json/Exporter.cpp | 4 ++--
 src/src/io/xml/Exporter.cpp  | 4 ++--
 4 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/src/io/Utils.cpp b/src/src/io/Utils.cpp
index 7757e80..43a2883 100644
--- a/src/src/io/Utils.cpp
+++ b/src/src/io/Utils.cpp
@@ -7,9 +7,17 @@
 
 #include "Utils.h"
 
+#include <limits>
 #include <sstream>
 
 namespace EFG::io {
+std::string to_exact_string(float value) {
+  std::ostringstream stream;
+  stream.precision(std::numeric_limits<float>::max_digits10);
+  stream << value;
+  return stream.str();
+}
+
 std::pair<std::vector<std::size_t>, float>
 parse_combination_image(const std::string &line) {
   std::stringstream buff{line};
diff --git a/src/src/io/Utils.h b/src/src/io/Utils.h
index 1fd9bce..e2d56bc 100644
--- a/src/src/io/Utils.h
+++ b/src/src/io/Utils.h
@@ -49,6 +49,11 @@ void for_each_line(std::istream &stream, const Predicate &pred) {
   }
 }
 
+/**
+ * @return a string from which the same identical value can be parsed
+ */
+std::string to_exact_string(float value);
+
 std::pair<std::vector<std::size_t>, float>
 parse_combination_image(const std::string &line);
 
diff --git a/src/src/io/json/Exporter.cpp b/src/src/io/json/Exporter.cpp
index 30e1273..9910381 100644
--- a/src/src/io/json/Exporter.cpp
+++ b/src/src/io/json/Exporter.cpp
@@ -40,7 +40,7 @@ nlohmann::json &printPotential(const factor::Immutable &distr,
   distr.function().forEachNonNullCombination<false>(
       [&](const auto &comb, float img) {
         auto &Distr_val_added = Distr_val.emplace_back();
-        Distr_val_added["D"] = std::to_string(img);
+        Distr_val_added["D"] = to_exact_string(img);
         auto &values = Distr_val_added["v"];
         for (const auto &v : comb) {
           values.emplace_back() = std::to_string(v);
@@ -52,7 +52,7 @@ nlohmann::json &printPotential(const factor::Immutable &distr,
 nlohmann::json &printExpPotential(const factor::FactorExponential &distr,
                                   nlohmann::json &recipient) {
   auto &pot_tag = printPotential(distr, recipient);
-  pot_tag["weight"] = std::to_string(distr.getWeight());
+  pot_tag["weight"] = to_exact_string(distr.getWeight());
   return pot_tag;
 }
 } // namespace
diff --git a/src/src/io/xml/Exporter.cpp b/src/src/io/xml/Exporter.cpp
index b19b5ef..da18e70 100644
--- a/src/src/io/xml/Exporter.cpp
+++ b/src/src/io/xml/Exporter.cpp
@@ -40,7 +40,7 @@ xmlPrs::Tag &printPotential(const factor::Immutable &distr,
       [&](const auto &comb, float img) {
         auto &comb_val = pot_tag.addNested("Distr_val");
         auto &attributes = comb_val.getAttributes();
-        attributes.emplace("D", std::to_string(img));
+        attributes.emplace("D", to_exact_string(img));
         for (auto v : comb) {
           attributes.emplace("v", std::to_string(v));
         }
@@ -51,7 +51,7 @@ xmlPrs::Tag &printPotential(const factor::Immutable &distr,
 xmlPrs::Tag &printExpPotential(const factor::FactorExponential &distr,
                                xmlPrs::Tag &recipient) {
   auto &pot_tag = printPotential(distr, recipient);
-  pot_tag.getAttributes().emplace("weight", std::to_string(distr.getWeight()));
+  pot_tag.getAttributes().emplace("weight", to_exact_string(distr.getWeight()));
   return pot_tag;
 }
 } // namespace
-- 
2.43.0


From a1719340399946161fc9b34644e5c0fe80b4c3d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:57 +0000
Subject: [PATCH 21/32] fix: json documents missing mandatory elements were
 accessed out of bounds

---
 src/src/io/json/Importer.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/src/io/json/Importer.cpp b/src/src/io/json/Importer.cpp
index d8afd46..f4957cf 100644
--- a/src/src/io/json/Importer.cpp
+++ b/src/src/io/json/Importer.cpp
@@ -91,7 +91,7 @@ importFactor(const nlohmann::json &subject,
 
   for (const auto &comb : access(subject, "Distr_val")) {
     std::vector<std::size_t> combination;
-    for (const auto &v : comb["v"]) {
+    for (const auto &v : access(comb, "v")) {
       combination.push_back(std::atoi(to_string(v).c_str()));
     }
     const float val =
@@ -134,7 +134,7 @@ Importer::convert(Inserters recipient, const nlohmann::json &source) {
   // import variables
   categoric::VariablesSet variables;
   std::unordered_map<std::string, std::size_t> evidences;
-  for (const auto &var : source["Variables"]) {
+  for (const auto &var : access(source, "Variables")) {
     const auto name = to_string(access(var, "name"));
     const auto size = to_string(access(var, "Size"));
     auto new_var = categoric::make_variable(std::atoi(size.c_str()), name);
@@ -151,7 +151,7 @@ Importer::convert(Inserters recipient, const nlohmann::json &source) {
   }
   // import potentials
   ImportHelper importer(recipient);
-  for (const auto &factor : source["Potentials"]) {
+  for (const auto &factor : access(source, "Potentials")) {
     importPotential(factor, variables, importer);
   }
   importer.importCumulatedTunable();
-- 
2.43.0


From c5e626eefb0306c9d36bedb4a0719974e08d6ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:03 +0000
Subject: [PATCH 22/32] fix: variables specified multiple times with different
 sizes were imported

---
 src/src/io/json/Importer.cpp | 7 ++++++-
 src/src/io/xml/Importer.cpp  | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/src/io/json/Importer.cpp b/src/src/io/json/Importer.cpp
index f4957cf..85cb47a 100644
--- a/src/src/io/json/Importer.cpp
+++ b/src/src/io/json/Importer.cpp
@@ -11,6 +11,8 @@
 
 #include "../Utils.h"
 
+#include <algorithm>
+
 namespace EFG::io::json {
 nlohmann::json
 Importer::importJsonFromFile(const std::filesystem::path &file_path) {
@@ -138,7 +140,10 @@ Importer::convert(Inserters recipient, const nlohmann::json &source) {
     const auto name = to_string(access(var, "name"));
     const auto size = to_string(access(var, "Size"));
     auto new_var = categoric::make_variable(std::atoi(size.c_str()), name);
-    if (variables.find(new_var) != variables.end()) {
+    if (std::any_of(variables.begin(), variables.end(),
+                    [&name](const categoric::VariablePtr &other) {
+                      return other->name() == name;
+                    })) {
       throw Error::make(name, " is a multiple times specified variable ");
     }
     variables.emplace(new_var);
diff --git a/src/src/io/xml/Importer.cpp b/src/src/io/xml/Importer.cpp
index 524d127..d02b3fc 100644
--- a/src/src/io/xml/Importer.cpp
+++ b/src/src/io/xml/Importer.cpp
@@ -13,6 +13,8 @@
 
 #include <XML-Parser/Parser.h>
 
+#include <algorithm>
+
 namespace EFG::io::xml {
 namespace {
 const std::string *try_access_attribute(const xmlPrs::Tag &subject,
@@ -157,7 +159,10 @@ Importer::convert(Inserters subject, const std::filesystem::path &file_path) {
         const auto &name = access_attribute(*var, "name");
         const auto &size = access_attribute(*var, "Size");
         auto new_var = categoric::make_variable(std::atoi(size.c_str()), name);
-        if (variables.find(new_var) != variables.end()) {
+        if (std::any_of(variables.begin(), variables.end(),
+                        [&name](const categoric::VariablePtr &other) {
+                          return other->name() == name;
+                        })) {
           throw Error::make(name, " is a multiple times specified variable ");
         }
         variables.emplace(new_var);
-- 
2.43.0


From f998ad33bbea6f6ca38877a2a222adcc6a2a3893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:58 +0000
Subject: [PATCH 23/32] fix: imported train sets did not contain the values in
 the file

---
 src/src/io/TrainSetImport.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/src/io/TrainSetImport.cpp b/src/src/io/TrainSetImport.cpp
index 529510a..5c34142 100644
--- a/src/src/io/TrainSetImport.cpp
+++ b/src/src/io/TrainSetImport.cpp
@@ -9,7 +9,20 @@
 
 #include "Utils.h"
 
+#include <sstream>
+
 namespace EFG::io {
+namespace {
+std::vector<std::size_t> parse_combination(const std::string &line) {
+  std::vector<std::size_t> combination;
+  std::stringstream buff{line};
+  std::string token;
+  while (buff >> token) {
+    combination.push_back(static_cast<std::size_t>(std::atoi(token.c_str())));
+  }
+  return combination;
+}
+} // namespace
 
 train::TrainSet import_train_set(const std::string &file_name) {
   std::vector<std::vector<std::size_t>> combinations;
@@ -17,13 +30,13 @@ train::TrainSet import_train_set(const std::string &file_name) {
     std::size_t line_numb = 0;
     std::size_t expected_size = 0;
     for_each_line(stream, [&](const std::string &line) {
-      auto &&[combination, img] = parse_combination_image(line);
+      auto combination = parse_combination(line);
       if ((expected_size != 0) && (combination.size() != expected_size)) {
         throw Error::make("Invalid combination size at line ",
                           std::to_string(line_numb));
       }
       expected_size = combination.size();
-      combinations.emplace_back(std::move(expected_size));
+      combinations.emplace_back(std::move(combination));
       ++line_numb;
     });
   });
-- 
2.43.0


From 4717625240aec826a59aab75e9f24faa90f29bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:41 +0000
Subject: [PATCH 24/32] fix: text files ending with a newline were refused or
 read out of bounds

---
 src/src/io/Utils.cpp | 3 +++
 src/src/io/Utils.h   | 4 +---
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/src/io/Utils.cpp b/src/src/io/Utils.cpp
index 43a2883..a0338ad 100644
--- a/src/src/io/Utils.cpp
+++ b/src/src/io/Utils.cpp
@@ -28,6 +28,9 @@ parse_combination_image(const std::string &line) {
       tokens.emplace_back(std::move(token));
     }
   }
+  if (tokens.empty()) {
+    throw Error{"Invalid file content"};
+  }
   std::vector<std::size_t> comb;
   std::for_each(
       tokens.begin(), tokens.end() - 1, [&comb](const std::string &str) {
diff --git a/src/src/io/Utils.h b/src/src/io/Utils.h
index e2d56bc..6ede73a 100644
--- a/src/src/io/Utils.h
+++ b/src/src/io/Utils.h
@@ -42,9 +42,7 @@ void useOutStrem(const std::filesystem::path &file_name, Pred &&pred) {
 template <typename Predicate>
 void for_each_line(std::istream &stream, const Predicate &pred) {
   std::string line;
-  while (!stream.eof()) {
-    line.clear();
-    std::getline(stream, line);
+  while (std::getline(stream, line)) {
     pred(line);
   }
 }
-- 
2.43.0


From a5524bb41976732e7eedbad3c3f7b7cb6fcf38f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:19 +0000
Subject: [PATCH 25/32] fix: documents with negative sizes of variables were
 imported

---
 src/src/io/Utils.cpp         | 8 ++++++++
 src/src/io/Utils.h           | 3 +++
 src/src/io/json/Importer.cpp | 2 +-
 src/src/io/xml/Importer.cpp  | 2 +-
 4 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/src/io/Utils.cpp b/src/src/io/Utils.cpp
index a0338ad..92814de 100644
--- a/src/src/io/Utils.cpp
+++ b/src/src/io/Utils.cpp
@@ -18,6 +18,14 @@ std::string to_exact_string(float value) {
   return stream.str();
 }
 
+std::size_t parse_size(const std::string &text) {
+  const int result = std::atoi(text.c_str());
+  if (result < 0) {
+    throw Error::make(text, " is a non valid size");
+  }
+  return static_cast<std::size_t>(result);
+}
+
 std::pair<std::vector<std::size_t>, float>
 parse_combination_image(const std::string &line) {
   std::stringstream buff{line};
diff --git a/src/src/io/Utils.h b/src/src/io/Utils.h
index 6ede73a..19999e7 100644
--- a/src/src/io/Utils.h
+++ b/src/src/io/Utils.h
@@ -25,6 +25,9 @@ void check_stream(const T &stream, const std::filesystem::path &file_name) {
 }
 } // namespace detail
 
+// size of a variable
+std::size_t parse_size(const std::string &text);
+
 template <typename Pred>
 void useInStrem(const std::filesystem::path &file_name, Pred &&pred) {
   std::ifstream stream{file_name};
diff --git a/src/src/io/json/Importer.cpp b/src/src/io/json/Importer.cpp
index 85cb47a..e0d24a8 100644
--- a/src/src/io/json/Importer.cpp
+++ b/src/src/io/json/Importer.cpp
@@ -139,7 +139,7 @@ Importer::convert(Inserters recipient, const nlohmann::json &source) {
   for (const auto &var : access(source, "Variables")) {
     const auto name = to_string(access(var, "name"));
     const auto size = to_string(access(var, "Size"));
-    auto new_var = categoric::make_variable(std::atoi(size.c_str()), name);
+    auto new_var = categoric::make_variable(parse_size(size), name);
     if (std::any_of(variables.begin(), variables.end(),
                     [&name](const categoric::VariablePtr &other) {
                       return other->name() == name;
diff --git a/src/src/io/xml/Importer.cpp b/src/src/io/xml/Importer.cpp
index d02b3fc..ce7b002 100644
--- a/src/src/io/xml/Importer.cpp
+++ b/src/src/io/xml/Importer.cpp
@@ -158,7 +158,7 @@ Importer::convert(Inserters subject, const std::filesystem::path &file_path) {
       [&variables, &evidences](const xmlPrs::TagPtr &var) {
         const auto &name = access_attribute(*var, "name");
         const auto &size = access_attribute(*var, "Size");
-        auto new_var = categoric::make_variable(std::atoi(size.c_str()), name);
+        auto new_var = categoric::make_variable(parse_size(size), name);
         if (std::any_of(variables.begin(), variables.end(),
                         [&name](const categoric::VariablePtr &other) {
                           return other->name() == name;
-- 
2.43.0


From 925fe655ff7575975adcee3accb3b8cd55d11b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:32 +0000
Subject: [PATCH 26/32] fix: values with a null probability could be drawn
 because of roundings

---
 src/src/structure/GibbsSampler.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/src/structure/GibbsSampler.cpp b/src/src/structure/GibbsSampler.cpp
index c7b20be..183ee50 100644
--- a/src/src/structure/GibbsSampler.cpp
+++ b/src/src/structure/GibbsSampler.cpp
@@ -21,13 +21,20 @@ std::size_t UniformSampler::sampleFromDiscrete(
     const std::vector<float> &distribution) const {
   float s = this->sample();
   float cumul = 0.f;
+  // values having a null probability can't be returned, even if the sum of the
+  // others is slightly lower than 1 or a null number is drawn
+  std::size_t result = distribution.size() - 1;
   for (std::size_t k = 0; k < distribution.size(); ++k) {
+    if (distribution[k] == 0) {
+      continue;
+    }
+    result = k;
     cumul += distribution[k];
     if (s <= cumul) {
-      return k;
+      break;
     }
   }
-  return distribution.size() - 1;
+  return result;
 }
 
 void UniformSampler::resetSeed(std::size_t newSeed) {
-- 
2.43.0


From 0399a1ec80179562eb43d46c5ba7868f0b348b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:13 +0000
Subject: [PATCH 27/32] fix: images which are not a number were accepted by the
 factors

---
 src/src/factor/Mutable.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/src/factor/Mutable.cpp b/src/src/factor/Mutable.cpp
index be7d876..f051b2e 100644
--- a/src/src/factor/Mutable.cpp
+++ b/src/src/factor/Mutable.cpp
@@ -16,7 +16,7 @@ Mutable::Mutable(FunctionPtr data) : function_{data} {
 }
 
 void Mutable::set(const std::vector<std::size_t> &comb, float value) {
-  if (value < 0.f) {
+  if (!(value >= 0.f)) { // NaN is refused too
     throw Error("negative value is not possible");
   }
   const auto &vars = function_->vars().getVariables();
-- 
2.43.0


From 9f9e84def4d9fd16fc4fceec0af6317cb0f05003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:13 +0000
Subject: [PATCH 28/32] fix: portions which are not a number were accepted by
 the train sets

---
 src/src/trainable/TrainSet.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/src/trainable/TrainSet.cpp b/src/src/trainable/TrainSet.cpp
index 9cd88a4..b426646 100644
--- a/src/src/trainable/TrainSet.cpp
+++ b/src/src/trainable/TrainSet.cpp
@@ -29,7 +29,7 @@ TrainSet::Iterator::Iterator(const TrainSet &subject, float percentage) {
   if (1.f == percentage) {
     return;
   }
-  if ((percentage <= 0) || (percentage > 1.f)) {
+  if (!((percentage > 0) && (percentage <= 1.f))) { // NaN is refused too
     throw Error::make(percentage,
                       " is an invalid percentage for a TrainSet Iterator");
   }
-- 
2.43.0


From 5065d97714eace7c422c3bfa0784bf4be23d4ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:13 +0000
Subject: [PATCH 29/32] fix: ranges which are not a number were accepted when
 making train sets

---
 src/src/model/ConditionalRandomField.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/src/model/ConditionalRandomField.cpp b/src/src/model/ConditionalRandomField.cpp
index 1d11655..b916079 100644
--- a/src/src/model/ConditionalRandomField.cpp
+++ b/src/src/model/ConditionalRandomField.cpp
@@ -197,7 +197,7 @@ std::vector<float> ConditionalRandomField::getWeightsGradient_(
 std::vector<std::vector<std::size_t>> ConditionalRandomField::makeTrainSet(
     const GibbsSampler::SamplesGenerationContext &context,
     float range_percentage, const std::size_t threads) {
-  if ((range_percentage > 1.f) || (range_percentage < 0)) {
+  if (!((range_percentage <= 1.f) && (range_percentage >= 0))) { // NaN too
     throw Error{"Invalid range percentage"};
   }
 
-- 
2.43.0


From dac222ac91d9422db37c6d747fce75e0cc9f8760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:13 +0000
Subject: [PATCH 30/32] fix: values in external files were not found for models
 in the current folder

---
 src/src/io/xml/Importer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/src/io/xml/Importer.cpp b/src/src/io/xml/Importer.cpp
index ce7b002..6292ac2 100644
--- a/src/src/io/xml/Importer.cpp
+++ b/src/src/io/xml/Importer.cpp
@@ -94,7 +94,8 @@ importFactor(const std::string &prefix, const xmlPrs::Tag &tag,
 
   const auto *source = try_access_attribute(tag, "Source");
   if (nullptr != source) {
-    import_values(*result, prefix + "/" + *source);
+    // the prefix is empty when the model is in the current folder
+    import_values(*result, prefix.empty() ? *source : prefix + "/" + *source);
     return result;
   }
 
-- 
2.43.0


From f074cbd9b976b835325fad04c2d5fc7378302160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:43:20 +0000
Subject: [PATCH 31/32] fix: the sizes of a range reserve as many values as
 variables, not as combinations

---
 src/src/categoric/GroupRange.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/src/categoric/GroupRange.cpp b/src/src/categoric/GroupRange.cpp
index f42fe12..cbeb5f1 100644
--- a/src/src/categoric/GroupRange.cpp
+++ b/src/src/categoric/GroupRange.cpp
@@ -20,7 +20,7 @@ GroupRange::Data::Data(const std::vector<size_t> &s, bool eor)
 namespace {
 std::vector<size_t> get_sizes(const Group &variables) {
   std::vector<size_t> result;
-  result.reserve(variables.size());
+  result.reserve(variables.getVariables().size());
   for (const auto &var : variables.getVariables()) {
     result.push_back(var->size());
   }
-- 
2.43.0


From f8654fc318cc11aac05a356736babed1d5282c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:43:20 +0000
Subject: [PATCH 32/32] fix: joint distributions of groups do not overflow or
 underflow

---
 src/src/structure/QueryManager.cpp | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/src/src/structure/QueryManager.cpp b/src/src/structure/QueryManager.cpp
index 225246b..d9ea215 100644
--- a/src/src/structure/QueryManager.cpp
+++ b/src/src/structure/QueryManager.cpp
@@ -11,6 +11,7 @@
 #include <EasyFactorGraph/structure/SpecialFactors.h>
 #include <EasyFactorGraph/structure/bases/StateAware.h>
 
+#include <algorithm>
 #include <list>
 
 namespace EFG::strct {
@@ -100,6 +101,22 @@ std::vector<size_t> QueryManager::getHiddenSetMAP(std::size_t threads) {
   return result;
 }
 
+namespace {
+// images are divided by the maximum one, as the product of many factors may
+// overflow
+factor::Factor make_scaled(const factor::Immutable &subject) {
+  factor::Factor result{subject, factor::Factor::CloneTrasformedImagesTag{}};
+  float max = 0;
+  subject.function().forEachCombination<true>(
+      [&max](const auto &, float img) { max = std::max(max, img); });
+  if (0 != max) {
+    subject.function().forEachCombination<true>(
+        [&](const auto &comb, float img) { result.set(comb, img / max); });
+  }
+  return result;
+}
+} // namespace
+
 factor::Factor
 QueryManager::getJointMarginalDistribution(const categoric::Group &subgroup,
                                            std::size_t threads) {
@@ -119,10 +136,13 @@ QueryManager::getJointMarginalDistribution(const categoric::Group &subgroup,
   // addresses of the indicators are stored in contributions: must be stable
   std::list<factor::Indicator> indicators;
   std::list<factor::MergedUnaries> merged_unaries;
+  std::unordered_set<const factor::Immutable *> connecting_factors;
+  std::list<factor::Factor> scaled_factors;
   for (auto &[node, location] : locations) {
     VisitorConst<HiddenClusters::iterator, Evidences::iterator>{
-        [&node = node, &subgroup_nodes, &contributions,
-         &merged_unaries](const HiddenClusters::iterator &) {
+        [&node = node, &subgroup_nodes, &contributions, &merged_unaries,
+         &connecting_factors,
+         &scaled_factors](const HiddenClusters::iterator &) {
           // merged in advance, as their product may overflow
           std::vector<const factor::Immutable *> unaries = {
               node->merged_unaries.get()};
@@ -130,8 +150,10 @@ QueryManager::getJointMarginalDistribution(const categoric::Group &subgroup,
                node->active_connections) {
             if (subgroup_nodes.find(connected_node) == subgroup_nodes.end()) {
               unaries.push_back(connection.message.get());
-            } else {
-              contributions.emplace(connection.factor.get());
+            } else if (connecting_factors.emplace(connection.factor.get())
+                           .second) {
+              contributions.emplace(&scaled_factors.emplace_back(
+                  make_scaled(*connection.factor)));
             }
           }
           contributions.emplace(&merged_unaries.emplace_back(unaries));
-- 
2.43.0

