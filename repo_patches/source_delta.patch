From e0b6ca61e13154f0d981be5ce82c9e52999a143b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:59 +0000
Subject: [PATCH 01/28] fix: a model whose only input was withdrawn by a Mealy
 model has no event

---
 include/adevs/simulator.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/adevs/simulator.h b/include/adevs/simulator.h
index 1159619..371296d 100644
--- a/include/adevs/simulator.h
+++ b/include/adevs/simulator.h
@@ -505,7 +505,9 @@ void Simulator<ValueType, TimeType>::computeNextOutput() {
         calculate_mealy_output(path,model);
     }
     // Gather input produced by Mealy models
-    for (auto model: active) {
+    auto active_iter = active.begin();
+    while (active_iter != active.end()) {
+        auto model = *active_iter;
         while (!model->revisable_inputs.empty()) {
             model->inputs.push_back(model->revisable_inputs.front().second);
             model->revisable_inputs.pop_front();
@@ -520,6 +522,13 @@ void Simulator<ValueType, TimeType>::computeNextOutput() {
         }
         // Done with the output
         model->outputs.clear();
+        // If the input that activated a model was withdrawn by a Mealy
+        // model and the model is not imminent then it has no event
+        if (model->inputs.empty() && !(model->tN == tNext)) {
+            active_iter = active.erase(active_iter);
+        } else {
+            active_iter++;
+        }
     }
 }
 
-- 
2.43.0


From 46503433fbcbc4464ce4cd02a8486ab74e82bba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:57 +0000
Subject: [PATCH 02/28] fix: adding or removing one of several instances of a
 model must not change its schedule

---
 include/adevs/simulator.h | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/include/adevs/simulator.h b/include/adevs/simulator.h
index 371296d..3cd4230 100644
--- a/include/adevs/simulator.h
+++ b/include/adevs/simulator.h
@@ -570,12 +570,21 @@ TimeType Simulator<ValueType, TimeType>::computeNextState() {
         pending.pop_front();
         switch (op.op) {
             case Graph<ValueType, TimeType>::ADD_ATOMIC:
-                graph->add_atomic(op.model);
-                schedule(op.model.get(), t);
+                // Another instance of a model that is already present does
+                // not change that model's schedule.
+                if (graph->get_atomics().count(op.model) == 0) {
+                    graph->add_atomic(op.model);
+                    schedule(op.model.get(), t);
+                } else {
+                    graph->add_atomic(op.model);
+                }
                 break;
             case Graph<ValueType, TimeType>::REMOVE_ATOMIC:
-                sched.schedule(op.model.get(), adevs_inf<TimeType>());
                 graph->remove_atomic(op.model);
+                // The model stays in the schedule while it has instances
+                if (graph->get_atomics().count(op.model) == 0) {
+                    sched.schedule(op.model.get(), adevs_inf<TimeType>());
+                }
                 break;
             case Graph<ValueType, TimeType>::REMOVE_PIN:
                 graph->remove_pin(op.pin[0]);
-- 
2.43.0


From e53870408e4a72ab08189018056d491a243b8f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:09 +0000
Subject: [PATCH 03/28] fix: removing a pin also removes the edges that lead to
 it

---
 include/adevs/graph.h | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/include/adevs/graph.h b/include/adevs/graph.h
index bb7c7f9..792d8a5 100644
--- a/include/adevs/graph.h
+++ b/include/adevs/graph.h
@@ -289,6 +289,24 @@ void Graph<ValueType, TimeType>::remove_pin(pin_t pin) {
         // Remove the pin from the pin_to_atomic map.
         pin_to_pin.erase(pin);
     }
+    // Remove the edges that lead from other pins to this pin
+    auto src_iter = pin_to_pin.begin();
+    while (src_iter != pin_to_pin.end()) {
+        auto &dst_list = (*src_iter).second;
+        auto dst_iter = dst_list.begin();
+        while ((*src_iter).first != pin && dst_iter != dst_list.end()) {
+            if ((*dst_iter).first == pin && --(*dst_iter).second == 0) {
+                dst_iter = dst_list.erase(dst_iter);
+            } else {
+                dst_iter++;
+            }
+        }
+        if (dst_list.empty()) {
+            src_iter = pin_to_pin.erase(src_iter);
+        } else {
+            src_iter++;
+        }
+    }
 }
 
 template <typename ValueType, typename TimeType>
-- 
2.43.0


From 9321170dae5a3002f47afe2eafe6ad664951ffef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:52 +0000
Subject: [PATCH 04/28] fix: double_fcmp inequality uses the tolerance, as
 equality does

---
 include/adevs/time.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/adevs/time.h b/include/adevs/time.h
index c0f9636..f5a5c22 100644
--- a/include/adevs/time.h
+++ b/include/adevs/time.h
@@ -214,6 +214,10 @@ class double_fcmp {
     bool operator==(double rhs) const { return (fcmp(d, rhs, epsilon) == 0); }
     /// @brief Equality
     bool operator==(double_fcmp const &rhs) const { return (fcmp(d, rhs.d, epsilon) == 0); }
+    /// @brief Inequality
+    bool operator!=(double rhs) const { return (fcmp(d, rhs, epsilon) != 0); }
+    /// @brief Inequality
+    bool operator!=(double_fcmp const &rhs) const { return (fcmp(d, rhs.d, epsilon) != 0); }
     /// @brief Advance this value by a step size t2
     double_fcmp operator+(double_fcmp const &t2) const { return double_fcmp(d + t2.d); }
     /// @brief Advance this value by a step size t2
-- 
2.43.0


From 3252683b3fa7e1deddd261cf5cc12319f0c5afc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:56 +0000
Subject: [PATCH 05/28] fix: removing a coupled model removes its pin to pin
 couplings

---
 include/adevs/models.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/adevs/models.h b/include/adevs/models.h
index af25b54..14848b0 100644
--- a/include/adevs/models.h
+++ b/include/adevs/models.h
@@ -567,7 +567,7 @@ void Coupled<ValueType, TimeType>::remove_from_graph() {
         g->disconnect(coupling.first, coupling.second);
     }
     for (auto coupling : pin_to_pin) {
-        g->connect(coupling.first, coupling.second);
+        g->disconnect(coupling.first, coupling.second);
     }
     for (auto coupled : coupled_components) {
         coupled->remove_from_graph();
-- 
2.43.0


From 350c0b3d3c94ea275b080450acd2f76ec1496e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:12 +0000
Subject: [PATCH 06/28] fix: removing an atomic model from a coupled model
 removes the couplings to it

---
 include/adevs/models.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/adevs/models.h b/include/adevs/models.h
index 14848b0..6f45255 100644
--- a/include/adevs/models.h
+++ b/include/adevs/models.h
@@ -585,6 +585,18 @@ void Coupled<ValueType, TimeType>::add_atomic(std::shared_ptr<Atomic<ValueType,
 template <typename ValueType, typename TimeType>
 void Coupled<ValueType, TimeType>::remove_atomic(
     std::shared_ptr<Atomic<ValueType, TimeType>> model) {
+    // Remove the connections to the model that are part of this model
+    auto iter = pin_to_atomic.begin();
+    while (iter != pin_to_atomic.end()) {
+        if ((*iter).second == model) {
+            if (g != nullptr) {
+                g->disconnect((*iter).first, model);
+            }
+            iter = pin_to_atomic.erase(iter);
+        } else {
+            iter++;
+        }
+    }
     atomic_components.erase(model);
     if (g != nullptr) {
         g->remove_atomic(model);
-- 
2.43.0


From 43446625d4d41b5b9769adf32cc2eb0ea06e17d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:10 +0000
Subject: [PATCH 07/28] fix: changes to shared, removed or repeated parts of
 coupled models keep the graph consistent

---
 include/adevs/models.h | 70 ++++++++++++++++++++++++++----------------
 1 file changed, 43 insertions(+), 27 deletions(-)

diff --git a/include/adevs/models.h b/include/adevs/models.h
index 6f45255..829a7d9 100644
--- a/include/adevs/models.h
+++ b/include/adevs/models.h
@@ -405,7 +405,7 @@ class Coupled {
     /**
      * @brief Constructor creates a model without components or couplings.
      */
-    Coupled() : g(nullptr) {}
+    Coupled() : g(nullptr), instances(0) {}
     /**
      * @brief Destructor
      *
@@ -495,7 +495,10 @@ class Coupled {
   private:
     friend class Simulator<ValueType, TimeType>;
 
+    /// Graph that this model belongs to, if any
     Graph<ValueType, TimeType>* g;
+    /// Number of times this model appears in the graph
+    unsigned int instances;
     std::set<std::shared_ptr<Atomic<ValueType, TimeType>>> atomic_components;
     std::set<std::shared_ptr<Coupled<ValueType, TimeType>>> coupled_components;
     /// Pins that provide input to the Atomic models
@@ -510,40 +513,48 @@ class Coupled {
 template <typename ValueType, typename TimeType>
 void Coupled<ValueType, TimeType>::create_coupling(
     pin_t pin, std::shared_ptr<Atomic<ValueType, TimeType>> model) {
-    pin_to_atomic.insert(std::make_pair(pin, model));
-    if (g != nullptr) {
-        g->connect(pin, model);
+    if (pin_to_atomic.insert(std::make_pair(pin, model)).second) {
+        for (unsigned int i = 0; i < instances; i++) {
+            g->connect(pin, model);
+        }
     }
 }
 
 template <typename ValueType, typename TimeType>
 void Coupled<ValueType, TimeType>::remove_coupling(
     pin_t pin, std::shared_ptr<Atomic<ValueType, TimeType>> model) {
-    pin_to_atomic.erase(std::make_pair(pin, model));
-    if (g != nullptr) {
-        g->disconnect(pin, model);
+    if (pin_to_atomic.erase(std::make_pair(pin, model)) > 0) {
+        for (unsigned int i = 0; i < instances; i++) {
+            g->disconnect(pin, model);
+        }
     }
 }
 
 template <typename ValueType, typename TimeType>
 void Coupled<ValueType, TimeType>::create_coupling(pin_t src, pin_t dst) {
-    pin_to_pin.insert(std::make_pair(src, dst));
-    if (g != nullptr) {
-        g->connect(src, dst);
+    if (pin_to_pin.insert(std::make_pair(src, dst)).second) {
+        for (unsigned int i = 0; i < instances; i++) {
+            g->connect(src, dst);
+        }
     }
 }
 
 template <typename ValueType, typename TimeType>
 void Coupled<ValueType, TimeType>::remove_coupling(pin_t src, pin_t dst) {
-    pin_to_pin.erase(std::make_pair(src, dst));
-    if (g != nullptr) {
-        g->disconnect(src, dst);
+    if (pin_to_pin.erase(std::make_pair(src, dst)) > 0) {
+        for (unsigned int i = 0; i < instances; i++) {
+            g->disconnect(src, dst);
+        }
     }
 }
 
 template <typename ValueType, typename TimeType>
 void Coupled<ValueType, TimeType>::assign_to_graph(Graph<ValueType, TimeType>* graph) {
-    g = graph;
+    if (g != graph) {
+        g = graph;
+        instances = 0;
+    }
+    instances++;
     for (auto atomic : atomic_components) {
         g->add_atomic(atomic);
     }
@@ -572,13 +583,15 @@ void Coupled<ValueType, TimeType>::remove_from_graph() {
     for (auto coupled : coupled_components) {
         coupled->remove_from_graph();
     }
+    instances--;
 }
 
 template <typename ValueType, typename TimeType>
 void Coupled<ValueType, TimeType>::add_atomic(std::shared_ptr<Atomic<ValueType, TimeType>> model) {
-    atomic_components.insert(model);
-    if (g != nullptr) {
-        g->add_atomic(model);
+    if (atomic_components.insert(model).second) {
+        for (unsigned int i = 0; i < instances; i++) {
+            g->add_atomic(model);
+        }
     }
 }
 
@@ -589,7 +602,7 @@ void Coupled<ValueType, TimeType>::remove_atomic(
     auto iter = pin_to_atomic.begin();
     while (iter != pin_to_atomic.end()) {
         if ((*iter).second == model) {
-            if (g != nullptr) {
+            for (unsigned int i = 0; i < instances; i++) {
                 g->disconnect((*iter).first, model);
             }
             iter = pin_to_atomic.erase(iter);
@@ -597,27 +610,30 @@ void Coupled<ValueType, TimeType>::remove_atomic(
             iter++;
         }
     }
-    atomic_components.erase(model);
-    if (g != nullptr) {
-        g->remove_atomic(model);
+    if (atomic_components.erase(model) > 0) {
+        for (unsigned int i = 0; i < instances; i++) {
+            g->remove_atomic(model);
+        }
     }
 }
 
 template <typename ValueType, typename TimeType>
 void Coupled<ValueType, TimeType>::add_coupled_model(
     std::shared_ptr<Coupled<ValueType, TimeType>> model) {
-    coupled_components.insert(model);
-    if (g != nullptr) {
-        model->assign_to_graph(g);
+    if (coupled_components.insert(model).second) {
+        for (unsigned int i = 0; i < instances; i++) {
+            model->assign_to_graph(g);
+        }
     }
 }
 
 template <typename ValueType, typename TimeType>
 void Coupled<ValueType, TimeType>::remove_coupled_model(
     std::shared_ptr<Coupled<ValueType, TimeType>> model) {
-    coupled_components.erase(model);
-    if (g != nullptr) {
-        model->remove_from_graph();
+    if (coupled_components.erase(model) > 0) {
+        for (unsigned int i = 0; i < instances; i++) {
+            model->remove_from_graph();
+        }
     }
 }
 
-- 
2.43.0


From ece52d5fe047d9c31635bf96e2f15d537ac47a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:20 +0000
Subject: [PATCH 08/28] fix: changing a coupled model after its simulator is
 destroyed must not use the destroyed graph

---
 include/adevs/models.h    | 34 +++++++++++++++++++++++++++-------
 include/adevs/simulator.h |  2 +-
 2 files changed, 28 insertions(+), 8 deletions(-)

diff --git a/include/adevs/models.h b/include/adevs/models.h
index 829a7d9..94210a6 100644
--- a/include/adevs/models.h
+++ b/include/adevs/models.h
@@ -405,7 +405,7 @@ class Coupled {
     /**
      * @brief Constructor creates a model without components or couplings.
      */
-    Coupled() : g(nullptr), instances(0) {}
+    Coupled() : instances(0) {}
     /**
      * @brief Destructor
      *
@@ -495,8 +495,9 @@ class Coupled {
   private:
     friend class Simulator<ValueType, TimeType>;
 
-    /// Graph that this model belongs to, if any
-    Graph<ValueType, TimeType>* g;
+    /// Graph that this model belongs to, if any. The graph is
+    /// destroyed with the simulator and this model can outlive it.
+    std::weak_ptr<Graph<ValueType, TimeType>> graph;
     /// Number of times this model appears in the graph
     unsigned int instances;
     std::set<std::shared_ptr<Atomic<ValueType, TimeType>>> atomic_components;
@@ -506,13 +507,22 @@ class Coupled {
     /// Pin to pin connections
     std::set<std::pair<pin_t, pin_t>> pin_to_pin;
 
-    void assign_to_graph(Graph<ValueType, TimeType>* graph);
+    /// Get the graph if there is one, otherwise there are no instances
+    std::shared_ptr<Graph<ValueType, TimeType>> get_graph() {
+        auto g = graph.lock();
+        if (g == nullptr) {
+            instances = 0;
+        }
+        return g;
+    }
+    void assign_to_graph(std::shared_ptr<Graph<ValueType, TimeType>> new_graph);
     void remove_from_graph();
 };
 
 template <typename ValueType, typename TimeType>
 void Coupled<ValueType, TimeType>::create_coupling(
     pin_t pin, std::shared_ptr<Atomic<ValueType, TimeType>> model) {
+    auto g = get_graph();
     if (pin_to_atomic.insert(std::make_pair(pin, model)).second) {
         for (unsigned int i = 0; i < instances; i++) {
             g->connect(pin, model);
@@ -523,6 +533,7 @@ void Coupled<ValueType, TimeType>::create_coupling(
 template <typename ValueType, typename TimeType>
 void Coupled<ValueType, TimeType>::remove_coupling(
     pin_t pin, std::shared_ptr<Atomic<ValueType, TimeType>> model) {
+    auto g = get_graph();
     if (pin_to_atomic.erase(std::make_pair(pin, model)) > 0) {
         for (unsigned int i = 0; i < instances; i++) {
             g->disconnect(pin, model);
@@ -532,6 +543,7 @@ void Coupled<ValueType, TimeType>::remove_coupling(
 
 template <typename ValueType, typename TimeType>
 void Coupled<ValueType, TimeType>::create_coupling(pin_t src, pin_t dst) {
+    auto g = get_graph();
     if (pin_to_pin.insert(std::make_pair(src, dst)).second) {
         for (unsigned int i = 0; i < instances; i++) {
             g->connect(src, dst);
@@ -541,6 +553,7 @@ void Coupled<ValueType, TimeType>::create_coupling(pin_t src, pin_t dst) {
 
 template <typename ValueType, typename TimeType>
 void Coupled<ValueType, TimeType>::remove_coupling(pin_t src, pin_t dst) {
+    auto g = get_graph();
     if (pin_to_pin.erase(std::make_pair(src, dst)) > 0) {
         for (unsigned int i = 0; i < instances; i++) {
             g->disconnect(src, dst);
@@ -549,9 +562,11 @@ void Coupled<ValueType, TimeType>::remove_coupling(pin_t src, pin_t dst) {
 }
 
 template <typename ValueType, typename TimeType>
-void Coupled<ValueType, TimeType>::assign_to_graph(Graph<ValueType, TimeType>* graph) {
-    if (g != graph) {
-        g = graph;
+void Coupled<ValueType, TimeType>::assign_to_graph(
+    std::shared_ptr<Graph<ValueType, TimeType>> new_graph) {
+    auto g = get_graph();
+    if (g != new_graph) {
+        graph = g = new_graph;
         instances = 0;
     }
     instances++;
@@ -571,6 +586,7 @@ void Coupled<ValueType, TimeType>::assign_to_graph(Graph<ValueType, TimeType>* g
 
 template <typename ValueType, typename TimeType>
 void Coupled<ValueType, TimeType>::remove_from_graph() {
+    auto g = get_graph();
     for (auto atomic : atomic_components) {
         g->remove_atomic(atomic);
     }
@@ -588,6 +604,7 @@ void Coupled<ValueType, TimeType>::remove_from_graph() {
 
 template <typename ValueType, typename TimeType>
 void Coupled<ValueType, TimeType>::add_atomic(std::shared_ptr<Atomic<ValueType, TimeType>> model) {
+    auto g = get_graph();
     if (atomic_components.insert(model).second) {
         for (unsigned int i = 0; i < instances; i++) {
             g->add_atomic(model);
@@ -598,6 +615,7 @@ void Coupled<ValueType, TimeType>::add_atomic(std::shared_ptr<Atomic<ValueType,
 template <typename ValueType, typename TimeType>
 void Coupled<ValueType, TimeType>::remove_atomic(
     std::shared_ptr<Atomic<ValueType, TimeType>> model) {
+    auto g = get_graph();
     // Remove the connections to the model that are part of this model
     auto iter = pin_to_atomic.begin();
     while (iter != pin_to_atomic.end()) {
@@ -620,6 +638,7 @@ void Coupled<ValueType, TimeType>::remove_atomic(
 template <typename ValueType, typename TimeType>
 void Coupled<ValueType, TimeType>::add_coupled_model(
     std::shared_ptr<Coupled<ValueType, TimeType>> model) {
+    auto g = get_graph();
     if (coupled_components.insert(model).second) {
         for (unsigned int i = 0; i < instances; i++) {
             model->assign_to_graph(g);
@@ -630,6 +649,7 @@ void Coupled<ValueType, TimeType>::add_coupled_model(
 template <typename ValueType, typename TimeType>
 void Coupled<ValueType, TimeType>::remove_coupled_model(
     std::shared_ptr<Coupled<ValueType, TimeType>> model) {
+    auto g = get_graph();
     if (coupled_components.erase(model) > 0) {
         for (unsigned int i = 0; i < instances; i++) {
             model->remove_from_graph();
diff --git a/include/adevs/simulator.h b/include/adevs/simulator.h
index 3cd4230..0494477 100644
--- a/include/adevs/simulator.h
+++ b/include/adevs/simulator.h
@@ -422,7 +422,7 @@ void Simulator<ValueType, TimeType>::calculate_mealy_output(
 template <typename ValueType, typename TimeType>
 Simulator<ValueType, TimeType>::Simulator(std::shared_ptr<Coupled<ValueType, TimeType>> model)
     : graph(new Graph<ValueType, TimeType>()) {
-    model->assign_to_graph(graph.get());
+    model->assign_to_graph(graph);
     graph->set_provisional(true);
     for (auto atomic : graph->get_atomics()) {
         schedule(atomic.get(), adevs_zero<TimeType>());
-- 
2.43.0


From 6a9f05bdeb11f69426c5e472a7d3cb092440ead6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:45 +0000
Subject: [PATCH 09/28] fix: a loop of Mealy models found while retracting
 output is rejected, not followed forever

---
 include/adevs/simulator.h | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/adevs/simulator.h b/include/adevs/simulator.h
index 0494477..0f23c20 100644
--- a/include/adevs/simulator.h
+++ b/include/adevs/simulator.h
@@ -306,7 +306,8 @@ class Simulator {
     void schedule(Atomic<ValueType, TimeType>* model, TimeType t);
     void calculate_mealy_output(
         std::set<MealyAtomic<ValueType,TimeType>*>& path, MealyAtomic<ValueType,TimeType>* root);
-    void retract_mealy_output(MealyAtomic<ValueType,TimeType>* root);
+    void retract_mealy_output(
+        const std::set<MealyAtomic<ValueType,TimeType>*>& path, MealyAtomic<ValueType,TimeType>* root);
 };
 
 template <typename ValueType, typename TimeType>
@@ -330,6 +331,7 @@ Simulator<ValueType, TimeType>::Simulator(std::shared_ptr<Atomic<ValueType, Time
 
 template <typename ValueType, typename TimeType>
 void Simulator<ValueType, TimeType>::retract_mealy_output(
+    const std::set<MealyAtomic<ValueType,TimeType>*>& path,
     MealyAtomic<ValueType,TimeType>* root) {
 
     auto iter = root->receivers.begin();
@@ -343,8 +345,13 @@ void Simulator<ValueType, TimeType>::retract_mealy_output(
             }
         }
         if ((*iter)->isMealyAtomic() != nullptr) {
+            // The path leads to the root and so output from
+            // the root must not have reached the path
+            if (path.find((*iter)->isMealyAtomic()) != path.end()) {
+                throw adevs::exception("Cycles of Mealy models are illegal", root);
+            }
             orphaned.insert((*iter)->isMealyAtomic());
-            retract_mealy_output((*iter)->isMealyAtomic());
+            retract_mealy_output(path, (*iter)->isMealyAtomic());
         }
         iter = root->receivers.erase(iter);
     }
@@ -362,7 +369,7 @@ void Simulator<ValueType, TimeType>::calculate_mealy_output(
     active.insert(root);
     orphaned.erase(root);
     // Retract our previous output
-    retract_mealy_output(root);
+    retract_mealy_output(path, root);
     // Clear the output list
     root->outputs.clear();
     // Gather the revisable input to this Mealy model
-- 
2.43.0


From b438c52f32d19e5fb6eb7595dad607cf64356091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:26 +0000
Subject: [PATCH 10/28] fix: the alternative schedule keeps track of the model
 that fills the place of a removed one

---
 include/adevs/schedule2.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/adevs/schedule2.h b/include/adevs/schedule2.h
index 68d0947..259f5a3 100644
--- a/include/adevs/schedule2.h
+++ b/include/adevs/schedule2.h
@@ -228,7 +228,12 @@ class Schedule {
         // initial element because it is being removed.
         model_heap[index] = model_heap.back();
         model_heap.pop_back();
-        percolate_down(index);
+        if (index < model_heap.size()) {
+            // The element that was last is now here. It can be smaller than its new
+            // parent, because it comes from another branch, or larger than a child.
+            model_index[model_heap[index].model] = index;
+            percolate_down(percolate_up(index));
+        }
     }
 
     // Restore the heap property by moving a model up the tree
-- 
2.43.0


From 21ad330d571629dd7774b920397a7946d2a4d7ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:44 +0000
Subject: [PATCH 11/28] fix: an explicit integrator keeps the step size found
 by its error control, also when the step was limited

---
 include/adevs/solvers/corrected_euler.h | 4 +++-
 include/adevs/solvers/rk_45.h           | 5 ++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/adevs/solvers/corrected_euler.h b/include/adevs/solvers/corrected_euler.h
index 9ce6be3..4a00c41 100644
--- a/include/adevs/solvers/corrected_euler.h
+++ b/include/adevs/solvers/corrected_euler.h
@@ -138,6 +138,7 @@ template <typename ValueType>
 double corrected_euler<ValueType>::integrate(double* q, double h_lim) {
     // Initial error estimate and step size
     double err = DBL_MAX, h = std::min<double>(h_cur * 1.1, std::min<double>(h_max, h_lim));
+    bool shrunk = false;
     for (;;) {
         // Copy q to the trial vector
         for (int i = 0; i < this->sys->numVars(); i++) {
@@ -147,13 +148,14 @@ double corrected_euler<ValueType>::integrate(double* q, double h_lim) {
         err = trial_step(h);
         // If the error is ok, then we have found the proper step size
         if (err <= err_tol) {  // Keep h if shrunk to control the error
-            if (h_lim >= h_cur) {
+            if (shrunk || h_lim >= h_cur) {
                 h_cur = h;
             }
             break;
         }
         // Otherwise shrink the step size and try again
         else {
+            shrunk = true;
             double h_guess = 0.8 * err_tol * h / fabs(err);
             if (h < h_guess) {
                 h *= 0.8;
diff --git a/include/adevs/solvers/rk_45.h b/include/adevs/solvers/rk_45.h
index 5a362a6..e1a18c2 100644
--- a/include/adevs/solvers/rk_45.h
+++ b/include/adevs/solvers/rk_45.h
@@ -138,6 +138,7 @@ template <typename ValueType>
 double rk_45<ValueType>::integrate(double* q, double h_lim) {
     // Initial error estimate and step size
     double err = DBL_MAX, h = std::min<double>(h_cur * 1.1, std::min<double>(h_max, h_lim));
+    bool shrunk = false;
     for (;;) {
         // Copy q to the trial vector
         for (int i = 0; i < this->sys->numVars(); i++) {
@@ -147,13 +148,15 @@ double rk_45<ValueType>::integrate(double* q, double h_lim) {
         err = trial_step(h);
         // If the error is ok, then we have found the proper step size
         if (err <= err_tol) {
-            if (h_cur <= h_lim) {
+            // Keep h if shrunk to control the error
+            if (shrunk || h_cur <= h_lim) {
                 h_cur = h;
             }
             break;
         }
         // Otherwise shrink the step size and try again
         else {
+            shrunk = true;
             double h_guess = 0.8 * pow(err_tol * pow(h, 4.0) / fabs(err), 0.25);
             if (h < h_guess) {
                 h *= 0.8;
-- 
2.43.0


From 56bad186d58b0a6aee0f43390468e3b6c8b53a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:37 +0000
Subject: [PATCH 12/28] fix: the fast event locator finds an event that is
 exactly at the end of its interval

---
 include/adevs/solvers/event_locators.h | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/include/adevs/solvers/event_locators.h b/include/adevs/solvers/event_locators.h
index cd8986b..8d0daec 100644
--- a/include/adevs/solvers/event_locators.h
+++ b/include/adevs/solvers/event_locators.h
@@ -307,7 +307,7 @@ class fast_event_locator : public event_locator<ValueType> {
 
   private:
     double const err_tol;
-    double *z0, *zf, *dq0, *dqh;
+    double *z0, *zf, *qh, *dq0, *dqh;
     spline* p;
 
     bool is_sign_change() const;
@@ -321,6 +321,7 @@ fast_event_locator<ValueType>::fast_event_locator(ode_system<ValueType>* sys, do
       err_tol(err_tol),
       z0(new double[sys->numEvents()]),
       zf(new double[sys->numEvents()]),
+      qh(new double[sys->numVars()]),
       dq0(NULL),
       dqh(NULL),
       p(NULL) {
@@ -335,6 +336,7 @@ template <typename ValueType>
 fast_event_locator<ValueType>::~fast_event_locator() {
     delete[] z0;
     delete[] zf;
+    delete[] qh;
     if (p != NULL) {
         delete[] dq0;
         delete[] dqh;
@@ -388,12 +390,25 @@ repeat:
         if (hh - hl < err_tol) {
             goto success;
         }
-        // Otherwise move the high end of the bracket
+        // Otherwise move the high end of the bracket and keep
+        // the solution and events found there
         hh = hg;
+        memcpy(qh, qend, sizeof(double) * this->sys->numVars());
+        for (int i = 0; i < N; i++) {
+            events[i] = is_sign_change(i);
+        }
     }
     // Event is between guess and high end of the bracket.
     else {
         hl = hg;
+        // If the bracket is now small enough then report the event
+        // at its high end. Do not look for it inside of the bracket
+        // because it could be exactly at the high end.
+        if (hh - hl < err_tol) {
+            h = hh;
+            memcpy(qend, qh, sizeof(double) * this->sys->numVars());
+            return true;
+        }
     }
     // New guess is midpoint of low and high guesses
     hg = (hh + hl) / 2.0;
-- 
2.43.0


From 7cc88a3d0e4b180eb501d448d35cfb600d8c8e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:48 +0000
Subject: [PATCH 13/28] fix: apply input that meets missed output of a Hybrid
 to the current state

The trial solution is ahead of it by the time to the next event.
---
 include/adevs/solvers/hybrid.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/adevs/solvers/hybrid.h b/include/adevs/solvers/hybrid.h
index 1534813..5495468 100644
--- a/include/adevs/solvers/hybrid.h
+++ b/include/adevs/solvers/hybrid.h
@@ -543,8 +543,15 @@ class Hybrid : public Atomic<ValueType, TimeType> {
     void delta_conf(std::list<adevs::PinValue<ValueType>> const &xb) {
         if (!missedOutput.empty()) {
             missedOutput.clear();
+            // Only the missed output was due at this time. The trial solution
+            // is ahead of it, and the input applies to the state as it is now.
             if (sigma > 0.0) {
                 event_exists = false;
+                sigma = 0.0;
+                for (int i = 0; i < sys->numVars(); i++) {
+                    q_trial[i] = q[i];
+                }
+                sys->postStep(q_trial);
             }
         }
         // Execute any discrete events
-- 
2.43.0


From d4a1b085f9e1c85a2da909258d0642daf2dea894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:48 +0000
Subject: [PATCH 14/28] fix: do not repeat the output of an event that
 coincides with missed output of a Hybrid

The event was left for another cycle after its output was sent with the missed output.
---
 include/adevs/solvers/hybrid.h | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/include/adevs/solvers/hybrid.h b/include/adevs/solvers/hybrid.h
index 5495468..8b48fe6 100644
--- a/include/adevs/solvers/hybrid.h
+++ b/include/adevs/solvers/hybrid.h
@@ -476,7 +476,10 @@ class Hybrid : public Atomic<ValueType, TimeType> {
     void delta_int() {
         if (!missedOutput.empty()) {
             missedOutput.clear();
-            return;
+            // Only the missed output was due at this time
+            if (sigma > 0.0) {
+                return;
+            }
         }
         e_accum += ta();
         // Execute any discrete events
@@ -588,16 +591,15 @@ class Hybrid : public Atomic<ValueType, TimeType> {
             for (auto iter : missedOutput) {
                 yb.push_back(iter);
             }
-            if (sigma == 0.0) {  // Confluent event
-                sys->output_func(q_trial, event, yb);
-            }
-        } else {
-            // Let the model adjust algebraic variables, etc. for the new state
-            sys->postStep(q_trial);
-            if (event_exists) {
-                sys->output_func(q_trial, event, yb);
+            if (sigma > 0.0) {
+                return;
             }
         }
+        // Let the model adjust algebraic variables, etc. for the new state
+        sys->postStep(q_trial);
+        if (event_exists) {
+            sys->output_func(q_trial, event, yb);
+        }
     }
 
   private:
-- 
2.43.0


From 3a7c672568621f62e57e979957f84cdfa96d91f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:48 +0000
Subject: [PATCH 15/28] fix: handle a state event found at an input to a Hybrid
 at the time of the input

The state was left where the event locator stopped, so the model fell behind the
simulation clock, and a time event that was still ahead was reported with it.
---
 include/adevs/solvers/hybrid.h | 34 +++++++++++++++++++++++++++++-----
 1 file changed, 29 insertions(+), 5 deletions(-)

diff --git a/include/adevs/solvers/hybrid.h b/include/adevs/solvers/hybrid.h
index 8b48fe6..921ec4a 100644
--- a/include/adevs/solvers/hybrid.h
+++ b/include/adevs/solvers/hybrid.h
@@ -35,6 +35,8 @@
 #include <algorithm>
 #include <any>
 #include <cmath>
+#include <memory>
+#include <vector>
 #include "adevs/models.h"
 
 
@@ -507,11 +509,7 @@ class Hybrid : public Atomic<ValueType, TimeType> {
         event_happened = true;
         // Check that we have not missed a state event
         if (event_exists) {
-            for (int i = 0; i < sys->numVars(); i++) {
-                q_trial[i] = q[i];
-            }
-            solver->advance(q_trial, e);
-            state_event_exists = event_finder->find_events(event, q, q_trial, solver, e);
+            state_event_exists = missed_events(e);
             // We missed an event
             if (state_event_exists) {
                 output_func(missedOutput);
@@ -613,6 +611,32 @@ class Hybrid : public Atomic<ValueType, TimeType> {
     bool event_happened;  // True if a discrete event in the ode_system took place
     double e_accum;       // Accumulated time between discrete events
     std::list<adevs::PinValue<ValueType>> missedOutput;  // Output missed at an external event
+    // Advance the trial solution to time e, which is ahead of the next time event,
+    // and flag every state event that occurs on the way.
+    bool missed_events(double e) {
+        int const N = sys->numVars(), M = sys->numEvents();
+        std::vector<double> q_from(q, q + N);
+        std::unique_ptr<bool[]> found(new bool[M + 1]);
+        bool state_event_exists = false;
+        std::fill(event, event + M + 1, false);
+        while (true) {
+            double h = e;
+            std::copy(q_from.begin(), q_from.end(), q_trial);
+            solver->advance(q_trial, e);
+            if (event_finder->find_events(found.get(), q_from.data(), q_trial, solver, h)) {
+                state_event_exists = true;
+                for (int i = 0; i < M; i++) {
+                    event[i] = event[i] || found[i];
+                }
+            }
+            if (h >= e) {
+                return state_event_exists;
+            }
+            // The locator stopped early, so continue from there
+            e -= h;
+            q_from.assign(q_trial, q_trial + N);
+        }
+    }
     // Execute a tentative step and calculate the time advance function
     void tentative_step() {
         // Check for a time event
-- 
2.43.0


From cb6b813ef8aa6b533b75f88fb1c1419c0005c44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:29 +0000
Subject: [PATCH 16/28] fix: rk_45 destructor leaks its trial solution

---
 include/adevs/solvers/rk_45.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/adevs/solvers/rk_45.h b/include/adevs/solvers/rk_45.h
index e1a18c2..803c311 100644
--- a/include/adevs/solvers/rk_45.h
+++ b/include/adevs/solvers/rk_45.h
@@ -120,6 +120,7 @@ rk_45<ValueType>::rk_45(ode_system<ValueType>* sys, double err_tol, double h_max
 template <typename ValueType>
 rk_45<ValueType>::~rk_45() {
     delete[] dq;
+    delete[] qq;
     delete[] t;
     for (int i = 0; i < 6; i++) {
         delete[] k[i];
-- 
2.43.0


From 554dda236e0a1f96731e7c61c38be845e2128ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:29 +0000
Subject: [PATCH 17/28] fix: eventHappened of a Hybrid is undefined before the
 first event

---
 include/adevs/solvers/hybrid.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/adevs/solvers/hybrid.h b/include/adevs/solvers/hybrid.h
index 921ec4a..a2367b9 100644
--- a/include/adevs/solvers/hybrid.h
+++ b/include/adevs/solvers/hybrid.h
@@ -416,7 +416,11 @@ class Hybrid : public Atomic<ValueType, TimeType> {
      */
     Hybrid(ode_system<ValueType>* sys, ode_solver<ValueType>* solver,
            event_locator<ValueType>* event_finder)
-        : sys(sys), solver(solver), event_finder(event_finder), e_accum(0.0) {
+        : sys(sys),
+          solver(solver),
+          event_finder(event_finder),
+          event_happened(false),
+          e_accum(0.0) {
         q = new double[sys->numVars()];
         q_trial = new double[sys->numVars()];
         event = new bool[sys->numEvents() + 1];
-- 
2.43.0


From f0049bd1b221337a2c7d20ff38072bb89ce5f6b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:29 +0000
Subject: [PATCH 18/28] fix: Hybrid deletes the system, solver, and event
 locator it adopts, as documented

---
 include/adevs/solvers/hybrid.h | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/include/adevs/solvers/hybrid.h b/include/adevs/solvers/hybrid.h
index a2367b9..88200a7 100644
--- a/include/adevs/solvers/hybrid.h
+++ b/include/adevs/solvers/hybrid.h
@@ -432,6 +432,19 @@ class Hybrid : public Atomic<ValueType, TimeType> {
         tentative_step();  // Take the first tentative step
     }
 
+    Hybrid(Hybrid const &) = delete;
+    Hybrid &operator=(Hybrid const &) = delete;
+
+    /// @brief Destructor deletes the system, solver, and event locator.
+    ~Hybrid() {
+        delete event_finder;
+        delete solver;
+        delete sys;
+        delete[] q;
+        delete[] q_trial;
+        delete[] event;
+    }
+
     /**
      * @brief Get the value of the kth continuous state variable
      *
-- 
2.43.0


From 3b7d5b9058491633ba0882d6b729bfda10c88173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:17 +0000
Subject: [PATCH 19/28] fix: flags of state events are undefined if the event
 locator does not set them

The null_event_locator leaves them alone.
---
 include/adevs/solvers/hybrid.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/adevs/solvers/hybrid.h b/include/adevs/solvers/hybrid.h
index 88200a7..87098e0 100644
--- a/include/adevs/solvers/hybrid.h
+++ b/include/adevs/solvers/hybrid.h
@@ -661,6 +661,7 @@ class Hybrid : public Atomic<ValueType, TimeType> {
         // Integrate up to that time at most
         double step_size = solver->integrate(q_trial, time_event);
         // Look for state events inside of the interval [0,step_size]
+        std::fill(event, event + sys->numEvents(), false);
         bool state_event_exists = event_finder->find_events(event, q, q_trial, solver, step_size);
         // Find the time advance and set the time event flag
         sigma = std::min<double>(step_size, time_event);
-- 
2.43.0


From 4be63830b593d804230c62d861b50720d38d0373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:36 +0000
Subject: [PATCH 20/28] fix: CVODE repeats an event if the next step does not
 reset the event parameter

The documentation asks that it be set to true at an event, and not otherwise.
---
 include/adevs/solvers/cvode.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/adevs/solvers/cvode.h b/include/adevs/solvers/cvode.h
index 3bddfa7..e9a3a4b 100644
--- a/include/adevs/solvers/cvode.h
+++ b/include/adevs/solvers/cvode.h
@@ -216,6 +216,7 @@ double CVODE<ValueType>::ta() {
         y_checkpoint = N_VClone(this->cvode_get_state());
         N_VAddConst(this->cvode_get_state(), 0.0, y_checkpoint);
     }
+    has_event = false;
     this->cvode_integrate(t_projected, has_event);
     return t_projected - t;
 }
@@ -245,6 +246,7 @@ template <typename ValueType>
 void CVODE<ValueType>::delta_ext(double e, std::list<PinValue<ValueType>> const &xb) {
     this->cvode_reinit(y_checkpoint, t);
     t += e;
+    has_event = false;
     this->cvode_integrate_until(t, has_event);
     if (has_event) {
         this->cvode_delta_conf(xb);
-- 
2.43.0


From c263e67406be9aca87719e665db670a1b8a5eeeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:14 +0000
Subject: [PATCH 21/28] fix: columns of the Jacobian of an FMU have one more
 row, for time

---
 include/adevs/solvers/fmi.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/adevs/solvers/fmi.h b/include/adevs/solvers/fmi.h
index 23976ab..e790bc6 100644
--- a/include/adevs/solvers/fmi.h
+++ b/include/adevs/solvers/fmi.h
@@ -359,7 +359,7 @@ bool ModelExchange<ValueType>::get_jacobian(double const* q, double* J) {
     // API state_var and jac_col would be in reversed positions.
     for (fmi2_value_reference_t state_var = 0; state_var < N; state_var++) {
         status = fmi2_import_get_directional_derivative(fmu, &state_var, 1, jac_col, N, jac_v,
-                                                        J + state_var * N);
+                                                        J + state_var * (N + 1));
         assert(status == fmi2_status_ok);
     }
     // Partial of time is 1 and nobody else depends on it. This, of course, may
-- 
2.43.0


From cb8eeb4954b4b126393c0f34b5ca760442c2a0e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:14 +0000
Subject: [PATCH 22/28] fix: the derivative of time does not depend on time in
 the Jacobian of an FMU

---
 include/adevs/solvers/fmi.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/adevs/solvers/fmi.h b/include/adevs/solvers/fmi.h
index e790bc6..34f3602 100644
--- a/include/adevs/solvers/fmi.h
+++ b/include/adevs/solvers/fmi.h
@@ -362,11 +362,11 @@ bool ModelExchange<ValueType>::get_jacobian(double const* q, double* J) {
                                                         J + state_var * (N + 1));
         assert(status == fmi2_status_ok);
     }
-    // Partial of time is 1 and nobody else depends on it. This, of course, may
-    // be wrong but FMU does not appear to support partials of f with respect to
-    // time. If you really need this, add dtau/dt = 1 to your equation set and use
-    // tau as your time variable.
-    J[(N + 1) * (N + 1) - 1] = 1.0;
+    // The derivative of time is the constant 1, so its partials are zero, and
+    // nobody else depends on time. This, of course, may be wrong but FMU does
+    // not appear to support partials of f with respect to time. If you really
+    // need this, add dtau/dt = 1 to your equation set and use tau as your time
+    // variable.
     return true;
 }
 
-- 
2.43.0


From 5ea6b171e5112738ee10b159180349f1e49f779b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:40 +0000
Subject: [PATCH 23/28] fix: do not terminate an FMU that was never initialized

---
 include/adevs/solvers/fmi.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/adevs/solvers/fmi.h b/include/adevs/solvers/fmi.h
index 34f3602..d697546 100644
--- a/include/adevs/solvers/fmi.h
+++ b/include/adevs/solvers/fmi.h
@@ -177,6 +177,8 @@ class ModelExchange : public ode_system<ValueType> {
     double t_now;
     // Are we in continuous time mode?
     bool cont_time_mode;
+    // Has the FMU been initialized?
+    bool initialized;
 
     void iterate_events();
     /// Identifiers for variables used to calculate the
@@ -250,6 +252,7 @@ ModelExchange<ValueType>::ModelExchange(char const* const fmu_file, double toler
       next_time_event(adevs_inf<double>()),
       t_now(0.0),
       cont_time_mode(false),
+      initialized(false),
       jac_col(nullptr),
       jac_v(nullptr) {
 
@@ -401,6 +404,7 @@ void ModelExchange<ValueType>::init(double* q) {
     // Done with initialization
     status = fmi2_import_exit_initialization_mode(fmu);
     assert(status == fmi2_status_ok);
+    initialized = true;
     // Put into consistent initial state
     iterate_events();
     // Enter continuous time mode to start integration
@@ -553,7 +557,10 @@ void ModelExchange<ValueType>::output_func(double const* q, bool const* state_ev
 
 template <typename ValueType>
 ModelExchange<ValueType>::~ModelExchange() {
-    fmi2_import_terminate(fmu);
+    // Only a model that was initialized can be terminated
+    if (initialized) {
+        fmi2_import_terminate(fmu);
+    }
     fmi2_import_free_instance(fmu);
     fmi2_import_destroy_dllfmu(fmu);
     fmi2_import_free(fmu);
-- 
2.43.0


From 9923ef1b5206eccadc62b5e51dfbf5e6056a11f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:48 +0000
Subject: [PATCH 24/28] fix: an FMU event due at the current time failed an
 assertion with the implicit integrator

The trial step of a solver that is given no time to advance need not
evaluate the derivatives, which left the FMU in event mode.
---
 include/adevs/solvers/fmi.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/adevs/solvers/fmi.h b/include/adevs/solvers/fmi.h
index d697546..5f52c52 100644
--- a/include/adevs/solvers/fmi.h
+++ b/include/adevs/solvers/fmi.h
@@ -493,9 +493,15 @@ void ModelExchange<ValueType>::postStep(double* q) {
 
 template <typename ValueType>
 void ModelExchange<ValueType>::postTrialStep(double* q) {
-    assert(cont_time_mode);
-    // Restore values changed by der_func and state_event_func
     fmi2_status_t status;
+    // The trial step of a solver that is given no time to advance need not
+    // evaluate the derivatives, and then we are still in event mode
+    if (!cont_time_mode) {
+        status = fmi2_import_enter_continuous_time_mode(fmu);
+        assert(status == fmi2_status_ok);
+        cont_time_mode = true;
+    }
+    // Restore values changed by der_func and state_event_func
     status = fmi2_import_set_time(fmu, q[this->numVars() - 1]);
     assert(status == fmi2_status_ok);
     status = fmi2_import_set_continuous_states(fmu, q, this->numVars() - 1);
-- 
2.43.0


From b74fdfac34ef465dbd29ba7a378879d88c36bf0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:43 +0000
Subject: [PATCH 25/28] fix: pin identities repeat after 2^32 pins

Every cycle of a simulation creates pins, so a long simulation gets there.
---
 include/adevs/models.h | 4 ++--
 src/adevs.cpp          | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/adevs/models.h b/include/adevs/models.h
index 94210a6..dcddd8d 100644
--- a/include/adevs/models.h
+++ b/include/adevs/models.h
@@ -130,8 +130,8 @@ class pin_t {
     bool operator>(pin_t const &src) const { return (id > src.id); }
 
   private:
-    static std::atomic<int> atom;
-    int id;
+    static std::atomic<unsigned long long> atom;
+    unsigned long long id;
 };
 
 /**
diff --git a/src/adevs.cpp b/src/adevs.cpp
index a15ee4d..4d88508 100644
--- a/src/adevs.cpp
+++ b/src/adevs.cpp
@@ -4,7 +4,7 @@
 using pin_t = adevs::pin_t;
 using double_fcmp = adevs::double_fcmp;
 
-std::atomic<int> pin_t::atom(0);
+std::atomic<unsigned long long> pin_t::atom(0);
 
 int double_fcmp::fcmp(double x1, double x2, double epsilon) {
     int exponent;
-- 
2.43.0


From 0103b39f231b17a29b0f81b9fad37be006154958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:39 +0000
Subject: [PATCH 26/28] fix: a model left in the schedule of an earlier
 simulator is never executed by the next one

---
 include/adevs/sched.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/adevs/sched.h b/include/adevs/sched.h
index cec025d..342d1c5 100644
--- a/include/adevs/sched.h
+++ b/include/adevs/sched.h
@@ -148,6 +148,10 @@ void Schedule<ValueType, TimeType>::removeMinimum() {
 template <class ValueType, class TimeType>
 void Schedule<ValueType, TimeType>::schedule(Atomic<ValueType, TimeType>* model,
                                              TimeType priority) {
+    // An index that is left from another schedule means nothing here
+    if (model->q_index > size || heap[model->q_index].item != model) {
+        model->q_index = 0;
+    }
     // If the model is in the schedule
     if (model->q_index != 0) {
         // Remove the model if the next event time is infinite
-- 
2.43.0


From bbe9eb6566971842b9a22f5bb2c7609f488b215f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:58 +0000
Subject: [PATCH 27/28] fix: input and output of an unfinished cycle reach the
 next simulator of a model

---
 include/adevs/simulator.h | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/include/adevs/simulator.h b/include/adevs/simulator.h
index 0f23c20..d297ca7 100644
--- a/include/adevs/simulator.h
+++ b/include/adevs/simulator.h
@@ -304,6 +304,7 @@ class Simulator {
     TimeType tNext;
 
     void schedule(Atomic<ValueType, TimeType>* model, TimeType t);
+    void forget_events(Atomic<ValueType, TimeType>* model);
     void calculate_mealy_output(
         std::set<MealyAtomic<ValueType,TimeType>*>& path, MealyAtomic<ValueType,TimeType>* root);
     void retract_mealy_output(
@@ -315,6 +316,7 @@ Simulator<ValueType, TimeType>::Simulator(std::shared_ptr<Graph<ValueType, TimeT
     : graph(model) {
     graph->set_provisional(true);
     for (auto atomic : model->get_atomics()) {
+        forget_events(atomic.get());
         schedule(atomic.get(), adevs_zero<TimeType>());
     }
     tNext = sched.minPriority();
@@ -325,6 +327,7 @@ Simulator<ValueType, TimeType>::Simulator(std::shared_ptr<Atomic<ValueType, Time
     : graph(new Graph<ValueType, TimeType>()) {
     graph->add_atomic(model);
     graph->set_provisional(true);
+    forget_events(model.get());
     schedule(model.get(), adevs_zero<TimeType>());
     tNext = sched.minPriority();
 }
@@ -432,6 +435,7 @@ Simulator<ValueType, TimeType>::Simulator(std::shared_ptr<Coupled<ValueType, Tim
     model->assign_to_graph(graph);
     graph->set_provisional(true);
     for (auto atomic : graph->get_atomics()) {
+        forget_events(atomic.get());
         schedule(atomic.get(), adevs_zero<TimeType>());
     }
     tNext = sched.minPriority();
@@ -581,6 +585,7 @@ TimeType Simulator<ValueType, TimeType>::computeNextState() {
                 // not change that model's schedule.
                 if (graph->get_atomics().count(op.model) == 0) {
                     graph->add_atomic(op.model);
+                    forget_events(op.model.get());
                     schedule(op.model.get(), t);
                 } else {
                     graph->add_atomic(op.model);
@@ -616,6 +621,17 @@ TimeType Simulator<ValueType, TimeType>::computeNextState() {
     return t;
 }
 
+template <class ValueType, class TimeType>
+void Simulator<ValueType, TimeType>::forget_events(Atomic<ValueType, TimeType>* model) {
+    // An earlier simulator of this model may have stopped in the middle of a cycle
+    model->inputs.clear();
+    model->outputs.clear();
+    model->revisable_inputs.clear();
+    if (model->isMealyAtomic() != nullptr) {
+        model->isMealyAtomic()->receivers.clear();
+    }
+}
+
 template <class ValueType, class TimeType>
 void Simulator<ValueType, TimeType>::schedule(Atomic<ValueType, TimeType>* model, TimeType t) {
     model->tL = t;
-- 
2.43.0


From dc763f60c56cf3bc39585cba10311b3449333131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:58 +0000
Subject: [PATCH 28/28] fix: advancing a super-dense time by a small step can
 move it back

A step whose real part was too small to change the real part of the time
replaced the integer part, so that (1,5) + (1e-30,0) was (1,0). A simulator
of such a model went back in time.
---
 include/adevs/time.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/adevs/time.h b/include/adevs/time.h
index f5a5c22..c60df1f 100644
--- a/include/adevs/time.h
+++ b/include/adevs/time.h
@@ -115,7 +115,9 @@ class sd_time {
     }
     /// @brief Advance this value by a step size t2
     sd_time const &operator+=(sd_time const &t2) {
-        if (t2.t == 0) {
+        // A step that is too small to change the real part must not
+        // reset the integer part, which would move this time back
+        if (t + t2.t == t) {
             k += t2.k;
         } else {
             t += t2.t;
-- 
2.43.0

