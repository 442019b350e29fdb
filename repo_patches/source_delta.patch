From fbea0fbbffe0263ba819b8a01cea201493b4fff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:19 +0000
Subject: [PATCH 01/23] fix: do not disable an edge twice when zero and full
 propagation are combined

With propagation mode zero and a propagate-root or propagate-budget both
propagate_zero_ and propagate_full_ run for the same edge and both disabled
it, which failed an assertion (or corrupted degrees and candidate lists).
---
 libclingo-dl/src/graph.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libclingo-dl/src/graph.cc b/libclingo-dl/src/graph.cc
index a2867ca..beac72d 100644
--- a/libclingo-dl/src/graph.cc
+++ b/libclingo-dl/src/graph.cc
@@ -858,7 +858,10 @@ template <typename T> auto Graph<T>::propagate_full_(Clingo::PropagateControl &c
     //
     // There is a negative cycle, if cost(x ->* u) + cost(v *<- y) - cost(x -> y) + cost(u -> v) is negative.
     ++stats_.edges_propagated;
-    disable_edge(xy_idx);
+    // Note: the edge might have been disabled by propagation through the zero node already
+    if (edge_is_enabled(xy_idx)) {
+        disable_edge(xy_idx);
+    }
     auto &xy = edges_[xy_idx];
     auto &x = vertices_[xy.from];
     auto &y = vertices_[xy.to];
-- 
2.43.0


From 281a94168384b9dcb7af955be20fefcaa601261c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:42 +0000
Subject: [PATCH 02/23] fix: propagate facts and add watches in threads that
 did not exist in earlier steps

---
 libclingo-dl/clingo-dl/propagator.hh |  7 +--
 libclingo-dl/src/propagator.cc       | 76 ++++++++++++++++++----------
 2 files changed, 52 insertions(+), 31 deletions(-)

diff --git a/libclingo-dl/clingo-dl/propagator.hh b/libclingo-dl/clingo-dl/propagator.hh
index b1eff00..47e87c1 100644
--- a/libclingo-dl/clingo-dl/propagator.hh
+++ b/libclingo-dl/clingo-dl/propagator.hh
@@ -123,10 +123,11 @@ template <typename T> class DLPropagator : public Clingo::Heuristic {
     [[nodiscard]] auto add_edges_(Clingo::PropagateInit &init, literal_t literal, CoVarVec const &covec, value_t rhs,
                                   bool strict) -> bool;
     //! Add up to two edges for a constraint.
-    void add_edges_(Clingo::PropagateInit &init, vertex_t u_id, vertex_t v_id, value_t weight, literal_t lit,
-                    bool strict);
+    void add_edges_(vertex_t u_id, vertex_t v_id, value_t weight, literal_t lit, bool strict);
     //! Add (up to one) edge for a constraint.
-    void add_edge_(Clingo::PropagateInit &init, vertex_t u_id, vertex_t v_id, value_t weight, literal_t lit);
+    void add_edge_(vertex_t u_id, vertex_t v_id, value_t weight, literal_t lit);
+    //! Add watches for the edges that are not yet watched in a thread.
+    void add_watches_(Clingo::PropagateInit &init);
     //! Reset connected components (to be recalculated with the next call to cc_calculate_).
     void cc_reset_();
     //! Mark a vertex in a component as visited.
diff --git a/libclingo-dl/src/propagator.cc b/libclingo-dl/src/propagator.cc
index 54276a8..1fc7edc 100644
--- a/libclingo-dl/src/propagator.cc
+++ b/libclingo-dl/src/propagator.cc
@@ -99,14 +99,16 @@ template <typename T> struct DLPropagator<T>::ThreadState {
     uint64_t propagate_budget;             //!< The maximum budget invested into propagation.
 };
 
-//! Struct to store facts to repropagate.
+//! Struct to store which facts to repropagate.
 //!
 //! The solver never backtracks the top-level level. When solving a new step,
-//! we simply rebuild the per thread states and repropagate the facts stored
-//! here.
+//! we simply rebuild the per thread states and repropagate the facts that the
+//! solver does not report again. Since the number of threads can change
+//! between steps, we also have to remember which edges a thread watches.
 template <typename T> struct DLPropagator<T>::FactState {
-    std::vector<literal_t> lits; //!< Literals that are true on level 0.
-    size_t limit{0};             //!< Offset until which literals have to be repropagated.
+    std::vector<literal_t> lits; //!< Literals propagated on level 0 in the current step.
+    edge_t watched{0};           //!< Number of edges whose literals are watched.
+    bool pending{false};         //!< Whether there might be facts that have to be repropagated.
 };
 
 template <typename T>
@@ -167,6 +169,7 @@ template <typename T> void DLPropagator<T>::init(Clingo::PropagateInit &init) {
     if (!add_constraints_(init)) {
         return;
     }
+    add_watches_(init);
 
     // build adjacency list
     AdjacencyMap outgoing;
@@ -188,9 +191,8 @@ template <typename T> void DLPropagator<T>::init(Clingo::PropagateInit &init) {
 }
 
 template <typename T> void DLPropagator<T>::propagate(Clingo::PropagateControl &ctl, Clingo::LiteralSpan changes) {
-    // add facts for propagation at the next step
-    if (ctl.assignment().decision_level() == 0) {
-        auto &facts = facts_[ctl.thread_id()];
+    // remember facts that do not have to be repropagated
+    if (auto &facts = facts_[ctl.thread_id()]; facts.pending && ctl.assignment().decision_level() == 0) {
         facts.lits.insert(facts.lits.end(), changes.begin(), changes.end());
     }
     do_propagate(ctl, changes);
@@ -208,10 +210,23 @@ template <typename T> void DLPropagator<T>::check(Clingo::PropagateControl &ctl)
     ThreadState &state = states_[ctl.thread_id()];
     auto &facts = facts_[ctl.thread_id()];
     auto assignment = ctl.assignment();
-    // propagate facts from previous step
-    if (assignment.decision_level() == 0 && facts.limit > 0) {
-        do_propagate(ctl, {facts.lits.data(), facts.lits.data() + facts.limit}); // NOLINT
-        facts.limit = 0;
+    // propagate facts from previous steps
+    if (assignment.decision_level() == 0 && facts.pending) {
+        facts.pending = false;
+        std::unordered_set<literal_t> seen{facts.lits.begin(), facts.lits.end()};
+        std::vector<literal_t> lits;
+        for (auto const &edge : edges_) {
+            auto truth = assignment.truth_value(edge.lit);
+            if (truth != Clingo::TruthValue::Free) {
+                auto lit = truth == Clingo::TruthValue::True ? edge.lit : -edge.lit;
+                if (seen.emplace(lit).second) {
+                    lits.emplace_back(lit);
+                }
+            }
+        }
+        if (!lits.empty()) {
+            do_propagate(ctl, {lits.data(), lits.data() + lits.size()}); // NOLINT
+        }
     }
 #if defined(CLINGODL_CHECKSOLUTION) || defined(CLINGODL_CROSSCHECK)
     if (ctl.assignment().is_total()) {
@@ -402,31 +417,38 @@ auto DLPropagator<T>::add_edges_(Clingo::PropagateInit &init, literal_t literal,
             throw std::runtime_error(msg);
         }
     }
-    add_edges_(init, u_id, v_id, rhs, literal, strict);
+    add_edges_(u_id, v_id, rhs, literal, strict);
     return true;
 }
 
 template <typename T>
-void DLPropagator<T>::add_edges_(Clingo::PropagateInit &init, vertex_t u_id, vertex_t v_id, value_t weight,
-                                 literal_t lit, bool strict) {
-    add_edge_(init, u_id, v_id, weight, lit);
+void DLPropagator<T>::add_edges_(vertex_t u_id, vertex_t v_id, value_t weight, literal_t lit, bool strict) {
+    add_edge_(u_id, v_id, weight, lit);
     if (strict) {
-        add_edge_(init, v_id, u_id, -weight - 1, -lit);
+        add_edge_(v_id, u_id, -weight - 1, -lit);
     }
 }
 
 template <typename T>
-void DLPropagator<T>::add_edge_(Clingo::PropagateInit &init, vertex_t u_id, vertex_t v_id, value_t weight,
-                                literal_t lit) {
+void DLPropagator<T>::add_edge_(vertex_t u_id, vertex_t v_id, value_t weight, literal_t lit) {
     auto id = numeric_cast<edge_t>(edges_.size());
     edges_.push_back({u_id, v_id, weight, lit});
     lit_to_edges_.emplace(lit, id);
+}
+
+template <typename T> void DLPropagator<T>::add_watches_(Clingo::PropagateInit &init) {
+    // Note: This also adds watches for edges of previous steps in threads that
+    // did not exist at that time.
+    facts_.resize(init.number_of_threads());
     for (int i = 0; i < init.number_of_threads(); ++i) {
-        init.add_watch(lit, i);
-        if (conf_.get_propagate_mode(i) >= PropagationMode::Zero || conf_.get_propagate_root(i) > 0 ||
-            conf_.get_propagate_budget(i) > 0) {
-            disable_edges_ = true;
-            init.add_watch(-lit, i);
+        bool disable = conf_.get_propagate_mode(i) >= PropagationMode::Zero || conf_.get_propagate_root(i) > 0 ||
+                       conf_.get_propagate_budget(i) > 0;
+        disable_edges_ = disable_edges_ || disable;
+        for (auto &id = facts_[i].watched; id < numeric_cast<edge_t>(edges_.size()); ++id) {
+            init.add_watch(edges_[id].lit, i);
+            if (disable) {
+                init.add_watch(-edges_[id].lit, i);
+            }
         }
     }
 }
@@ -617,13 +639,11 @@ void DLPropagator<T>::calculate_mutexes_(Clingo::PropagateInit &init, edge_t edg
 template <typename T> void DLPropagator<T>::initialize_states_(Clingo::PropagateInit &init) {
     states_.clear();
     stats_.thread_statistics.resize(init.number_of_threads());
-    if (facts_.size() < numeric_cast<size_t>(init.number_of_threads())) {
-        facts_.resize(init.number_of_threads());
-    }
     for (Clingo::id_t i = 0; i < numeric_cast<Clingo::id_t>(init.number_of_threads()); ++i) {
         states_.emplace_back(stats_.thread_statistics[i], edges_, conf_.get_propagate_mode(i),
                              conf_.get_propagate_root(i), conf_.get_propagate_budget(i));
-        facts_[i].limit = facts_[i].lits.size();
+        facts_[i].lits.clear();
+        facts_[i].pending = true;
     }
 }
 
-- 
2.43.0


From 52881ebbe8559fc5119268bbe896f978f6b067f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:45 +0000
Subject: [PATCH 03/23] fix: consider parallel edges when determining relevant
 vertices during full propagation

---
 libclingo-dl/src/graph.cc | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/libclingo-dl/src/graph.cc b/libclingo-dl/src/graph.cc
index beac72d..8f5cc70 100644
--- a/libclingo-dl/src/graph.cc
+++ b/libclingo-dl/src/graph.cc
@@ -391,24 +391,20 @@ template <typename T> template <typename D> struct Graph<T>::Impl : Graph {
                 // this. Explicitely using uv.from and uv.to is intended here.
                 auto c = cost(u_idx) + vertices_[uv.from].potential() + uv.weight - vertices_[uv.to].potential();
                 assert(vertices_[uv.from].potential() + uv.weight - vertices_[uv.to].potential() >= 0);
-                if (!visited(v_idx) || less(c, relevant_u, v_idx)) {
-                    bool relevant_v = relevant(v_idx);
+                // Note: The relevant edge can have parallel edges.
+                bool relevant_uv = relevant_u || uv_idx == relevant_idx;
+                if (!visited(v_idx) || less(c, relevant_uv, v_idx)) {
                     cost(v_idx) = c;
+                    // vertex v became or lost relevance
+                    if (relevant_uv != relevant(v_idx)) {
+                        relevant(v_idx) = relevant_uv;
+                        num_relevant += relevant_uv ? 1 : -1;
+                    }
                     if (!visited(v_idx)) {
-                        // vertex v became relevant
-                        if (relevant_u && !relevant_v) {
-                            ++num_relevant;
-                        }
                         visited_set().push_back(to(uv_idx));
                         visited(v_idx) = true;
-                        relevant(v_idx) = relevant_u || uv_idx == relevant_idx;
                         costs_heap_.push(*this, v_idx);
                     } else {
-                        // vertex v became or lost relevance
-                        if (relevant_u != relevant_v) {
-                            relevant(v_idx) = relevant_u;
-                            num_relevant += relevant_u ? 1 : -1;
-                        }
                         costs_heap_.decrease(*this, v_idx);
                     }
                     path(v_idx) = uv_idx;
-- 
2.43.0


From c5b21871b5e20d65ff78831d0eb44cb3148ead76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:52 +0000
Subject: [PATCH 04/23] fix: use the vertex and not the component index for
 propagation through zero nodes

---
 libclingo-dl/src/propagator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libclingo-dl/src/propagator.cc b/libclingo-dl/src/propagator.cc
index 1fc7edc..72774ce 100644
--- a/libclingo-dl/src/propagator.cc
+++ b/libclingo-dl/src/propagator.cc
@@ -764,7 +764,7 @@ void DLPropagator<T>::do_propagate(Clingo::PropagateControl &ctl, Clingo::Litera
             auto &edge = edges_[edge_idx];
             auto &info = vertex_info_[edge.from];
             // check for conflicts
-            if (!state.graph.add_edge(ctl, edge_idx, info.cc)) {
+            if (!state.graph.add_edge(ctl, edge_idx, zero_vertices_[info.cc])) {
                 return;
             }
         }
-- 
2.43.0


From 5d5520879911ecb950ffe9198d9a5874fe541913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:42 +0000
Subject: [PATCH 05/23] fix: tolerate backtracking during propagation in the
 candidate edge loops

With multiple threads, propagating an added clause can integrate clauses from
other threads and backtrack. This calls the undo function, which appends edges
to the vectors of candidate edges while they are being traversed.
---
 libclingo-dl/src/graph.cc | 45 +++++++++++++++++++++------------------
 1 file changed, 24 insertions(+), 21 deletions(-)

diff --git a/libclingo-dl/src/graph.cc b/libclingo-dl/src/graph.cc
index 8f5cc70..fd81679 100644
--- a/libclingo-dl/src/graph.cc
+++ b/libclingo-dl/src/graph.cc
@@ -552,23 +552,24 @@ template <typename T> template <typename D> struct Graph<T>::Impl : Graph {
                 }
                 if (backward) {
                     bool ret = true;
+                    // Note: Propagation might backtrack if it fails, which can
+                    // append edges to the vector.
                     auto &out = candidate_outgoing(vertex);
-                    out.resize(std::remove_if(out.begin(), out.end(),
-                                              [&](edge_t uv_idx) {
-                                                  if (!ret) {
-                                                      return false;
-                                                  }
-                                                  if (!edge_states_[uv_idx].enabled ||
-                                                      propagate_edge_false_<full>(ctl, uv_idx, xy_idx, ret)) {
-                                                      remove_outgoing(uv_idx);
-                                                      return true;
-                                                  }
-                                                  return false;
-                                              }) -
-                               out.begin());
-                    if (!ret) {
-                        return false;
+                    size_t j = 0;
+                    for (size_t i = 0, n = out.size(); i != n; ++i) {
+                        auto uv_idx = out[i];
+                        if (!edge_states_[uv_idx].enabled ||
+                            propagate_edge_false_<full>(ctl, uv_idx, xy_idx, ret)) {
+                            remove_outgoing(uv_idx);
+                            continue;
+                        }
+                        if (!ret) {
+                            out.erase(out.begin() + j, out.begin() + i);
+                            return false;
+                        }
+                        out[j++] = uv_idx;
                     }
+                    out.resize(j);
                 }
             }
         }
@@ -904,11 +905,13 @@ template <typename T>
 template <class F>
 auto Graph<T>::with_incoming_(Clingo::PropagateControl &ctl, vertex_t s_idx, F f) -> bool {
     auto &s = vertices_[s_idx];
+    // Note: Propagation might backtrack if it fails, which can append edges to
+    // the vector.
     auto &in = s.candidate_incoming;
-    auto jt = in.begin();
+    size_t j = 0;
     // traverse over incoming edges
-    for (auto it = jt, ie = in.end(); it != ie; ++it) {
-        auto &ts_idx = *it;
+    for (size_t i = 0, n = in.size(); i != n; ++i) {
+        auto ts_idx = in[i];
         auto &ts = edges_[ts_idx];
         auto t_idx = ts.from;
         // remove edges marked inactive
@@ -924,14 +927,14 @@ auto Graph<T>::with_incoming_(Clingo::PropagateControl &ctl, vertex_t s_idx, F f
             // add constraint for the negative cycle
             if (!(ctl.add_clause(clause_) && ctl.propagate())) {
                 // erease edges marked as removed
-                in.erase(jt, it + 1);
+                in.erase(in.begin() + j, in.begin() + i + 1);
                 return false;
             }
             continue;
         }
-        *jt++ = *it;
+        in[j++] = ts_idx;
     }
-    in.erase(jt, in.end());
+    in.resize(j);
     return true;
 }
 
-- 
2.43.0


From 5b69ebcda88e7b5fe9c7793f030045db959604e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:54 +0000
Subject: [PATCH 06/23] fix: stop optimization if the solver gives up because
 of a limit

---
 app/lib/src/app.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/app/lib/src/app.cc b/app/lib/src/app.cc
index 6a00b05..47fd68c 100644
--- a/app/lib/src/app.cc
+++ b/app/lib/src/app.cc
@@ -72,7 +72,8 @@ void Optimizer::solve(Clingo::Control &ctl) {
     for (;;) {
         prepare_(ctl);
         auto ret = ctl.solve(Clingo::SymbolicLiteralSpan{}, this, false, false).get();
-        if (ret.is_interrupted()) {
+        // Note: the result is unknown if a limit has been reached
+        if (ret.is_interrupted() || ret.is_unknown()) {
             break;
         }
         if (ret.is_unsatisfiable()) {
-- 
2.43.0


From c6c11fd649f026e67172989af74c299684140508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:01 +0000
Subject: [PATCH 07/23] fix: limit the step size during optimization to avoid
 overflows

---
 app/lib/src/app.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/app/lib/src/app.cc b/app/lib/src/app.cc
index 47fd68c..fd3abea 100644
--- a/app/lib/src/app.cc
+++ b/app/lib/src/app.cc
@@ -24,6 +24,7 @@
 
 #include <clingo-dl-app/app.hh>
 
+#include <algorithm>
 #include <cmath>
 #include <iostream>
 #include <limits>
@@ -123,7 +124,10 @@ auto Optimizer::on_model(Clingo::Model &model) -> bool {
     search_bound_ = static_cast<int_value_t>(aux);
 
     // update (exponential) adujustment value
-    adjust_ = adjust_ * opt_cfg_.factor;
+    // Note: large steps have to be avoided because they lead to overflows
+    // when the bound is added to other weights
+    constexpr double max_adjust = std::numeric_limits<int_value_t>::max() / 8;
+    adjust_ = std::min(adjust_ * opt_cfg_.factor, max_adjust);
 
     // pass model to theory
     handler_.on_model(model);
-- 
2.43.0


From c624725d387116ad45802984bccedafd6df3d7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:26 +0000
Subject: [PATCH 08/23] fix: do not access thread states that do not exist when
 querying values

---
 libclingo-dl/src/propagator.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libclingo-dl/src/propagator.cc b/libclingo-dl/src/propagator.cc
index 72774ce..9ee2693 100644
--- a/libclingo-dl/src/propagator.cc
+++ b/libclingo-dl/src/propagator.cc
@@ -131,7 +131,8 @@ template <typename T> auto DLPropagator<T>::lookup(Clingo::Symbol symbol) -> ver
 }
 
 template <typename T> auto DLPropagator<T>::has_lower_bound(Clingo::id_t thread_id, vertex_t index) const -> bool {
-    return index < vertex_info_.size() && !is_zero_(index) && states_[thread_id].graph.has_value(index);
+    return index < vertex_info_.size() && !is_zero_(index) && thread_id < states_.size() &&
+           states_[thread_id].graph.has_value(index);
 }
 
 template <typename T> auto DLPropagator<T>::lower_bound(Clingo::id_t thread_id, vertex_t index) const -> value_t {
-- 
2.43.0


From 8a36a571f475cadc1fce683b109e1687e7b86fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:46 +0000
Subject: [PATCH 09/23] fix: treat division, modulo, and power of numbers as
 numbers and not as variables

---
 libclingo-dl/src/parsing.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libclingo-dl/src/parsing.cc b/libclingo-dl/src/parsing.cc
index a221c88..ac83a39 100644
--- a/libclingo-dl/src/parsing.cc
+++ b/libclingo-dl/src/parsing.cc
@@ -340,6 +340,9 @@ void parse_elem(Clingo::TheoryTerm const &term, std::function<int(Clingo::Symbol
                 }
             }
         }
+    } else if (match(term, "/", 2) || match(term, "\\", 2) || match(term, "**", 2)) {
+        // Note: these operations are only supported for numbers
+        res.emplace_back(to_number<N>(evaluate<N>(term)), INVALID_VAR);
     } else if (term.type() == Clingo::TheoryTermType::Symbol) {
         if (auto val = parse_number<N>(term.name()); val) {
             res.emplace_back(*val, INVALID_VAR);
-- 
2.43.0


From e6ad43334c8f8b6aee80a23a30e088fe997a3c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:19 +0000
Subject: [PATCH 10/23] fix: handle names of theory atoms given as symbolic
 terms

---
 libclingo-dl/src/parsing.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libclingo-dl/src/parsing.cc b/libclingo-dl/src/parsing.cc
index ac83a39..2fb7f46 100644
--- a/libclingo-dl/src/parsing.cc
+++ b/libclingo-dl/src/parsing.cc
@@ -60,7 +60,7 @@ auto match_constant(Clingo::AST::Node const &ast, char const *name) -> bool {
     using namespace Clingo::AST;
     switch (ast.type()) {
         case Type::SymbolicTerm: {
-            return ast.get<Clingo::Symbol>(Attribute::Term).match(name, 0);
+            return ast.get<Clingo::Symbol>(Attribute::Symbol).match(name, 0);
         }
         case Type::Function: {
             if (ast.get<int>(Attribute::External) != 0) {
@@ -132,12 +132,12 @@ auto tag_terms(Clingo::AST::Node &ast, char const *tag) -> Clingo::AST::Node {
     using namespace Clingo::AST;
     if (ast.type() == Type::SymbolicTerm) {
         auto ret = ast.copy();
-        auto term = ast.get<Clingo::Symbol>(Attribute::Term);
+        auto term = ast.get<Clingo::Symbol>(Attribute::Symbol);
         check_syntax(term.type() == Clingo::SymbolType::Function);
         std::string name{"__"};
         name += term.name();
         name += tag;
-        ast.set(Attribute::Symbol, Clingo::Function(name.c_str(), {}));
+        ret.set(Attribute::Symbol, Clingo::Function(name.c_str(), {}));
         return ret;
     }
     if (ast.type() == Type::Function) {
-- 
2.43.0


From f9ba5009f66c435549eac1b2bc891c1024658fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:19 +0000
Subject: [PATCH 11/23] fix: check the range of numbers given as strings

---
 libclingo-dl/src/parsing.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libclingo-dl/src/parsing.cc b/libclingo-dl/src/parsing.cc
index 2fb7f46..8df80b3 100644
--- a/libclingo-dl/src/parsing.cc
+++ b/libclingo-dl/src/parsing.cc
@@ -234,6 +234,11 @@ template <class N> [[nodiscard]] auto parse_number(char const *name) -> std::opt
     if (parsed != name + len - 1) {            // NOLINT
         return std::nullopt;
     }
+    if constexpr (std::is_integral_v<N>) {
+        if (!(res >= std::numeric_limits<N>::min() && res <= std::numeric_limits<N>::max())) {
+            throw std::overflow_error("integer overflow");
+        }
+    }
     auto ret = static_cast<N>(res);
     if (static_cast<double>(ret) != res) {
         throw std::runtime_error("could not evaluate term: for floating point numbers use option rdl");
-- 
2.43.0


From 0f9fcc967b69e4cd512c250631182275c8dfa6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:08 +0000
Subject: [PATCH 12/23] fix: avoid rounding errors in difference constraints
 over real numbers

The check for valid solutions failed and strict inequalities or decimal
constants could lead to bogus conflicts.
---
 libclingo-dl/src/propagator.cc | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/libclingo-dl/src/propagator.cc b/libclingo-dl/src/propagator.cc
index 9ee2693..4d62557 100644
--- a/libclingo-dl/src/propagator.cc
+++ b/libclingo-dl/src/propagator.cc
@@ -24,6 +24,7 @@
 
 #include <clingo-dl/propagator.hh>
 
+#include <cmath>
 #include <unordered_set>
 
 #define CLINGODL_CHECKSOLUTION
@@ -42,6 +43,27 @@ inline auto to_symbol(T value) -> Clingo::Symbol {
     return Clingo::String(std::to_string(value).c_str());
 }
 
+//! The graph represents floating point numbers by multiples of 10^-6 (the
+//! precision used to report values) because sums and differences of such
+//! numbers are not subject to rounding errors.
+constexpr double DOUBLE_PRECISION = 1000000;
+
+//! Convert a number to the representation used in the graph.
+template <typename T> inline auto to_weight(T value) -> T {
+    if constexpr (std::is_floating_point_v<T>) {
+        value = std::round(value * DOUBLE_PRECISION);
+    }
+    return value;
+}
+
+//! Convert a number represented in the graph back.
+template <typename T> inline auto from_weight(T weight) -> T {
+    if constexpr (std::is_floating_point_v<T>) {
+        weight /= DOUBLE_PRECISION;
+    }
+    return weight;
+}
+
 } // namespace
 
 void Statistics::reset() {
@@ -140,7 +162,7 @@ template <typename T> auto DLPropagator<T>::lower_bound(Clingo::id_t thread_id,
     auto &state = states_[thread_id];
     auto zero_vertex = zero_vertices_[vertex_info_[index].cc];
     T adjust = state.graph.has_value(zero_vertex) ? state.graph.get_value(zero_vertex) : 0;
-    return state.graph.get_value(index) - adjust;
+    return from_weight<T>(state.graph.get_value(index) - adjust);
 }
 
 template <typename T> void DLPropagator<T>::extend_model(Clingo::Model &model) {
@@ -152,7 +174,7 @@ template <typename T> void DLPropagator<T>::extend_model(Clingo::Model &model) {
             auto zero_vertex = zero_vertices_[vertex_info_[idx].cc];
             T adjust = state.graph.has_value(zero_vertex) ? state.graph.get_value(zero_vertex) : 0;
             params.emplace_back(vertex_info_[idx].symbol);
-            params.emplace_back(to_symbol<T>(state.graph.get_value(idx) - adjust));
+            params.emplace_back(to_symbol<T>(from_weight<T>(state.graph.get_value(idx) - adjust)));
             vec.emplace_back(Function("dl", params));
         }
     }
@@ -383,6 +405,7 @@ auto DLPropagator<T>::add_edges_(Clingo::PropagateInit &init, literal_t literal,
     if (covec.size() > 2) {
         throw std::runtime_error(msg);
     }
+    rhs = to_weight<T>(rhs);
     auto u_id = map_vertex_(Clingo::Number(0));
     auto v_id = map_vertex_(Clingo::Number(0));
     if (covec.empty()) {
-- 
2.43.0


From b0d81c9b3e6cb196adcbbe3054b51ed230cca777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:33 +0000
Subject: [PATCH 13/23] fix: do not interpret the empty string as number

---
 libclingo-dl/src/parsing.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libclingo-dl/src/parsing.cc b/libclingo-dl/src/parsing.cc
index 8df80b3..158354c 100644
--- a/libclingo-dl/src/parsing.cc
+++ b/libclingo-dl/src/parsing.cc
@@ -231,7 +231,7 @@ template <class N> [[nodiscard]] auto parse_number(char const *name) -> std::opt
     }
     char *parsed = nullptr;                    // NOLINT
     auto res = std::strtod(name + 1, &parsed); // NOLINT
-    if (parsed != name + len - 1) {            // NOLINT
+    if (len == 2 || parsed != name + len - 1) { // NOLINT
         return std::nullopt;
     }
     if constexpr (std::is_integral_v<N>) {
-- 
2.43.0


From b71f6bbb937289c7f63e9afab00e37ee99a768fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:50 +0000
Subject: [PATCH 14/23] fix: reject invalid mutex options without changing the
 configuration

---
 libclingo-dl/src/clingo-dl.cc | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/libclingo-dl/src/clingo-dl.cc b/libclingo-dl/src/clingo-dl.cc
index 8efc17c..0f2fa0c 100644
--- a/libclingo-dl/src/clingo-dl.cc
+++ b/libclingo-dl/src/clingo-dl.cc
@@ -27,6 +27,7 @@
 
 #include <clingo.h>
 #include <clingo.hh>
+#include <limits>
 #include <sstream>
 
 #define CLINGODL_TRY try // NOLINT
@@ -320,21 +321,20 @@ auto parse_budget(const char *value, void *data) -> bool {
 //! Return false if there is a parse error.
 auto parse_mutex(const char *value, void *data) -> bool {
     auto &pc = *static_cast<PropagatorConfig *>(data);
-    uint64_t x = 0;
-    if ((value = parse_uint64_pre(value, &x)) == nullptr) {
+    uint64_t size = 0;
+    uint64_t cutoff = 0;
+    if ((value = parse_uint64_pre(value, &size)) == nullptr) {
         return false;
     }
-    pc.mutex_size = x;
     if (*value == '\0') {
-        pc.mutex_cutoff = 10 * x; // NOLINT
-        return true;
-    }
-    if (*value == ',') {
-        if (!parse_uint64(value + 1, &x)) {
-            return false;
-        } // NOLINT
-        pc.mutex_cutoff = x;
+        constexpr uint64_t factor = 10;
+        constexpr uint64_t max = std::numeric_limits<uint64_t>::max();
+        cutoff = size <= max / factor ? factor * size : max;
+    } else if (*value != ',' || !parse_uint64(value + 1, &cutoff)) { // NOLINT
+        return false;
     }
+    pc.mutex_size = size;
+    pc.mutex_cutoff = cutoff;
     return true;
 }
 
-- 
2.43.0


From b25d4c09fced0f7ca9c4b18f2793f99069b32378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:50 +0000
Subject: [PATCH 15/23] fix: detect all overflows when parsing numbers in
 options

---
 libclingo-dl/src/clingo-dl.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/libclingo-dl/src/clingo-dl.cc b/libclingo-dl/src/clingo-dl.cc
index 0f2fa0c..ffa37f9 100644
--- a/libclingo-dl/src/clingo-dl.cc
+++ b/libclingo-dl/src/clingo-dl.cc
@@ -253,12 +253,13 @@ auto parse_uint64_pre(const char *value, void *data) -> char const * {
 
     for (; *it != '\0'; ++it) { // NOLINT
         if ('0' <= *it && *it <= '9') {
-            auto tmp = res;
-            res *= 10; // NOLINT
-            res += *it - '0';
-            if (res < tmp) {
+            constexpr uint64_t base = 10;
+            constexpr uint64_t max = std::numeric_limits<uint64_t>::max();
+            auto digit = static_cast<uint64_t>(*it - '0');
+            if (res > (max - digit) / base) {
                 return nullptr;
             }
+            res = base * res + digit;
         } else {
             break;
         }
-- 
2.43.0


From dd5cbdd061dd9eaaf4261f5edf5671fe1b236791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:50 +0000
Subject: [PATCH 16/23] fix: reject invalid decision heuristics

---
 libclingo-dl/src/clingo-dl.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libclingo-dl/src/clingo-dl.cc b/libclingo-dl/src/clingo-dl.cc
index ffa37f9..973f57d 100644
--- a/libclingo-dl/src/clingo-dl.cc
+++ b/libclingo-dl/src/clingo-dl.cc
@@ -390,12 +390,14 @@ auto parse_sort(const char *value, void *data) -> bool {
 //! Return false if there is a parse error.
 auto parse_decide(const char *value, void *data) -> bool {
     DecisionMode mode = DecisionMode::Disabled;
-    if (iequals(value, "no")) {
+    if (iequals(value, "no") || iequals(value, "none")) {
         mode = DecisionMode::Disabled;
     } else if (iequals(value, "min")) {
         mode = DecisionMode::MinConflict;
     } else if (iequals(value, "max")) {
         mode = DecisionMode::MaxConflict;
+    } else {
+        return false;
     }
     static_cast<PropagatorConfig *>(data)->decision_mode = mode;
     return true;
-- 
2.43.0


From c8a5682e36e94579a8f626a269f89ab040f16448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:50 +0000
Subject: [PATCH 17/23] fix: report the right key if the propagation budget is
 invalid

---
 libclingo-dl/src/clingo-dl.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libclingo-dl/src/clingo-dl.cc b/libclingo-dl/src/clingo-dl.cc
index 973f57d..9c08ee8 100644
--- a/libclingo-dl/src/clingo-dl.cc
+++ b/libclingo-dl/src/clingo-dl.cc
@@ -500,7 +500,7 @@ extern "C" auto clingodl_configure(clingodl_theory_t *theory, char const *key, c
             return check_parse("propagate-root", parse_root(value, &theory->config));
         }
         if (strcmp(key, "propagate-budget") == 0) {
-            return check_parse("propgate-budget", parse_budget(value, &theory->config));
+            return check_parse("propagate-budget", parse_budget(value, &theory->config));
         }
         if (strcmp(key, "add-mutexes") == 0) {
             return check_parse("add-mutexes", parse_mutex(value, &theory->config));
-- 
2.43.0


From 6165ec08e8cef419281c7b72cc99604c7e960f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:50 +0000
Subject: [PATCH 18/23] fix: do not truncate limits for propagation

---
 libclingo-dl/src/propagator.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/libclingo-dl/src/propagator.cc b/libclingo-dl/src/propagator.cc
index 4d62557..d0889ae 100644
--- a/libclingo-dl/src/propagator.cc
+++ b/libclingo-dl/src/propagator.cc
@@ -109,7 +109,7 @@ template <typename T> struct DLPropagator<T>::VertexInfo {
 //! Struct to store thread specific state.
 template <typename T> struct DLPropagator<T>::ThreadState {
     ThreadState(ThreadStatistics &stats, const std::vector<Edge> &edges, PropagationMode propagate,
-                level_t propagate_root, uint64_t propagate_budget)
+                uint64_t propagate_root, uint64_t propagate_budget)
         : stats{stats}, graph{stats, edges, propagate}, propagate_root{propagate_root},
           propagate_budget{propagate_budget} {}
 
@@ -780,8 +780,10 @@ void DLPropagator<T>::do_propagate(Clingo::PropagateControl &ctl, Clingo::Litera
         if (state.graph.edge_is_enabled(edge_idx)) {
             // disable propagation once budget exceeded
             bool has_budget =
-                state.propagate_budget > 0 && state.stats.propagate_cost_add + state.propagate_budget >
-                                                  state.stats.propagate_cost_from + state.stats.propagate_cost_to;
+                state.propagate_budget > 0 &&
+                (state.stats.propagate_cost_add > std::numeric_limits<uint64_t>::max() - state.propagate_budget ||
+                 state.stats.propagate_cost_add + state.propagate_budget >
+                     state.stats.propagate_cost_from + state.stats.propagate_cost_to);
             if (!propagate && !has_budget) {
                 state.graph.disable_propagate();
             }
-- 
2.43.0


From 2cf7630953ee9766f67b0d51aed87529a1d1ad2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:16 +0000
Subject: [PATCH 19/23] fix: use the decision heuristic configured for a theory
 and not the one of the first theory

---
 libclingo-dl/src/clingo-dl.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libclingo-dl/src/clingo-dl.cc b/libclingo-dl/src/clingo-dl.cc
index 9c08ee8..44d8ffb 100644
--- a/libclingo-dl/src/clingo-dl.cc
+++ b/libclingo-dl/src/clingo-dl.cc
@@ -138,8 +138,8 @@ template <typename T> class DLPropagatorFacade : public PropagatorFacade {
   public:
     DLPropagatorFacade(clingo_control_t *control, PropagatorConfig const &conf) : prop_{step_, conf} {
         handle_error(clingo_control_add(control, "base", nullptr, 0, THEORY));
-        static clingo_propagator_t prop = {init<T>, propagate<T>, undo<T>, check<T>,
-                                           conf.decision_mode != DecisionMode::Disabled ? decide<T> : nullptr};
+        clingo_propagator_t prop = {init<T>, propagate<T>, undo<T>, check<T>,
+                                    conf.decision_mode != DecisionMode::Disabled ? decide<T> : nullptr};
         handle_error(clingo_control_register_propagator(control, &prop, &prop_, false));
     }
 
-- 
2.43.0


From 9aeb5c0f837148b6aecb63f834cd6b9371871097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:56 +0000
Subject: [PATCH 20/23] fix: do not read statistics of threads that do not
 exist when accumulating

---
 libclingo-dl/src/propagator.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libclingo-dl/src/propagator.cc b/libclingo-dl/src/propagator.cc
index d0889ae..ac67b24 100644
--- a/libclingo-dl/src/propagator.cc
+++ b/libclingo-dl/src/propagator.cc
@@ -86,9 +86,9 @@ void Statistics::accu(Statistics const &x) {
     if (thread_statistics.size() < x.thread_statistics.size()) {
         thread_statistics.resize(x.thread_statistics.size());
     }
-    auto it = x.thread_statistics.begin();
-    for (auto &y : thread_statistics) {
-        y.accu(*it++);
+    auto it = thread_statistics.begin();
+    for (auto const &y : x.thread_statistics) {
+        (it++)->accu(y);
     }
 }
 
-- 
2.43.0


From 102904c6d4fa798dac72497d768020fb81d54c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:43 +0000
Subject: [PATCH 21/23] fix: report zero for threads that do not exist anymore
 in statistics

---
 libclingo-dl/src/clingo-dl.cc | 38 +++++++++++++++++++++--------------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/libclingo-dl/src/clingo-dl.cc b/libclingo-dl/src/clingo-dl.cc
index 44d8ffb..ea6e03a 100644
--- a/libclingo-dl/src/clingo-dl.cc
+++ b/libclingo-dl/src/clingo-dl.cc
@@ -203,22 +203,30 @@ template <typename T> class DLPropagatorFacade : public PropagatorFacade {
         threads.ensure_size(stats.thread_statistics.size(), Clingo::StatisticsType::Map);
         auto it = threads.begin();
         for (auto const &stat : stats.thread_statistics) {
-            auto thread = *it++;
-            add_subkey_(thread, "Propagation(s)", stat.time_propagate.count());
-            add_subkey_(thread, "Dijkstra(s)", stat.time_dijkstra.count());
-            add_subkey_(thread, "Undo(s)", stat.time_undo.count());
-            add_subkey_(thread, "True edges", stat.true_edges);
-            add_subkey_(thread, "False edges", stat.false_edges);
-            add_subkey_(thread, "False edges (inverse)", stat.false_edges_trivial);
-            add_subkey_(thread, "False edges (partial)", stat.false_edges_weak);
-            add_subkey_(thread, "False edges (partial+)", stat.false_edges_weak_plus);
-            add_subkey_(thread, "Edges added", stat.edges_added);
-            add_subkey_(thread, "Edges skipped", stat.edges_skipped);
-            add_subkey_(thread, "Edges propagated", stat.edges_propagated);
-            add_subkey_(thread, "Cost consistency", stat.propagate_cost_add);
-            add_subkey_(thread, "Cost forward", stat.propagate_cost_from);
-            add_subkey_(thread, "Cost backward", stat.propagate_cost_to);
+            add_statistics_(*it++, stat);
         }
+        // Note: Entries cannot be removed if the number of threads decreases.
+        for (auto ie = threads.end(); it != ie; ++it) {
+            add_statistics_(*it, ThreadStatistics{});
+        }
+    }
+
+    //!< Helper function to add the statistics of a thread to clingo's statistics.
+    void add_statistics_(Clingo::UserStatistics thread, ThreadStatistics const &stat) {
+        add_subkey_(thread, "Propagation(s)", stat.time_propagate.count());
+        add_subkey_(thread, "Dijkstra(s)", stat.time_dijkstra.count());
+        add_subkey_(thread, "Undo(s)", stat.time_undo.count());
+        add_subkey_(thread, "True edges", stat.true_edges);
+        add_subkey_(thread, "False edges", stat.false_edges);
+        add_subkey_(thread, "False edges (inverse)", stat.false_edges_trivial);
+        add_subkey_(thread, "False edges (partial)", stat.false_edges_weak);
+        add_subkey_(thread, "False edges (partial+)", stat.false_edges_weak_plus);
+        add_subkey_(thread, "Edges added", stat.edges_added);
+        add_subkey_(thread, "Edges skipped", stat.edges_skipped);
+        add_subkey_(thread, "Edges propagated", stat.edges_propagated);
+        add_subkey_(thread, "Cost consistency", stat.propagate_cost_add);
+        add_subkey_(thread, "Cost forward", stat.propagate_cost_from);
+        add_subkey_(thread, "Cost backward", stat.propagate_cost_to);
     }
 
     Statistics step_;      //!< Per step statistics.
-- 
2.43.0


From 0a4c62efdaa89cb59d33734ec719fd4bdaf0b1e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:54 +0000
Subject: [PATCH 22/23] fix: watch edges in all threads if solving was
 interrupted before they took part

---
 libclingo-dl/clingo-dl/propagator.hh |  2 +-
 libclingo-dl/src/propagator.cc       | 15 +++++++--------
 2 files changed, 8 insertions(+), 9 deletions(-)

diff --git a/libclingo-dl/clingo-dl/propagator.hh b/libclingo-dl/clingo-dl/propagator.hh
index 47e87c1..5db96ca 100644
--- a/libclingo-dl/clingo-dl/propagator.hh
+++ b/libclingo-dl/clingo-dl/propagator.hh
@@ -126,7 +126,7 @@ template <typename T> class DLPropagator : public Clingo::Heuristic {
     void add_edges_(vertex_t u_id, vertex_t v_id, value_t weight, literal_t lit, bool strict);
     //! Add (up to one) edge for a constraint.
     void add_edge_(vertex_t u_id, vertex_t v_id, value_t weight, literal_t lit);
-    //! Add watches for the edges that are not yet watched in a thread.
+    //! Add watches for the edges in all threads.
     void add_watches_(Clingo::PropagateInit &init);
     //! Reset connected components (to be recalculated with the next call to cc_calculate_).
     void cc_reset_();
diff --git a/libclingo-dl/src/propagator.cc b/libclingo-dl/src/propagator.cc
index ac67b24..4eafc09 100644
--- a/libclingo-dl/src/propagator.cc
+++ b/libclingo-dl/src/propagator.cc
@@ -125,11 +125,9 @@ template <typename T> struct DLPropagator<T>::ThreadState {
 //!
 //! The solver never backtracks the top-level level. When solving a new step,
 //! we simply rebuild the per thread states and repropagate the facts that the
-//! solver does not report again. Since the number of threads can change
-//! between steps, we also have to remember which edges a thread watches.
+//! solver does not report again.
 template <typename T> struct DLPropagator<T>::FactState {
     std::vector<literal_t> lits; //!< Literals propagated on level 0 in the current step.
-    edge_t watched{0};           //!< Number of edges whose literals are watched.
     bool pending{false};         //!< Whether there might be facts that have to be repropagated.
 };
 
@@ -461,17 +459,18 @@ void DLPropagator<T>::add_edge_(vertex_t u_id, vertex_t v_id, value_t weight, li
 }
 
 template <typename T> void DLPropagator<T>::add_watches_(Clingo::PropagateInit &init) {
-    // Note: This also adds watches for edges of previous steps in threads that
-    // did not exist at that time.
+    // Note: This also adds watches for edges of previous steps because they are
+    // missing in threads that did not exist at that time or did not take part
+    // in solving if the search was interrupted right away.
     facts_.resize(init.number_of_threads());
     for (int i = 0; i < init.number_of_threads(); ++i) {
         bool disable = conf_.get_propagate_mode(i) >= PropagationMode::Zero || conf_.get_propagate_root(i) > 0 ||
                        conf_.get_propagate_budget(i) > 0;
         disable_edges_ = disable_edges_ || disable;
-        for (auto &id = facts_[i].watched; id < numeric_cast<edge_t>(edges_.size()); ++id) {
-            init.add_watch(edges_[id].lit, i);
+        for (auto const &edge : edges_) {
+            init.add_watch(edge.lit, i);
             if (disable) {
-                init.add_watch(-edges_[id].lit, i);
+                init.add_watch(-edge.lit, i);
             }
         }
     }
-- 
2.43.0


From 75df2d85e4340e204ea5c22ffdd1708eeab5debb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:03 +0000
Subject: [PATCH 23/23] fix: ignore callbacks while the solver handles an error
 of the theory

The solver still propagates and backtracks after an error in the theory. The
state of the theory can be inconsistent at this point, which led to crashes,
and solving again could lead to wrong answers.
---
 libclingo-dl/clingo-dl/propagator.hh |  9 ++++++
 libclingo-dl/src/propagator.cc       | 46 +++++++++++++++++++++++++---
 2 files changed, 51 insertions(+), 4 deletions(-)

diff --git a/libclingo-dl/clingo-dl/propagator.hh b/libclingo-dl/clingo-dl/propagator.hh
index 5db96ca..a61e53d 100644
--- a/libclingo-dl/clingo-dl/propagator.hh
+++ b/libclingo-dl/clingo-dl/propagator.hh
@@ -112,6 +112,8 @@ template <typename T> class DLPropagator : public Clingo::Heuristic {
     using AdjacencyMap = std::unordered_multimap<vertex_t, vertex_t>;
 
     // initialization functions
+    //! Initialize the propagator.
+    void do_init_(Clingo::PropagateInit &init);
     //! Map a symbol to an integer.
     auto map_vertex_(Clingo::Symbol symbol) -> vertex_t;
     //! Add constraints in the theory data.
@@ -142,6 +144,12 @@ template <typename T> class DLPropagator : public Clingo::Heuristic {
     void initialize_states_(Clingo::PropagateInit &init);
 
     // propagation functions
+    //! Check if there was an error.
+    //!
+    //! The solver still propagates and backtracks while handling errors.
+    [[nodiscard]] auto has_failed_(Clingo::id_t thread_id) const -> bool;
+    //! Check a propagation fixed point.
+    void do_check_(Clingo::PropagateControl &ctl);
     //! Disable all edges associated with the given literal in the thread state.
     void disable_edge_by_lit(ThreadState &state, literal_t lit);
     //! Compute the current potential of a vertex in the given graph.
@@ -165,6 +173,7 @@ template <typename T> class DLPropagator : public Clingo::Heuristic {
     Statistics &stats_;            //!< Statistics for the propagator.
     PropagatorConfig conf_;        //!< Configuration of the propagator.
     bool disable_edges_{false};    //!< Whether to disable edges.
+    bool init_failed_{false};      //!< Whether there was an error during initialization.
 };
 
 } // namespace ClingoDL
diff --git a/libclingo-dl/src/propagator.cc b/libclingo-dl/src/propagator.cc
index 4eafc09..3078742 100644
--- a/libclingo-dl/src/propagator.cc
+++ b/libclingo-dl/src/propagator.cc
@@ -24,6 +24,7 @@
 
 #include <clingo-dl/propagator.hh>
 
+#include <algorithm>
 #include <cmath>
 #include <unordered_set>
 
@@ -119,6 +120,7 @@ template <typename T> struct DLPropagator<T>::ThreadState {
     std::vector<edge_t> todo_edges;        //!< Edges that have to be propagated.
     uint64_t propagate_root;               //!< Propagation is disabled above this level.
     uint64_t propagate_budget;             //!< The maximum budget invested into propagation.
+    bool failed{false};                    //!< Whether there was an error leaving the state inconsistent.
 };
 
 //! Struct to store which facts to repropagate.
@@ -180,6 +182,15 @@ template <typename T> void DLPropagator<T>::extend_model(Clingo::Model &model) {
 }
 
 template <typename T> void DLPropagator<T>::init(Clingo::PropagateInit &init) {
+    if (init_failed_ || std::any_of(states_.begin(), states_.end(), [](auto const &state) { return state.failed; })) {
+        throw std::logic_error("the theory cannot be used anymore after an error");
+    }
+    init_failed_ = true;
+    do_init_(init);
+    init_failed_ = false;
+}
+
+template <typename T> void DLPropagator<T>::do_init_(Clingo::PropagateInit &init) {
     if (!edges_.empty()) {
         init.set_check_mode(Clingo::PropagatorCheckMode::Partial);
     }
@@ -211,23 +222,50 @@ template <typename T> void DLPropagator<T>::init(Clingo::PropagateInit &init) {
     initialize_states_(init);
 }
 
+template <typename T> auto DLPropagator<T>::has_failed_(Clingo::id_t thread_id) const -> bool {
+    return init_failed_ || states_[thread_id].failed;
+}
+
 template <typename T> void DLPropagator<T>::propagate(Clingo::PropagateControl &ctl, Clingo::LiteralSpan changes) {
-    // remember facts that do not have to be repropagated
-    if (auto &facts = facts_[ctl.thread_id()]; facts.pending && ctl.assignment().decision_level() == 0) {
-        facts.lits.insert(facts.lits.end(), changes.begin(), changes.end());
+    if (has_failed_(ctl.thread_id())) {
+        return;
+    }
+    try {
+        // remember facts that do not have to be repropagated
+        if (auto &facts = facts_[ctl.thread_id()]; facts.pending && ctl.assignment().decision_level() == 0) {
+            facts.lits.insert(facts.lits.end(), changes.begin(), changes.end());
+        }
+        do_propagate(ctl, changes);
+    } catch (...) {
+        states_[ctl.thread_id()].failed = true;
+        throw;
     }
-    do_propagate(ctl, changes);
 }
 
 template <typename T>
 void DLPropagator<T>::undo(Clingo::PropagateControl const &ctl, Clingo::LiteralSpan changes) noexcept {
     static_cast<void>(changes);
+    if (has_failed_(ctl.thread_id())) {
+        return;
+    }
     auto &state = states_[ctl.thread_id()];
     Timer t{state.stats.time_undo};
     state.graph.backtrack();
 }
 
 template <typename T> void DLPropagator<T>::check(Clingo::PropagateControl &ctl) {
+    if (has_failed_(ctl.thread_id())) {
+        return;
+    }
+    try {
+        do_check_(ctl);
+    } catch (...) {
+        states_[ctl.thread_id()].failed = true;
+        throw;
+    }
+}
+
+template <typename T> void DLPropagator<T>::do_check_(Clingo::PropagateControl &ctl) {
     ThreadState &state = states_[ctl.thread_id()];
     auto &facts = facts_[ctl.thread_id()];
     auto assignment = ctl.assignment();
-- 
2.43.0

