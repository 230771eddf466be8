From 2450167b101f61dd1720ca8d8c8da8c00ee50456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:13 +0000
Subject: [PATCH 01/10] fix: compare big integers by value with the FLINT
 backend

The comparison of two integers passed the internal representation of the
right-hand side, which is a tagged pointer for big integers.
---
 libclingo-lpx/src/number_flint.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libclingo-lpx/src/number_flint.hh b/libclingo-lpx/src/number_flint.hh
index 77ba3f2..39443c8 100644
--- a/libclingo-lpx/src/number_flint.hh
+++ b/libclingo-lpx/src/number_flint.hh
@@ -412,7 +412,7 @@ inline auto operator<<(std::ostream &out, Integer const &a) -> std::ostream & {
 
 [[nodiscard]] inline auto compare(Integer const &a, fixed_int b) -> int { return fmpz_cmp_si(&a.num_, b); }
 
-[[nodiscard]] inline auto compare(Integer const &a, Integer const &b) -> int { return fmpz_cmp_si(&a.num_, b.num_); }
+[[nodiscard]] inline auto compare(Integer const &a, Integer const &b) -> int { return fmpz_cmp(&a.num_, &b.num_); }
 
 // gcd
 
-- 
2.43.0


From 926b572da8bb5a8dbfe24722ca625b37f7373101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:13 +0000
Subject: [PATCH 02/10] fix: check constraints without variables in the right
 direction

---
 libclingo-lpx/src/solving.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libclingo-lpx/src/solving.cc b/libclingo-lpx/src/solving.cc
index 77c5f07..e8caf0d 100644
--- a/libclingo-lpx/src/solving.cc
+++ b/libclingo-lpx/src/solving.cc
@@ -297,25 +297,25 @@ auto Solver<Value>::prepare(Clingo::PropagateInit &init, SymbolMap const &symbol
             }
             switch (x.rel) {
                 case Relation::Less: {
-                    if (x.rhs >= 0 && !init.add_clause({-x.lit})) {
+                    if (x.rhs <= 0 && !init.add_clause({-x.lit})) {
                         return false;
                     }
                     break;
                 }
                 case Relation::LessEqual: {
-                    if (x.rhs > 0 && !init.add_clause({-x.lit})) {
+                    if (x.rhs < 0 && !init.add_clause({-x.lit})) {
                         return false;
                     }
                     break;
                 }
                 case Relation::Greater: {
-                    if (x.rhs <= 0 && !init.add_clause({-x.lit})) {
+                    if (x.rhs >= 0 && !init.add_clause({-x.lit})) {
                         return false;
                     }
                     break;
                 }
                 case Relation::GreaterEqual: {
-                    if (x.rhs < 0 && !init.add_clause({-x.lit})) {
+                    if (x.rhs > 0 && !init.add_clause({-x.lit})) {
                         return false;
                     }
                     break;
-- 
2.43.0


From d63a48e3a126edea58dd451e25ae28a5e7448568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:13 +0000
Subject: [PATCH 03/10] fix: restore the lower bound when undoing an equality

Setting both bounds recorded a single trail entry so that backtracking
overwrote the lower bound with the old upper bound.
---
 libclingo-lpx/src/solving.cc | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/libclingo-lpx/src/solving.cc b/libclingo-lpx/src/solving.cc
index e8caf0d..bc1ea9b 100644
--- a/libclingo-lpx/src/solving.cc
+++ b/libclingo-lpx/src/solving.cc
@@ -191,12 +191,7 @@ template <typename Value>
 auto Solver<Value>::Variable::update_lower(Solver &s, Clingo::Assignment ass, Bound const &bound) -> bool {
     if (!has_lower() || bound.value > lower()) {
         if (!has_lower() || ass.level(lower_bound->lit) < ass.decision_level()) {
-            if (upper_bound != &bound) {
-                s.bound_trail_.emplace_back(bound.variable, BoundRelation::GreaterEqual, lower_bound);
-            } else {
-                // Note: this assumes that update_lower is called right after update_upper for the same bound
-                std::get<1>(s.bound_trail_.back()) = BoundRelation::Equal;
-            }
+            s.bound_trail_.emplace_back(bound.variable, BoundRelation::GreaterEqual, lower_bound);
         }
         lower_bound = &bound;
     }
-- 
2.43.0


From f4afda4a92e9ebf87bb2e5d4e9808f34fdecc0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:19 +0000
Subject: [PATCH 04/10] fix: handle constants in conditional elements

The marker for constants was used like a variable, leaving the constant's
contribution unconstrained when the condition holds.
---
 libclingo-lpx/src/parsing.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libclingo-lpx/src/parsing.cc b/libclingo-lpx/src/parsing.cc
index 5694683..ebb6110 100644
--- a/libclingo-lpx/src/parsing.cc
+++ b/libclingo-lpx/src/parsing.cc
@@ -346,7 +346,12 @@ void parse_sum_elem(Clingo::TheoryTerm const &term, std::vector<Term> &res) {
                 if (res.second) {
                     auto lit = mapper(elem.condition_id());
                     iqs.emplace_back(Inequality{{{1, res.first->second}}, 0, Relation::Equal, -lit});
-                    iqs.emplace_back(Inequality{{{1, res.first->second}, {-1, it->var}}, 0, Relation::Equal, lit});
+                    if (is_invalid(it->var)) {
+                        iqs.emplace_back(Inequality{{{1, res.first->second}}, 1, Relation::Equal, lit});
+                    } else {
+                        iqs.emplace_back(
+                            Inequality{{{1, res.first->second}, {-1, it->var}}, 0, Relation::Equal, lit});
+                    }
                 }
                 it->var = res.first->second;
             }
-- 
2.43.0


From 53ec9b84f46ea062e8a72e18c94e81adc981d989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:19 +0000
Subject: [PATCH 05/10] fix: pass the right targets to the option parsers in
 clingolpx_configure

The objective option was parsed as a Boolean overwriting the optional step and
the propagation mode was written through a pointer to a single field as if it
was the whole options struct. Also name the right key in the error message of
the store option.
---
 libclingo-lpx/src/clingo-lpx.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libclingo-lpx/src/clingo-lpx.cc b/libclingo-lpx/src/clingo-lpx.cc
index 1393831..f03f677 100644
--- a/libclingo-lpx/src/clingo-lpx.cc
+++ b/libclingo-lpx/src/clingo-lpx.cc
@@ -383,19 +383,19 @@ extern "C" auto clingolpx_configure(clingolpx_theory_t *theory, char const *key,
             return check_parse("strict", parse_bool(value, &theory->strict));
         }
         if (strcmp(key, "objective") == 0) {
-            return check_parse("objective", parse_bool(value, &theory->options.global_objective));
+            return check_parse("objective", parse_objective(value, &theory->options));
         }
         if (strcmp(key, "propagate-conflicts") == 0) {
             return check_parse("propagate-conflicts", parse_bool(value, &theory->options.propagate_conflicts));
         }
         if (strcmp(key, "propagate-bounds") == 0) {
-            return check_parse("propagate-bounds", parse_propagate(value, &theory->options.propagate_mode));
+            return check_parse("propagate-bounds", parse_propagate(value, &theory->options));
         }
         if (strcmp(key, "select") == 0) {
             return check_parse("select", parse_select(value, &theory->options));
         }
         if (strcmp(key, "store") == 0) {
-            return check_parse("select", parse_store(value, &theory->options));
+            return check_parse("store", parse_store(value, &theory->options));
         }
         std::ostringstream msg;
         msg << "invalid configuration key '" << key << "'";
-- 
2.43.0


From e9446772f658211d2b7a6109c937fe34df722648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:19 +0000
Subject: [PATCH 06/10] fix: reject divisions by zero in numeric terms

---
 libclingo-lpx/src/parsing.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libclingo-lpx/src/parsing.cc b/libclingo-lpx/src/parsing.cc
index ebb6110..eb31e00 100644
--- a/libclingo-lpx/src/parsing.cc
+++ b/libclingo-lpx/src/parsing.cc
@@ -203,7 +203,10 @@ auto evaluate(bool num_str, Clingo::TheoryTerm const &term) -> std::variant<Rati
     }
     if (match(term, "/", 2)) {
         return evaluate(num_str, term.arguments().front(), term.arguments().back(),
-                        [](Rational &&a, Rational &&b) { return std::move(a) / std::move(b); });
+                        [](Rational &&a, Rational &&b) {
+                            check_syntax(b != 0);
+                            return std::move(a) / std::move(b);
+                        });
     }
 
     if (match(term, "-", 1)) {
-- 
2.43.0


From 2883c655e9fe81e8ace235268a60a2e35b56d833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:19 +0000
Subject: [PATCH 07/10] fix: sum the step statistics over all threads

---
 libclingo-lpx/src/solving.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/libclingo-lpx/src/solving.cc b/libclingo-lpx/src/solving.cc
index bc1ea9b..03aa407 100644
--- a/libclingo-lpx/src/solving.cc
+++ b/libclingo-lpx/src/solving.cc
@@ -1090,12 +1090,16 @@ void Propagator<Value>::on_statistics(Clingo::UserStatistics step, Clingo::UserS
     auto accu_simplex = accu.add_subkey("Simplex", Clingo::StatisticsType::Map);
     auto accu_pivots = accu_simplex.add_subkey("Pivots", Clingo::StatisticsType::Value);
     auto accu_propagated_bounds = accu_simplex.add_subkey("Bounds propagated", Clingo::StatisticsType::Value);
+    double pivots = 0;
+    double propagated_bounds = 0;
     for (auto const &[offset, slv] : slvs_) {
-        step_pivots.set_value(slv.statistics().pivots);
-        accu_pivots.set_value(accu_pivots.value() + slv.statistics().pivots);
-        step_propagated_bounds.set_value(slv.statistics().propagated_bounds);
-        accu_propagated_bounds.set_value(accu_propagated_bounds.value() + slv.statistics().propagated_bounds);
+        pivots += slv.statistics().pivots;
+        propagated_bounds += slv.statistics().propagated_bounds;
     }
+    step_pivots.set_value(pivots);
+    accu_pivots.set_value(accu_pivots.value() + pivots);
+    step_propagated_bounds.set_value(propagated_bounds);
+    accu_propagated_bounds.set_value(accu_propagated_bounds.value() + propagated_bounds);
 }
 
 template <typename Value>
-- 
2.43.0


From 468f9062b9e9bc386ed24e56df628e6e680b05c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:19 +0000
Subject: [PATCH 08/10] fix: reject invalid step values for the objective
 option

A step that is not a number raised an exception in the C callback, a zero
denominator was accepted, and fractions were not reduced.
---
 libclingo-lpx/src/clingo-lpx.cc | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/libclingo-lpx/src/clingo-lpx.cc b/libclingo-lpx/src/clingo-lpx.cc
index f03f677..7eccfe1 100644
--- a/libclingo-lpx/src/clingo-lpx.cc
+++ b/libclingo-lpx/src/clingo-lpx.cc
@@ -307,8 +307,17 @@ auto parse_objective(const char *value, void *data) -> bool {
         options.global_objective = RationalQ{Rational{0}, Rational{1}};
         return true;
     }
-    // NOLINTNEXTLINE(cppcoreguidelines-avoid-magic-numbers)
-    options.global_objective = RationalQ{Rational{value, 10}};
+    try {
+        // NOLINTNEXTLINE(cppcoreguidelines-avoid-magic-numbers)
+        Rational step{value, 10};
+        if (step.den() == 0) {
+            return false;
+        }
+        step.canonicalize();
+        options.global_objective = RationalQ{std::move(step)};
+    } catch (std::runtime_error const &) {
+        return false;
+    }
     return true;
 }
 
-- 
2.43.0


From 4b2271c00306c2e4cecec67963799936676675c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:49 +0000
Subject: [PATCH 09/10] fix: conditional elements of different steps sharing a
 condition id

The ids of conditions with several literals are numbered anew in each step. An
element of a later step could thus reuse the auxiliary variable of an unrelated
condition. Use the solver literal of the condition as key instead.
---
 libclingo-lpx/src/parsing.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libclingo-lpx/src/parsing.cc b/libclingo-lpx/src/parsing.cc
index eb31e00..1fd82b2 100644
--- a/libclingo-lpx/src/parsing.cc
+++ b/libclingo-lpx/src/parsing.cc
@@ -343,11 +343,12 @@ void parse_sum_elem(Clingo::TheoryTerm const &term, std::vector<Term> &res) {
         size_t n = lhs.size();
         parse_sum_elem(term, lhs);
         if (!elem.condition().empty()) {
+            // condition ids are only unique within a step
+            auto lit = mapper(elem.condition_id());
             for (auto it = lhs.begin() + n, ie = lhs.end(); it != ie; ++it) {
-                auto res = var_map.try_emplace(std::make_pair(it->var, elem.condition_id()),
+                auto res = var_map.try_emplace(std::make_pair(it->var, lit),
                                                Clingo::Number(safe_cast<int>(var_map.size() + 1)));
                 if (res.second) {
-                    auto lit = mapper(elem.condition_id());
                     iqs.emplace_back(Inequality{{{1, res.first->second}}, 0, Relation::Equal, -lit});
                     if (is_invalid(it->var)) {
                         iqs.emplace_back(Inequality{{{1, res.first->second}}, 1, Relation::Equal, lit});
-- 
2.43.0


From 48b2b90ec273c7da29f0762695ecde7a0b5559d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:50:37 +0000
Subject: [PATCH 10/10] fix: replay facts of earlier steps in all threads

---
 libclingo-lpx/src/solving.cc | 32 +++++++++++++++++---------------
 libclingo-lpx/src/solving.hh |  4 +---
 2 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/libclingo-lpx/src/solving.cc b/libclingo-lpx/src/solving.cc
index 03aa407..8c6e07d 100644
--- a/libclingo-lpx/src/solving.cc
+++ b/libclingo-lpx/src/solving.cc
@@ -1039,8 +1039,9 @@ auto Solver<Value>::adjust(Clingo::Assignment const &assign, Clingo::literal_t l
 }
 
 template <typename Value> void Propagator<Value>::init(Clingo::PropagateInit &init) {
-    facts_offset_ = facts_.size();
-    if (facts_offset_ > 0 || options_.global_objective.has_value()) {
+    // Facts of earlier steps are not passed to propagate again.
+    bool replay_facts = !slvs_.empty();
+    if (replay_facts || options_.global_objective.has_value()) {
         init.set_check_mode(Clingo::PropagatorCheckMode::Both);
     }
 
@@ -1066,7 +1067,7 @@ template <typename Value> void Propagator<Value>::init(Clingo::PropagateInit &in
     slvs_.clear();
     slvs_.reserve(init.number_of_threads());
     for (size_t i = 0, e = init.number_of_threads(); i != e; ++i) {
-        slvs_.emplace_back(std::piecewise_construct, std::forward_as_tuple(0), std::forward_as_tuple(options_));
+        slvs_.emplace_back(std::piecewise_construct, std::forward_as_tuple(replay_facts), std::forward_as_tuple(options_));
         if (!slvs_.back().second.prepare(init, var_map_, iqs_, objective_, i == 0)) {
             return;
         }
@@ -1092,7 +1093,7 @@ void Propagator<Value>::on_statistics(Clingo::UserStatistics step, Clingo::UserS
     auto accu_propagated_bounds = accu_simplex.add_subkey("Bounds propagated", Clingo::StatisticsType::Value);
     double pivots = 0;
     double propagated_bounds = 0;
-    for (auto const &[offset, slv] : slvs_) {
+    for (auto const &[replay_facts, slv] : slvs_) {
         pivots += slv.statistics().pivots;
         propagated_bounds += slv.statistics().propagated_bounds;
     }
@@ -1122,10 +1123,17 @@ template <typename Value> void Propagator<Value>::on_model(Clingo::Model const &
 
 template <typename Value> void Propagator<Value>::check(Clingo::PropagateControl &ctl) {
     auto ass = ctl.assignment();
-    auto &[offset, slv] = slvs_[ctl.thread_id()];
-    if (ass.decision_level() == 0 && offset < facts_offset_) {
-        auto res = slv.solve(ctl, Clingo::LiteralSpan{facts_.data() + offset, facts_offset_}); // NOLINT
-        offset = facts_offset_;
+    auto &[replay_facts, slv] = slvs_[ctl.thread_id()];
+    if (ass.decision_level() == 0 && replay_facts) {
+        // Note to self: auxiliary variables introduced during solving cannot become facts
+        std::vector<Clingo::literal_t> facts;
+        for (auto const &x : iqs_) {
+            if (ass.is_true(x.lit)) {
+                facts.emplace_back(x.lit);
+            }
+        }
+        replay_facts = false;
+        auto res = slv.solve(ctl, facts);
         // can happen in case of a top-level conflict
         if (!res) {
             return;
@@ -1152,13 +1160,7 @@ template <typename Value> void Propagator<Value>::check(Clingo::PropagateControl
 
 template <typename Value>
 void Propagator<Value>::propagate(Clingo::PropagateControl &ctl, Clingo::LiteralSpan changes) {
-    auto ass = ctl.assignment();
-    if (ass.decision_level() == 0 && ctl.thread_id() == 0) {
-        // Note to self: auxiliary variables introduced during solving cannot become facts
-        facts_.insert(facts_.end(), changes.begin(), changes.end());
-    }
-    auto &[offset, slv] = slvs_[ctl.thread_id()];
-    static_cast<void>(slv.solve(ctl, changes));
+    static_cast<void>(slvs_[ctl.thread_id()].second.solve(ctl, changes));
 }
 
 template <typename Value>
diff --git a/libclingo-lpx/src/solving.hh b/libclingo-lpx/src/solving.hh
index e9c1443..5a01743 100644
--- a/libclingo-lpx/src/solving.hh
+++ b/libclingo-lpx/src/solving.hh
@@ -304,9 +304,7 @@ template <typename Value> class Propagator : public Clingo::Heuristic {
     SymbolVec var_vec_;
     std::vector<Term> objective_;
     std::vector<Inequality> iqs_;
-    size_t facts_offset_{0};
-    std::vector<Clingo::literal_t> facts_;
-    std::vector<std::pair<size_t, Solver<Value>>> slvs_;
+    std::vector<std::pair<bool, Solver<Value>>> slvs_;
     ObjectiveState<Value> objective_state_;
     Options options_;
 };
-- 
2.43.0

