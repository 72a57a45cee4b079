From da80568fecbf359a135f18adc3a66da069c347b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:40 +0000
Subject: [PATCH 01/12] fix: check constant constraints against the right bound

The checks for constraints without variables were inverted: a constraint
like 0 <= 5 made its literal false, and 0 <= -5 was accepted.
---
 libclingo-lpx/src/solving.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libclingo-lpx/src/solving.cc b/libclingo-lpx/src/solving.cc
index 77c5f07..e8caf0d 100644
--- a/libclingo-lpx/src/solving.cc
+++ b/libclingo-lpx/src/solving.cc
@@ -297,25 +297,25 @@ auto Solver<Value>::prepare(Clingo::PropagateInit &init, SymbolMap const &symbol
             }
             switch (x.rel) {
                 case Relation::Less: {
-                    if (x.rhs >= 0 && !init.add_clause({-x.lit})) {
+                    if (x.rhs <= 0 && !init.add_clause({-x.lit})) {
                         return false;
                     }
                     break;
                 }
                 case Relation::LessEqual: {
-                    if (x.rhs > 0 && !init.add_clause({-x.lit})) {
+                    if (x.rhs < 0 && !init.add_clause({-x.lit})) {
                         return false;
                     }
                     break;
                 }
                 case Relation::Greater: {
-                    if (x.rhs <= 0 && !init.add_clause({-x.lit})) {
+                    if (x.rhs >= 0 && !init.add_clause({-x.lit})) {
                         return false;
                     }
                     break;
                 }
                 case Relation::GreaterEqual: {
-                    if (x.rhs < 0 && !init.add_clause({-x.lit})) {
+                    if (x.rhs > 0 && !init.add_clause({-x.lit})) {
                         return false;
                     }
                     break;
-- 
2.43.0


From a69ce175c1bd62e896938763f17270a12d790b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:16 +0000
Subject: [PATCH 02/12] fix: restore both bounds of a variable when undoing an
 equality

Undoing an equality replaced both bounds of its variable by the old upper
bound, and marking the trail entry as an equality could hit an unrelated
entry if the upper bound was not recorded on the current level.
---
 libclingo-lpx/src/solving.cc | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/libclingo-lpx/src/solving.cc b/libclingo-lpx/src/solving.cc
index e8caf0d..cd36f8d 100644
--- a/libclingo-lpx/src/solving.cc
+++ b/libclingo-lpx/src/solving.cc
@@ -191,12 +191,7 @@ template <typename Value>
 auto Solver<Value>::Variable::update_lower(Solver &s, Clingo::Assignment ass, Bound const &bound) -> bool {
     if (!has_lower() || bound.value > lower()) {
         if (!has_lower() || ass.level(lower_bound->lit) < ass.decision_level()) {
-            if (upper_bound != &bound) {
-                s.bound_trail_.emplace_back(bound.variable, BoundRelation::GreaterEqual, lower_bound);
-            } else {
-                // Note: this assumes that update_lower is called right after update_upper for the same bound
-                std::get<1>(s.bound_trail_.back()) = BoundRelation::Equal;
-            }
+            s.bound_trail_.emplace_back(bound.variable, BoundRelation::GreaterEqual, lower_bound);
         }
         lower_bound = &bound;
     }
@@ -836,8 +831,8 @@ template <typename Value> void Solver<Value>::undo() {
                     break;
                 }
                 case BoundRelation::Equal: {
-                    variables_[var].upper_bound = bound;
-                    variables_[var].lower_bound = bound;
+                    // the two sides of an equality are recorded separately
+                    assert(false);
                     break;
                 }
             }
-- 
2.43.0


From 5c967f94a03cbaa41492df30a444c62d37fc8ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:23 +0000
Subject: [PATCH 03/12] fix: treat conditional constants as constants

A constant in an element with a condition was turned into an unconstrained
variable with the number 0 as name, which then also showed up in the
assignment.
---
 libclingo-lpx/src/parsing.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libclingo-lpx/src/parsing.cc b/libclingo-lpx/src/parsing.cc
index 5694683..00df2a5 100644
--- a/libclingo-lpx/src/parsing.cc
+++ b/libclingo-lpx/src/parsing.cc
@@ -346,7 +346,11 @@ void parse_sum_elem(Clingo::TheoryTerm const &term, std::vector<Term> &res) {
                 if (res.second) {
                     auto lit = mapper(elem.condition_id());
                     iqs.emplace_back(Inequality{{{1, res.first->second}}, 0, Relation::Equal, -lit});
-                    iqs.emplace_back(Inequality{{{1, res.first->second}, {-1, it->var}}, 0, Relation::Equal, lit});
+                    if (is_invalid(it->var)) {
+                        iqs.emplace_back(Inequality{{{1, res.first->second}}, 1, Relation::Equal, lit});
+                    } else {
+                        iqs.emplace_back(Inequality{{{1, res.first->second}, {-1, it->var}}, 0, Relation::Equal, lit});
+                    }
                 }
                 it->var = res.first->second;
             }
-- 
2.43.0


From 6499921c2f837ced04bcc4421fff2d6cd0f103ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:30 +0000
Subject: [PATCH 04/12] fix: reject divisions by zero in terms

Outside of sum elements, a division by zero reached the arithmetic library,
which aborts the process.
---
 libclingo-lpx/src/parsing.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libclingo-lpx/src/parsing.cc b/libclingo-lpx/src/parsing.cc
index 00df2a5..d864667 100644
--- a/libclingo-lpx/src/parsing.cc
+++ b/libclingo-lpx/src/parsing.cc
@@ -203,7 +203,10 @@ auto evaluate(bool num_str, Clingo::TheoryTerm const &term) -> std::variant<Rati
     }
     if (match(term, "/", 2)) {
         return evaluate(num_str, term.arguments().front(), term.arguments().back(),
-                        [](Rational &&a, Rational &&b) { return std::move(a) / std::move(b); });
+                        [](Rational &&a, Rational &&b) {
+                            check_syntax(b != 0);
+                            return std::move(a) / std::move(b);
+                        });
     }
 
     if (match(term, "-", 1)) {
-- 
2.43.0


From 1258b7cfb383552b4e4c64954ca303bc7bcf8ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:33 +0000
Subject: [PATCH 05/12] fix: pass the right data to option parsers in
 clingolpx_configure

The keys objective and propagate-bounds wrote to unrelated memory and did
not set the option, and errors for key store were reported for key select.
---
 libclingo-lpx/src/clingo-lpx.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libclingo-lpx/src/clingo-lpx.cc b/libclingo-lpx/src/clingo-lpx.cc
index 1393831..f03f677 100644
--- a/libclingo-lpx/src/clingo-lpx.cc
+++ b/libclingo-lpx/src/clingo-lpx.cc
@@ -383,19 +383,19 @@ extern "C" auto clingolpx_configure(clingolpx_theory_t *theory, char const *key,
             return check_parse("strict", parse_bool(value, &theory->strict));
         }
         if (strcmp(key, "objective") == 0) {
-            return check_parse("objective", parse_bool(value, &theory->options.global_objective));
+            return check_parse("objective", parse_objective(value, &theory->options));
         }
         if (strcmp(key, "propagate-conflicts") == 0) {
             return check_parse("propagate-conflicts", parse_bool(value, &theory->options.propagate_conflicts));
         }
         if (strcmp(key, "propagate-bounds") == 0) {
-            return check_parse("propagate-bounds", parse_propagate(value, &theory->options.propagate_mode));
+            return check_parse("propagate-bounds", parse_propagate(value, &theory->options));
         }
         if (strcmp(key, "select") == 0) {
             return check_parse("select", parse_select(value, &theory->options));
         }
         if (strcmp(key, "store") == 0) {
-            return check_parse("select", parse_store(value, &theory->options));
+            return check_parse("store", parse_store(value, &theory->options));
         }
         std::ostringstream msg;
         msg << "invalid configuration key '" << key << "'";
-- 
2.43.0


From c11070ee33148a7ead0f99e1285f3294c3827640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:41 +0000
Subject: [PATCH 06/12] fix: compare big integers by value

Comparing two integers used the internal word of the second one, which is a
tagged pointer for integers that do not fit into a machine word.
---
 libclingo-lpx/src/number_flint.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libclingo-lpx/src/number_flint.hh b/libclingo-lpx/src/number_flint.hh
index 77ba3f2..39443c8 100644
--- a/libclingo-lpx/src/number_flint.hh
+++ b/libclingo-lpx/src/number_flint.hh
@@ -412,7 +412,7 @@ inline auto operator<<(std::ostream &out, Integer const &a) -> std::ostream & {
 
 [[nodiscard]] inline auto compare(Integer const &a, fixed_int b) -> int { return fmpz_cmp_si(&a.num_, b); }
 
-[[nodiscard]] inline auto compare(Integer const &a, Integer const &b) -> int { return fmpz_cmp_si(&a.num_, b.num_); }
+[[nodiscard]] inline auto compare(Integer const &a, Integer const &b) -> int { return fmpz_cmp(&a.num_, &b.num_); }
 
 // gcd
 
-- 
2.43.0


From 04371c8f246e964eac4f16e9fd5bb6e4970900c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:11 +0000
Subject: [PATCH 07/12] fix: reject objective steps with a zero denominator

Also bring the step value into canonical form, which the arithmetic library
expects of all its arguments.
---
 libclingo-lpx/src/clingo-lpx.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libclingo-lpx/src/clingo-lpx.cc b/libclingo-lpx/src/clingo-lpx.cc
index f03f677..7e547eb 100644
--- a/libclingo-lpx/src/clingo-lpx.cc
+++ b/libclingo-lpx/src/clingo-lpx.cc
@@ -308,7 +308,12 @@ auto parse_objective(const char *value, void *data) -> bool {
         return true;
     }
     // NOLINTNEXTLINE(cppcoreguidelines-avoid-magic-numbers)
-    options.global_objective = RationalQ{Rational{value, 10}};
+    Rational step{value, 10};
+    if (step.den() == 0) {
+        return false;
+    }
+    step.canonicalize();
+    options.global_objective = RationalQ{std::move(step)};
     return true;
 }
 
-- 
2.43.0


From e924c0eeaa4701cadad13733db984487dbdd09a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:17 +0000
Subject: [PATCH 08/12] fix: sum step statistics over all threads

The step statistics only showed the numbers of the last thread, while the
accumulated statistics included all of them.
---
 libclingo-lpx/src/solving.cc | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/libclingo-lpx/src/solving.cc b/libclingo-lpx/src/solving.cc
index cd36f8d..d6e0125 100644
--- a/libclingo-lpx/src/solving.cc
+++ b/libclingo-lpx/src/solving.cc
@@ -1090,12 +1090,15 @@ void Propagator<Value>::on_statistics(Clingo::UserStatistics step, Clingo::UserS
     auto accu_simplex = accu.add_subkey("Simplex", Clingo::StatisticsType::Map);
     auto accu_pivots = accu_simplex.add_subkey("Pivots", Clingo::StatisticsType::Value);
     auto accu_propagated_bounds = accu_simplex.add_subkey("Bounds propagated", Clingo::StatisticsType::Value);
+    Statistics total;
     for (auto const &[offset, slv] : slvs_) {
-        step_pivots.set_value(slv.statistics().pivots);
-        accu_pivots.set_value(accu_pivots.value() + slv.statistics().pivots);
-        step_propagated_bounds.set_value(slv.statistics().propagated_bounds);
-        accu_propagated_bounds.set_value(accu_propagated_bounds.value() + slv.statistics().propagated_bounds);
+        total.pivots += slv.statistics().pivots;
+        total.propagated_bounds += slv.statistics().propagated_bounds;
     }
+    step_pivots.set_value(total.pivots);
+    accu_pivots.set_value(accu_pivots.value() + total.pivots);
+    step_propagated_bounds.set_value(total.propagated_bounds);
+    accu_propagated_bounds.set_value(accu_propagated_bounds.value() + total.propagated_bounds);
 }
 
 template <typename Value>
-- 
2.43.0


From b7640ef211b8d276fc731c56711528396fa9479b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:24 +0000
Subject: [PATCH 09/12] fix: do not look up internal auxiliary variables

---
 libclingo-lpx/src/clingo-lpx.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libclingo-lpx/src/clingo-lpx.cc b/libclingo-lpx/src/clingo-lpx.cc
index 7e547eb..d2196a9 100644
--- a/libclingo-lpx/src/clingo-lpx.cc
+++ b/libclingo-lpx/src/clingo-lpx.cc
@@ -138,6 +138,10 @@ template <typename Value> class LPXPropagatorFacade : public PropagatorFacade {
     }
 
     auto lookup_symbol(clingo_symbol_t name, size_t *index) -> bool override {
+        // numbers are used for internal auxiliary variables
+        if (Clingo::Symbol{name}.type() == Clingo::SymbolType::Number) {
+            return false;
+        }
         if (auto ret = prop_.lookup_symbol(Clingo::Symbol{name}); ret) {
             *index = *ret + 1;
             return true;
-- 
2.43.0


From 5ab67b9cf84612ad1023ec92286829dcb50c7124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:38 +0000
Subject: [PATCH 10/12] fix: record facts of all threads without sharing them
 during search

---
 libclingo-lpx/src/solving.cc | 14 ++++++++++++--
 libclingo-lpx/src/solving.hh |  1 +
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/libclingo-lpx/src/solving.cc b/libclingo-lpx/src/solving.cc
index d6e0125..a3c4e20 100644
--- a/libclingo-lpx/src/solving.cc
+++ b/libclingo-lpx/src/solving.cc
@@ -3,6 +3,7 @@
 
 #include <clingo.hh>
 
+#include <algorithm>
 #include <climits>
 #include <cmath>
 #include <cstddef>
@@ -1039,6 +1040,14 @@ auto Solver<Value>::adjust(Clingo::Assignment const &assign, Clingo::literal_t l
 }
 
 template <typename Value> void Propagator<Value>::init(Clingo::PropagateInit &init) {
+    // gather the facts found by all threads in the previous step
+    for (auto const &facts : new_facts_) {
+        facts_.insert(facts_.end(), facts.begin(), facts.end());
+    }
+    new_facts_.clear();
+    new_facts_.resize(init.number_of_threads());
+    std::sort(facts_.begin(), facts_.end());
+    facts_.erase(std::unique(facts_.begin(), facts_.end()), facts_.end());
     facts_offset_ = facts_.size();
     if (facts_offset_ > 0 || options_.global_objective.has_value()) {
         init.set_check_mode(Clingo::PropagatorCheckMode::Both);
@@ -1152,9 +1161,10 @@ template <typename Value> void Propagator<Value>::check(Clingo::PropagateControl
 template <typename Value>
 void Propagator<Value>::propagate(Clingo::PropagateControl &ctl, Clingo::LiteralSpan changes) {
     auto ass = ctl.assignment();
-    if (ass.decision_level() == 0 && ctl.thread_id() == 0) {
+    if (ass.decision_level() == 0) {
         // Note to self: auxiliary variables introduced during solving cannot become facts
-        facts_.insert(facts_.end(), changes.begin(), changes.end());
+        auto &facts = new_facts_[ctl.thread_id()];
+        facts.insert(facts.end(), changes.begin(), changes.end());
     }
     auto &[offset, slv] = slvs_[ctl.thread_id()];
     static_cast<void>(slv.solve(ctl, changes));
diff --git a/libclingo-lpx/src/solving.hh b/libclingo-lpx/src/solving.hh
index e9c1443..49a13f9 100644
--- a/libclingo-lpx/src/solving.hh
+++ b/libclingo-lpx/src/solving.hh
@@ -306,6 +306,7 @@ template <typename Value> class Propagator : public Clingo::Heuristic {
     std::vector<Inequality> iqs_;
     size_t facts_offset_{0};
     std::vector<Clingo::literal_t> facts_;
+    std::vector<std::vector<Clingo::literal_t>> new_facts_;
     std::vector<std::pair<size_t, Solver<Value>>> slvs_;
     ObjectiveState<Value> objective_state_;
     Options options_;
-- 
2.43.0


From 0aa195d1ff084b7eb06f5da1dafb371ad82a5d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:42 +0000
Subject: [PATCH 11/12] fix: do not mix up conditions of different steps

---
 libclingo-lpx/src/parsing.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libclingo-lpx/src/parsing.cc b/libclingo-lpx/src/parsing.cc
index d864667..be48fb0 100644
--- a/libclingo-lpx/src/parsing.cc
+++ b/libclingo-lpx/src/parsing.cc
@@ -343,11 +343,13 @@ void parse_sum_elem(Clingo::TheoryTerm const &term, std::vector<Term> &res) {
         size_t n = lhs.size();
         parse_sum_elem(term, lhs);
         if (!elem.condition().empty()) {
+            auto lit = mapper(elem.condition_id());
             for (auto it = lhs.begin() + n, ie = lhs.end(); it != ie; ++it) {
-                auto res = var_map.try_emplace(std::make_pair(it->var, elem.condition_id()),
+                // Note that condition ids are only unique within a step, the
+                // solver literals are unique over all steps.
+                auto res = var_map.try_emplace(std::make_pair(it->var, lit),
                                                Clingo::Number(safe_cast<int>(var_map.size() + 1)));
                 if (res.second) {
-                    auto lit = mapper(elem.condition_id());
                     iqs.emplace_back(Inequality{{{1, res.first->second}}, 0, Relation::Equal, -lit});
                     if (is_invalid(it->var)) {
                         iqs.emplace_back(Inequality{{{1, res.first->second}}, 1, Relation::Equal, lit});
-- 
2.43.0


From 658a81f898e19552d53dba243fde781e0df11c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:18 +0000
Subject: [PATCH 12/12] fix: parse long numbers without running out of stack
 space

---
 libclingo-lpx/src/parsing.cc | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/libclingo-lpx/src/parsing.cc b/libclingo-lpx/src/parsing.cc
index be48fb0..8d62295 100644
--- a/libclingo-lpx/src/parsing.cc
+++ b/libclingo-lpx/src/parsing.cc
@@ -6,7 +6,6 @@
 #include <algorithm>
 #include <iterator>
 #include <optional>
-#include <regex>
 #include <stdexcept>
 #include <unordered_map>
 #include <variant>
@@ -104,26 +103,36 @@ struct AS {
     if (len <= 2 || name[0] != '"' || name[len - 1] != '"') {
         return std::nullopt;
     }
-    std::regex const rgx{"(-)?([0-9]+)(\\.([0-9]+))?"};
-    std::cmatch match;
-    // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-pointer-arithmetic)
-    if (!std::regex_match(name + 1, name + len - 1, match, rgx)) {
+    // Note that std::regex_match needs stack space proportional to the length
+    // of the string and overflows the stack for very long numbers.
+    // NOLINTBEGIN(cppcoreguidelines-pro-bounds-pointer-arithmetic)
+    auto const *ib = name + 1;
+    auto const *ie = name + len - 1;
+    auto digits = [ie](char const *it) { return std::find_if(it, ie, [](char c) { return c < '0' || c > '9'; }); };
+    bool const neg = *ib == '-';
+    if (neg) {
+        ++ib;
+    }
+    auto const *it = digits(ib);
+    if (it == ib) {
         return std::nullopt;
     }
-    std::string a = match[2];
-    if (match[4].matched) {
-        auto const *ib = match[4].first;
-        auto const *it = match[4].second;
-        // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-pointer-arithmetic)
-        for (; it != ib && *(it - 1) == '0'; --it) {
+    std::string a{ib, it};
+    if (it != ie) {
+        ib = it + 1;
+        if (*it != '.' || ib == ie || digits(ib) != ie) {
+            return std::nullopt;
+        }
+        for (it = ie; it != ib && *(it - 1) == '0'; --it) {
         }
         a.append(ib, it);
         a.append("/1");
         a.append(it - ib, '0');
     }
+    // NOLINTEND(cppcoreguidelines-pro-bounds-pointer-arithmetic)
     // NOLINTNEXTLINE(cppcoreguidelines-avoid-magic-numbers)
     Rational n{a, 10};
-    if (match[1].matched) {
+    if (neg) {
         n.neg();
     }
     n.canonicalize();
-- 
2.43.0

