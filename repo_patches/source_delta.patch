From 0b1f9baba9656eb122c5307597568753f0dacb25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:44 +0000
Subject: [PATCH 01/26] fix: round up in ceildiv when operands have equal signs

The condition was copied from floordiv, so inexact positive quotients were
rounded down and negative ones past the ceiling. Propagation of nonlinear
constraints derived wrong lower bounds and lost solutions.
---
 libclingcon/clingcon/util.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libclingcon/clingcon/util.hh b/libclingcon/clingcon/util.hh
index 74ab195..6413519 100644
--- a/libclingcon/clingcon/util.hh
+++ b/libclingcon/clingcon/util.hh
@@ -88,7 +88,7 @@ template <typename I> auto floordiv(I n, I m) -> I {
 template <typename I> auto ceildiv(I n, I m) -> I {
     using std::div;
     auto a = div(n, m);
-    if (((n < 0) ^ (m < 0)) && a.rem != 0) {
+    if (((n < 0) == (m < 0)) && a.rem != 0) {
         a.quot++;
     }
     return a.quot;
-- 
2.43.0


From f439a1708308d2e93c36e3e91bbcae2241097617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:44 +0000
Subject: [PATCH 02/26] fix: negate literal of the complement of strict
 nonlinear constraints

---
 libclingcon/src/propagator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libclingcon/src/propagator.cc b/libclingcon/src/propagator.cc
index 06036f5..27c502e 100644
--- a/libclingcon/src/propagator.cc
+++ b/libclingcon/src/propagator.cc
@@ -84,7 +84,7 @@ class ConstraintBuilder final : public AbstractConstraintBuilder {
         propagator_.add_constraint(std::make_unique<NonlinearConstraint>(lit, co_ab, var_a, var_b, co_c, var_c, rhs));
         if (strict) {
             propagator_.add_constraint(std::make_unique<NonlinearConstraint>(
-                lit, safe_inv(co_ab), var_a, var_b, safe_inv(co_c), var_c, safe_inv(safe_add(rhs, 1))));
+                -lit, safe_inv(co_ab), var_a, var_b, safe_inv(co_c), var_c, safe_inv(safe_add(rhs, 1))));
         }
         return true;
     }
-- 
2.43.0


From 8ba604605fc982717da230bf842b5f4cb8327e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:44 +0000
Subject: [PATCH 03/26] fix: check for multiple nonlinear terms

The check tested the linear coefficient. Hence, z+x*y was rejected and the
first product of x*y+z*w silently dropped.
---
 libclingcon/src/parsing.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libclingcon/src/parsing.cc b/libclingcon/src/parsing.cc
index 13b3c2a..4e60221 100644
--- a/libclingcon/src/parsing.cc
+++ b/libclingcon/src/parsing.cc
@@ -478,7 +478,7 @@ auto simplify(NonlinearTermVec &vec, bool drop_zero) -> val_t {
             var_c = vars.front();
         }
         if (vars.size() == 2) {
-            check_syntax(co_c == 0, "nonlinear sums can have at most one nonlinear term");
+            check_syntax(co_ab == 0, "nonlinear sums can have at most one nonlinear term");
             co_ab = co;
             var_a = vars.front();
             var_b = vars.back();
-- 
2.43.0


From 21408efad6a3dd4c3945f7c5e7371b92b6c7fa29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:54 +0000
Subject: [PATCH 04/26] fix: add constraint literal to reasons of nonlinear
 constraints

Clauses were derived as if the constraint were a fact, excluding solutions
in which a conditional nonlinear constraint does not hold.
---
 libclingcon/src/constraints.cc | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/libclingcon/src/constraints.cc b/libclingcon/src/constraints.cc
index 7d41133..1b0ce1c 100644
--- a/libclingcon/src/constraints.cc
+++ b/libclingcon/src/constraints.cc
@@ -1413,9 +1413,11 @@ class NonlinearConstraintState : public AbstractConstraintState {
     [[nodiscard]] auto propagate(Solver &solver, AbstractClauseCreator &cc, bool check_state) -> bool override {
         // TODO: This implementation is just a first shot that has to be
         // refined further.
-        static_cast<void>(cc);
         static_cast<void>(check_state);
 
+        auto ass = cc.assignment();
+        auto clit = constraint_.literal();
+
         auto &vs_x = solver.var_state(constraint_.var_x());
         auto &vs_y = solver.var_state(constraint_.var_y());
         nsum_t co_a = constraint_.co_a();
@@ -1470,9 +1472,15 @@ class NonlinearConstraintState : public AbstractConstraintState {
                     reason.emplace_back(solver.get_literal(cc, *vs_z, vs_z->lower_bound() - 1));
                 }
             }
+            reason.emplace_back(-clit);
             return cc.add_clause(reason);
         }
 
+        // the bounds below are only implied if the constraint holds
+        if (!ass.is_true(clit)) {
+            return true;
+        }
+
         // TODO: the code has to be refined.
         // Some first throw to propagate the linear term. This should be quite
         // similar to the propagation of linear constraints.
@@ -1495,6 +1503,7 @@ class NonlinearConstraintState : public AbstractConstraintState {
                     reason.emplace_back(-solver.get_literal(cc, vs_y, vs_y.upper_bound()));
                     reason.emplace_back(solver.get_literal(cc, vs_y, vs_y.lower_bound() - 1));
 
+                    reason.emplace_back(-clit);
                     reason.emplace_back(solver.get_literal(cc, *vs_z, static_cast<val_t>(bound_z)));
                     if (!cc.add_clause(reason)) {
                         return false;
@@ -1511,6 +1520,7 @@ class NonlinearConstraintState : public AbstractConstraintState {
                     reason.emplace_back(-solver.get_literal(cc, vs_y, vs_y.upper_bound()));
                     reason.emplace_back(solver.get_literal(cc, vs_y, vs_y.lower_bound() - 1));
 
+                    reason.emplace_back(-clit);
                     reason.emplace_back(-solver.get_literal(cc, *vs_z, static_cast<val_t>(bound_z) - 1));
                     if (!cc.add_clause(reason)) {
                         return false;
-- 
2.43.0


From 47af0f5ab0327c5bc0f8c746c14ff6d9277a4ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:03 +0000
Subject: [PATCH 05/26] fix: skip auxiliary variables when iterating over
 assignments

The iterator was advanced by one even if the next named variable has a larger
index, yielding indices without a symbol.
---
 libclingcon/src/clingcon.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libclingcon/src/clingcon.cc b/libclingcon/src/clingcon.cc
index f7e15b3..6f33996 100644
--- a/libclingcon/src/clingcon.cc
+++ b/libclingcon/src/clingcon.cc
@@ -610,7 +610,7 @@ extern "C" auto clingcon_assignment_next(clingcon_theory_t *theory, uint32_t thr
     auto const &map = theory->propagator.var_map();
     auto it = map.lower_bound(*index);
     if (it != map.end()) {
-        *index = *index + 1;
+        *index = it->first + 1;
         return true;
     }
     return false;
-- 
2.43.0


From 6889658075c781a7ce1d4a208fa7bd40222b57da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:03 +0000
Subject: [PATCH 06/26] fix: keep sign of constant in objective when extending
 it

The adjustment is the negated constant of the objective; adding it back as
a constant term flipped its sign in every solve step.
---
 libclingcon/src/propagator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libclingcon/src/propagator.cc b/libclingcon/src/propagator.cc
index 27c502e..a8c683f 100644
--- a/libclingcon/src/propagator.cc
+++ b/libclingcon/src/propagator.cc
@@ -252,7 +252,7 @@ class ConstraintBuilder final : public AbstractConstraintBuilder {
             for (auto elem : *minimize_) {
                 minimize_elems_.emplace_back(elem);
             }
-            minimize_elems_.emplace_back(minimize_->adjust(), INVALID_VAR);
+            minimize_elems_.emplace_back(-minimize_->adjust(), INVALID_VAR);
         }
         // simplify minimize
         if (!minimize_elems_.empty()) {
-- 
2.43.0


From 41837be19b78c9cb281fbd4fc33d35bf9369a15e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:03 +0000
Subject: [PATCH 07/26] fix: treat empty domains as false

No clauses were added for empty domains leaving the variable unconstrained.
---
 libclingcon/src/solver.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libclingcon/src/solver.cc b/libclingcon/src/solver.cc
index e55c7ba..4af96e3 100644
--- a/libclingcon/src/solver.cc
+++ b/libclingcon/src/solver.cc
@@ -1033,6 +1033,10 @@ auto Solver::add_dom(AbstractClauseCreator &cc, lit_t lit, var_t var, IntervalSe
     if (ass.is_true(lit)) {
         lit = TRUE_LIT;
     }
+    // no value is allowed
+    if (domain.empty()) {
+        return cc.add_clause({-lit});
+    }
     auto &vs = var_state(var);
 
     std::optional<val_t> py;
-- 
2.43.0


From d6805e68d01f664baa2737b37d84076ad4c6f709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:03 +0000
Subject: [PATCH 08/26] fix: only reject negative powers of zero

---
 libclingcon/src/parsing.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libclingcon/src/parsing.cc b/libclingcon/src/parsing.cc
index 4e60221..f1cc0dc 100644
--- a/libclingcon/src/parsing.cc
+++ b/libclingcon/src/parsing.cc
@@ -253,7 +253,7 @@ template <class F>
 }
 
 auto safe_pow(val_t a, val_t b) -> val_t {
-    if (a == 0) {
+    if (a == 0 && b < 0) {
         throw std::overflow_error("integer overflow");
     }
     auto ret = std::pow(static_cast<double>(a), b);
-- 
2.43.0


From 3d3783f589ea3085fda623dd1b7880f2cfb73224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:03 +0000
Subject: [PATCH 09/26] fix: do not shift difference constraints with negated
 relation

Difference constraints in rule heads only accept `<=`. Shifting a positive
literal led to a grounding error.
---
 libclingcon/src/parsing.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libclingcon/src/parsing.cc b/libclingcon/src/parsing.cc
index f1cc0dc..0ac7198 100644
--- a/libclingcon/src/parsing.cc
+++ b/libclingcon/src/parsing.cc
@@ -119,6 +119,11 @@ auto shift_rule(Clingo::AST::Node ast) -> Clingo::AST::Node {
         if (atom.type() != Type::TheoryAtom || !match(atom.get<Node>(Attribute::Term), "sum", "diff")) {
             continue;
         }
+        // Note: the relation of difference constraints cannot be negated.
+        if (match(atom.get<Node>(Attribute::Term), "diff") &&
+            static_cast<Sign>(lit.get<int>(Attribute::Sign)) != Sign::Negation) {
+            continue;
+        }
         auto ret = ast.copy();
         auto ret_bd = ret.get<NodeVector>(Attribute::Body);
         auto jt = ret_bd.begin() + (it - body.begin());
-- 
2.43.0


From 02299aabbff5bcda5fe5b3add40adbfe3ab7c3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:03 +0000
Subject: [PATCH 10/26] fix: register decide function per theory

The static propagator captured the heuristic of the first theory registered in
the process.
---
 libclingcon/src/clingcon.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libclingcon/src/clingcon.cc b/libclingcon/src/clingcon.cc
index 6f33996..af4dd18 100644
--- a/libclingcon/src/clingcon.cc
+++ b/libclingcon/src/clingcon.cc
@@ -347,7 +347,7 @@ extern "C" auto clingcon_register(clingcon_theory_t *theory, clingo_control_t *c
         has_heuristic = sconfig.heuristic != Heuristic::None;
     }
 
-    static clingo_propagator_t propagator = {init, propagate, undo, check, has_heuristic ? decide : nullptr};
+    clingo_propagator_t propagator = {init, propagate, undo, check, has_heuristic ? decide : nullptr};
     return clingo_control_add(control, "base", nullptr, 0, Clingcon::THEORY) &&
            clingo_control_register_propagator(control, &propagator, &theory->propagator, false);
 }
-- 
2.43.0


From 47901c76d7c9a00911191c7a13b851358a10c1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:43 +0000
Subject: [PATCH 11/26] fix: propagate initially assigned elements of distinct
 constraints

---
 libclingcon/src/constraints.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libclingcon/src/constraints.cc b/libclingcon/src/constraints.cc
index 1b0ce1c..a39976c 100644
--- a/libclingcon/src/constraints.cc
+++ b/libclingcon/src/constraints.cc
@@ -820,6 +820,10 @@ class DistinctConstraintState final : public AbstractConstraintState {
             auto [lower, upper] = init_(solver, idx);
             lower_.emplace(lower, idx);
             upper_.emplace(upper, idx);
+            // Note: there are no further bound changes for assigned elements
+            if (lower == upper) {
+                mark_todo_(1, idx);
+            }
             for (auto [co, var] : element) {
                 solver.add_var_watch(var, co > 0 ? idx + 1 : -idx - 1, *this);
             }
-- 
2.43.0


From 98f02b439596a3ab9f7d1ef48077b06eea94fcf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:05 +0000
Subject: [PATCH 12/26] fix: watch order literals in threads added between
 steps

---
 libclingcon/clingcon/solver.hh |  7 +++++++
 libclingcon/src/propagator.cc  |  6 +++++-
 libclingcon/src/solver.cc      | 11 +++++++++++
 3 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/libclingcon/clingcon/solver.hh b/libclingcon/clingcon/solver.hh
index 1696306..9eeab41 100644
--- a/libclingcon/clingcon/solver.hh
+++ b/libclingcon/clingcon/solver.hh
@@ -739,6 +739,13 @@ class Solver {
     //! This function must be called on the top level.
     void copy_state(Solver const &master);
 
+    //! Add watches for all order literals.
+    //!
+    //! This has to be called if solver threads are added between solve steps
+    //! because only threads existing at the time a literal is introduced watch
+    //! it.
+    void add_watches(AbstractClauseCreator &cc) const;
+
     //! Mark the number of static variables.
     //!
     //! This function has to be called at the end of propagator initialization
diff --git a/libclingcon/src/propagator.cc b/libclingcon/src/propagator.cc
index a8c683f..d608a1e 100644
--- a/libclingcon/src/propagator.cc
+++ b/libclingcon/src/propagator.cc
@@ -429,15 +429,19 @@ void Propagator::init(Clingo::PropagateInit &init) {
     }
 
     // watch all the remaining constraints
+    auto n = static_cast<size_t>(init.number_of_threads());
     for (auto &constraint : constraints_) {
         cc.add_watch(constraint->literal());
     }
+    // watch order literals in newly added threads
+    if (solvers_.size() < n) {
+        master.add_watches(cc);
+    }
     if (!cc.commit()) {
         return;
     }
 
     // copy order literals from master to other states
-    auto n = static_cast<size_t>(init.number_of_threads());
     for (size_t i = solvers_.size(); i < n; ++i) {
         solvers_.emplace_back(config_.solver_config(i), stats_step_.solver_stats(i));
     }
diff --git a/libclingcon/src/solver.cc b/libclingcon/src/solver.cc
index 4af96e3..ccc2661 100644
--- a/libclingcon/src/solver.cc
+++ b/libclingcon/src/solver.cc
@@ -404,6 +404,17 @@ void Solver::copy_state(Solver const &master) {
     Level::copy_state(*this, master);
 }
 
+void Solver::add_watches(AbstractClauseCreator &cc) const {
+    size_t offset = 0;
+    for (auto const &olit : litmap_) {
+        if (auto lit = olit.map_lit(offset); lit != 0) {
+            cc.add_watch(lit);
+            cc.add_watch(-lit);
+        }
+        ++offset;
+    }
+}
+
 auto Solver::add_variable(val_t min_int, val_t max_int) -> var_t {
     var_t idx = var2vs_.size();
     var2vs_.emplace_back(idx, min_int, max_int);
-- 
2.43.0


From c3f7d37c4c253651262e361c3d06a35b106b7a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:27 +0000
Subject: [PATCH 13/26] fix: use signed number of constraints in statistics

---
 libclingcon/clingcon/base.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libclingcon/clingcon/base.hh b/libclingcon/clingcon/base.hh
index cc4fc8a..f8cf1a3 100644
--- a/libclingcon/clingcon/base.hh
+++ b/libclingcon/clingcon/base.hh
@@ -187,7 +187,7 @@ struct Statistics {
     double time_translate = 0;
     double time_simplify = 0;
     uint64_t num_variables = 0;
-    uint64_t num_constraints = 0;
+    int64_t num_constraints = 0;
     uint64_t num_clauses = 0;
     uint64_t num_literals = 0;
     uint64_t translate_removed = 0;
-- 
2.43.0


From daf1dcc399484318fcb6839a2cbd346619172f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:42 +0000
Subject: [PATCH 14/26] fix: do not drop the literal of a falsified distinct
 constraint from reasons

---
 libclingcon/src/constraints.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libclingcon/src/constraints.cc b/libclingcon/src/constraints.cc
index a39976c..91adbaa 100644
--- a/libclingcon/src/constraints.cc
+++ b/libclingcon/src/constraints.cc
@@ -1158,8 +1158,9 @@ class DistinctConstraintState final : public AbstractConstraintState {
         auto const &elem_j = constraint_[j];
         bool is_fact = elem_j.size() == 1;
 
+        // Note: a previously added clause might have made the literal true.
         auto lit = -constraint_.literal();
-        if (!ass.is_fixed(lit)) {
+        if (!ass.is_fixed(lit) || ass.is_true(lit)) {
             reason.emplace_back(lit);
         }
 
-- 
2.43.0


From ccb36c9480857104754b8cbe0f45712a125309ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:30 +0000
Subject: [PATCH 15/26] fix: do not drop the literal of a falsified disjoint
 constraint from reasons

---
 libclingcon/src/constraints.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libclingcon/src/constraints.cc b/libclingcon/src/constraints.cc
index 91adbaa..37c64e2 100644
--- a/libclingcon/src/constraints.cc
+++ b/libclingcon/src/constraints.cc
@@ -1682,7 +1682,8 @@ class DisjointConstraintState final : public AbstractConstraintState {
         [[nodiscard]] auto calculate_reason(val_t a, It j) -> std::vector<lit_t> & {
             auto ass = cc.assignment();
             auto &reason = solver.temp_reason();
-            if (!ass.is_fixed(clit)) {
+            // Note: a previously added clause might have made the literal false.
+            if (!ass.is_fixed(clit) || ass.is_false(clit)) {
                 reason.emplace_back(-clit);
             }
             for (auto i = begin; i != j; ++i) {
-- 
2.43.0


From 895621f081e8382fe6c83adb0ba437d667cd15af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:40 +0000
Subject: [PATCH 16/26] fix: destroy the active representation when resetting
 variable states

---
 libclingcon/clingcon/solver.hh | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/libclingcon/clingcon/solver.hh b/libclingcon/clingcon/solver.hh
index 9eeab41..1953b6c 100644
--- a/libclingcon/clingcon/solver.hh
+++ b/libclingcon/clingcon/solver.hh
@@ -266,9 +266,13 @@ class VarState {
         upper_bound_ = max_int;
         lower_bound_stack_.clear();
         upper_bound_stack_.clear();
-        litmap_.clear();
-        litvec_.clear();
-        offset_ = unused;
+        if (offset_ == unused) {
+            litmap_.clear();
+        } else {
+            litvec_.~OrderVec();
+            offset_ = unused;
+            new (&litmap_) OrderMap();
+        }
     }
 
     //! @name Functions for Lower Bounds
-- 
2.43.0


From 971a687d70a559b45665f0d9835d55dd56262049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:47 +0000
Subject: [PATCH 17/26] fix: reject nested @ in disjoint constraints

---
 libclingcon/src/parsing.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libclingcon/src/parsing.cc b/libclingcon/src/parsing.cc
index 0ac7198..89789af 100644
--- a/libclingcon/src/parsing.cc
+++ b/libclingcon/src/parsing.cc
@@ -348,7 +348,7 @@ auto evaluate(Clingo::TheoryTerm const &term) -> Clingo::Symbol {
         return throw_syntax_error<Clingo::Symbol>();
     }
 
-    check_syntax(!match(term, "..", 2));
+    check_syntax(!match(term, "..", 2) && !match(term, "@", 2));
 
     if (term.type() == Clingo::TheoryTermType::Tuple || term.type() == Clingo::TheoryTermType::Function) {
         std::vector<Clingo::Symbol> args;
-- 
2.43.0


From 31cd923c2bc891f98ad90262d4086a7951925f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:47 +0000
Subject: [PATCH 18/26] fix: reject numbers as variables of domain constraints

---
 libclingcon/src/parsing.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libclingcon/src/parsing.cc b/libclingcon/src/parsing.cc
index 89789af..ecd522f 100644
--- a/libclingcon/src/parsing.cc
+++ b/libclingcon/src/parsing.cc
@@ -802,6 +802,7 @@ void parse_show(AbstractConstraintBuilder &builder, Clingo::TheoryAtom const &at
 
     check_syntax(atom.has_guard(), "Invalid Syntax: invalid dom statement");
     auto var = evaluate(atom.guard().second);
+    check_syntax(var.type() != Clingo::SymbolType::Number, "Invalid Syntax: invalid dom statement");
 
     return builder.add_dom(builder.solver_literal(atom.literal()), builder.add_variable(var), elements);
 }
-- 
2.43.0


From ddffda83ff0450b377ecded721a56050c8ac289a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:53 +0000
Subject: [PATCH 19/26] fix: do not translate constraints whose weights do not
 fit

---
 libclingcon/src/constraints.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/libclingcon/src/constraints.cc b/libclingcon/src/constraints.cc
index 37c64e2..ddfa93b 100644
--- a/libclingcon/src/constraints.cc
+++ b/libclingcon/src/constraints.cc
@@ -499,6 +499,7 @@ class SumConstraintState : public AbstractConstraintState {
         // Note: this magic number can be dangerous if there is a huge number of
         // variables.
         std::vector<Clingo::WeightedLiteral> wlits;
+        sum_t total = 0;
         for (auto [co, var] : constraint_) {
             auto &vs = solver.var_state(var);
             if (co > 0) {
@@ -507,6 +508,7 @@ class SumConstraintState : public AbstractConstraintState {
                 assert(value >= vs.lower_bound());
                 for (sum_t i = vs.lower_bound(), e = std::min<sum_t>(value + 1, vs.upper_bound()); i != e; ++i) {
                     wlits.emplace_back(-solver.get_literal(cc, vs, static_cast<val_t>(i)), co);
+                    total += co;
                 }
             } else {
                 auto diff = slack + static_cast<sum_t>(co) * vs.upper_bound();
@@ -514,10 +516,14 @@ class SumConstraintState : public AbstractConstraintState {
                 assert(value <= vs.upper_bound());
                 for (sum_t i = std::max<sum_t>(value - 1, vs.lower_bound()), e = vs.upper_bound(); i != e; ++i) {
                     wlits.emplace_back(solver.get_literal(cc, vs, static_cast<val_t>(i)), -co);
+                    total -= co;
                 }
             }
         }
-        if (std::numeric_limits<val_t>::min() < slack && slack < std::numeric_limits<val_t>::max()) {
+        // Note: The solver uses integers of the same size to sum up weights
+        // and bounds.
+        if (std::numeric_limits<val_t>::min() < slack && slack < std::numeric_limits<val_t>::max() &&
+            total <= std::numeric_limits<val_t>::max() / 2) {
             // Note: For strict constraints, we can actually use the
             // equivalence here and only add one weight constraint instead of
             // two. In the current system design, this requires storing the
-- 
2.43.0


From d0650f2d6ec8aa4fdfaa48f034d8fbe7a0dec223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:33 +0000
Subject: [PATCH 20/26] fix: avoid integer overflow when propagating disjoint
 constraints

---
 libclingcon/src/constraints.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libclingcon/src/constraints.cc b/libclingcon/src/constraints.cc
index ddfa93b..9eec42c 100644
--- a/libclingcon/src/constraints.cc
+++ b/libclingcon/src/constraints.cc
@@ -1619,7 +1619,7 @@ class DisjointConstraintState final : public AbstractConstraintState {
         val_t last_left;
         val_t last_right;
         val_t weight;
-        val_t u;
+        sum_t u;
     };
 
     enum class PropagateType { Lower, Upper };
@@ -1648,7 +1648,7 @@ class DisjointConstraintState final : public AbstractConstraintState {
 
         [[nodiscard]] static auto weight(It i) -> val_t { return i->weight; }
 
-        [[nodiscard]] static auto u(It i) -> val_t & { return i->u; }
+        [[nodiscard]] static auto u(It i) -> sum_t & { return i->u; }
 
         [[nodiscard]] static auto changed(Interval const &x) -> bool {
             return x.left != x.last_left || x.right != x.last_right;
-- 
2.43.0


From 807356f0462622f406ed940caf5e38753c5c068c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:49 +0000
Subject: [PATCH 21/26] fix: count the literals of the minimize constraint
 correctly

A variable with domain l..u requires u-l order literals. The count was
off by one per variable and could get negative, so that constraints were
translated even though translation was disabled.
---
 libclingcon/src/constraints.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libclingcon/src/constraints.cc b/libclingcon/src/constraints.cc
index 9eec42c..cac16de 100644
--- a/libclingcon/src/constraints.cc
+++ b/libclingcon/src/constraints.cc
@@ -740,7 +740,7 @@ class MinimizeConstraintState : public AbstractConstraintState {
         int64_t size = 0;
         for (auto [co, var] : constraint_) {
             auto &vs = solver.var_state(var);
-            size += static_cast<int64_t>(vs.max_bound()) - vs.min_bound() - 1;
+            size += static_cast<int64_t>(vs.max_bound()) - vs.min_bound();
         }
         return size;
     }
-- 
2.43.0


From cde4a5b9fa36d86bd488e625fdfd672aeeb70b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:27 +0000
Subject: [PATCH 22/26] fix: use current bounds when translating distinct
 constraints

The bounds of terms stemmed from a previous search when a distinct constraint
was translated in a later step.
---
 libclingcon/src/constraints.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libclingcon/src/constraints.cc b/libclingcon/src/constraints.cc
index cac16de..6f9de3b 100644
--- a/libclingcon/src/constraints.cc
+++ b/libclingcon/src/constraints.cc
@@ -850,6 +850,9 @@ class DistinctConstraintState final : public AbstractConstraintState {
     //! Translate small enough distinct constraints to weight constraints.
     [[nodiscard]] auto translate(Config const &config, Solver &solver, InitClauseCreator &cc, ConstraintVec &added)
         -> std::pair<bool, bool> override {
+        // Note: bounds might still stem from a previous search
+        update_(solver);
+
         if (!estimate_(config.distinct_limit)) {
             return {true, false};
         }
-- 
2.43.0


From fc131be774af14711552e09f22fed52f1b2fb625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:52 +0000
Subject: [PATCH 23/26] fix: keep the direction of decided weight constraints

---
 libclingcon/clingcon/base.hh | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/libclingcon/clingcon/base.hh b/libclingcon/clingcon/base.hh
index f8cf1a3..07d70a4 100644
--- a/libclingcon/clingcon/base.hh
+++ b/libclingcon/clingcon/base.hh
@@ -373,6 +373,28 @@ class InitClauseCreator final : public AbstractClauseCreator {
         clauses_ = Clause();
 
         for (auto const &[lit, wlits, bound, type] : weight_constraints_) {
+            // Note: The solver ignores the direction of an implication if the
+            // weight constraint is already decided and would fix the literal.
+            if (type != Clingo::WeightConstraintType::Equivalence) {
+                auto ass = assignment();
+                sum_t lower = 0;
+                sum_t upper = 0;
+                for (auto const &wlit : wlits) {
+                    if (ass.is_true(wlit.literal())) {
+                        lower += wlit.weight();
+                        upper += wlit.weight();
+                    } else if (!ass.is_false(wlit.literal())) {
+                        (wlit.weight() < 0 ? lower : upper) += wlit.weight();
+                    }
+                }
+                if (upper <= bound || lower > bound) {
+                    auto implied = upper <= bound ? lit : -lit;
+                    if ((implied == lit) == (type < 0) && !init_.add_clause({implied})) {
+                        return false;
+                    }
+                    continue;
+                }
+            }
             auto inv = static_cast<Clingo::WeightConstraintType>(-type);
             if (!init_.add_weight_constraint(-lit, wlits, bound + 1, inv)) {
                 return false;
-- 
2.43.0


From d18777c671556104ff6591fb26665af05205c323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:59 +0000
Subject: [PATCH 24/26] fix: propagate the upper bound of a variable if only
 its largest value violates a sum

---
 libclingcon/src/constraints.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libclingcon/src/constraints.cc b/libclingcon/src/constraints.cc
index 6f9de3b..0c6f8fd 100644
--- a/libclingcon/src/constraints.cc
+++ b/libclingcon/src/constraints.cc
@@ -212,7 +212,7 @@ template <bool tagged, typename T> class SumConstraintStateImpl final : public T
                 value_r = vs_r.lower_bound() + delta_r;
                 assert(slack - co_r * delta_r < 0 && 0 <= slack - co_r * (delta_r - 1));
                 // values above the upper bound are already true;
-                if (value_r >= vs_r.upper_bound()) {
+                if (value_r > vs_r.upper_bound()) {
                     continue;
                 }
                 // get the literal of the value;
-- 
2.43.0


From 15950547f493a47aa50c1132dbb663976adddc54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:41 +0000
Subject: [PATCH 25/26] fix: watch order literals in threads that did not take
 part in earlier steps

---
 libclingcon/clingcon/solver.hh | 6 +++---
 libclingcon/src/propagator.cc  | 5 +++--
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/libclingcon/clingcon/solver.hh b/libclingcon/clingcon/solver.hh
index 1953b6c..c60375f 100644
--- a/libclingcon/clingcon/solver.hh
+++ b/libclingcon/clingcon/solver.hh
@@ -745,9 +745,9 @@ class Solver {
 
     //! Add watches for all order literals.
     //!
-    //! This has to be called if solver threads are added between solve steps
-    //! because only threads existing at the time a literal is introduced watch
-    //! it.
+    //! This has to be called if there is more than one solver thread because
+    //! only threads taking part in the solve step in which a literal is
+    //! introduced watch it.
     void add_watches(AbstractClauseCreator &cc) const;
 
     //! Mark the number of static variables.
diff --git a/libclingcon/src/propagator.cc b/libclingcon/src/propagator.cc
index d608a1e..c69bc59 100644
--- a/libclingcon/src/propagator.cc
+++ b/libclingcon/src/propagator.cc
@@ -433,8 +433,9 @@ void Propagator::init(Clingo::PropagateInit &init) {
     for (auto &constraint : constraints_) {
         cc.add_watch(constraint->literal());
     }
-    // watch order literals in newly added threads
-    if (solvers_.size() < n) {
+    // watch order literals in additional threads, which might have been added
+    // or not have taken part in solving when the watches were added
+    if (n > 1) {
         master.add_watches(cc);
     }
     if (!cc.commit()) {
-- 
2.43.0


From 8846527b999ba96dbfb2a70e16a8af5d50e11ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:18 +0000
Subject: [PATCH 26/26] fix: rewrite theory atoms whose names are symbolic
 terms

---
 libclingcon/src/parsing.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libclingcon/src/parsing.cc b/libclingcon/src/parsing.cc
index ecd522f..8414c2a 100644
--- a/libclingcon/src/parsing.cc
+++ b/libclingcon/src/parsing.cc
@@ -73,7 +73,7 @@ using Clingcon::match;
 template <typename... CStrs> auto match(Clingo::AST::Node const &ast, CStrs... strs) -> bool {
     using namespace Clingo::AST;
     if (ast.type() == Type::SymbolicTerm) {
-        auto sym = ast.get<Clingo::Symbol>(Attribute::Term);
+        auto sym = ast.get<Clingo::Symbol>(Attribute::Symbol);
         return (sym.match(strs, 0) || ...);
     }
     if (ast.type() == Type::Function) {
@@ -147,12 +147,12 @@ auto tag_terms(Clingo::AST::Node &ast, char const *tag) -> Clingo::AST::Node {
     using namespace Clingo::AST;
     if (ast.type() == Type::SymbolicTerm) {
         auto ret = ast.copy();
-        auto term = ast.get<Clingo::Symbol>(Attribute::Term);
+        auto term = ast.get<Clingo::Symbol>(Attribute::Symbol);
         check_syntax(term.type() == Clingo::SymbolType::Function);
         std::string name{"__"};
         name += term.name();
         name += tag;
-        ast.set(Attribute::Symbol, Clingo::Function(name.c_str(), {}));
+        ret.set(Attribute::Symbol, Clingo::Function(name.c_str(), {}));
         return ret;
     }
     if (ast.type() == Type::Function) {
-- 
2.43.0

