From a78cae8ab2ee8e1cba6ff65c74c588044dd585cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:19 +0000
Subject: [PATCH 01/76] fix: BasicArray::middleRows writes rows relative to the
 extracted block

The rows were written at their index in the source array, so every call with
a start row other than 0 (and bottomRows) indexed past the result and threw.
---
 trajopt_common/include/trajopt_common/basic_array.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trajopt_common/include/trajopt_common/basic_array.hpp b/trajopt_common/include/trajopt_common/basic_array.hpp
index d2995bd..98d3e40 100644
--- a/trajopt_common/include/trajopt_common/basic_array.hpp
+++ b/trajopt_common/include/trajopt_common/basic_array.hpp
@@ -71,7 +71,7 @@ struct BasicArray
     {
       for (int j = 0; j < m_nCol; ++j)
       {
-        out(i, j) = at(i, j);
+        out(i - start, j) = at(i, j);
       }
     }
     return out;
-- 
2.43.0


From 9c36e4f9a59da6628eadd39bd7b168bd28547b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:32 +0000
Subject: [PATCH 02/76] fix: SQP solver ends with the status of a callback stop
 or repeated QP failures

solve() kept iterating after a callback asked to stop or the QP solver failed
more often than allowed, and reported a later status instead.
---
 .../trajopt_sqp/src/trust_region_sqp_solver.cpp      | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/trajopt_optimizers/trajopt_sqp/src/trust_region_sqp_solver.cpp b/trajopt_optimizers/trajopt_sqp/src/trust_region_sqp_solver.cpp
index eeccd77..bd87a33 100644
--- a/trajopt_optimizers/trajopt_sqp/src/trust_region_sqp_solver.cpp
+++ b/trajopt_optimizers/trajopt_sqp/src/trust_region_sqp_solver.cpp
@@ -123,6 +123,10 @@ void TrustRegionSQPSolver::solve(const QPProblem::Ptr& qp_problem)
         break;
     }
 
+    // A callback asked to stop or the QP solver failed too often, there is nothing left to try
+    if (status_ == SQPStatus::kStoppedByCallback || status_ == SQPStatus::kQPSolveFailed)
+      break;
+
     // Check if constraints are satisfied
     if (verifySQPSolverConvergence())
     {
@@ -246,8 +250,8 @@ bool TrustRegionSQPSolver::stepSQPSolver()
   // Trust region loop
   runTrustRegionLoop();
 
-  // Check if the NLP has converged
-  if (status_ == SQPStatus::kConverged)
+  // Check if the NLP has converged or a callback requested to stop
+  if (status_ == SQPStatus::kConverged || status_ == SQPStatus::kStoppedByCallback)
     return true;
 
   if (results_.box_size.maxCoeff() < params.min_trust_box_size)
@@ -256,7 +260,9 @@ bool TrustRegionSQPSolver::stepSQPSolver()
     status_ = SQPStatus::kConverged;
     return true;
   }
-  return false;
+
+  // The QP solver failed more often than allowed
+  return status_ == SQPStatus::kQPSolveFailed;
 }
 
 void TrustRegionSQPSolver::runTrustRegionLoop()
-- 
2.43.0


From 1af88029865f936209583a37a3dfe590b9ba5349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:32 +0000
Subject: [PATCH 03/76] fix: SQP iteration table of a problem without
 constraints

printStepInfo() took the maximum of an empty violation vector.
---
 .../trajopt_sqp/src/trust_region_sqp_solver.cpp              | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/trajopt_optimizers/trajopt_sqp/src/trust_region_sqp_solver.cpp b/trajopt_optimizers/trajopt_sqp/src/trust_region_sqp_solver.cpp
index bd87a33..888c5c0 100644
--- a/trajopt_optimizers/trajopt_sqp/src/trust_region_sqp_solver.cpp
+++ b/trajopt_optimizers/trajopt_sqp/src/trust_region_sqp_solver.cpp
@@ -567,7 +567,10 @@ void TrustRegionSQPSolver::printStepInfo() const
 
   // Constraint
   const std::string constraints_satisfied =
-      (results_.new_constraint_violations.maxCoeff() < params.cnt_tolerance) ? "True" : "False";
+      (results_.new_constraint_violations.size() == 0 ||
+       results_.new_constraint_violations.maxCoeff() < params.cnt_tolerance) ?
+          "True" :
+          "False";
   std::printf("| %s |\n", std::string(88, '=').c_str());
   std::printf("| %10s | %10.3e | %10.3e | %10.3e | %10s | %10s | %10s | SUM CONSTRAINTS (WITHOUT MERIT), Satisfied "
               "(%s)\n",
-- 
2.43.0


From e16be625377e2f1ef700f5cbf7d3fca6927f559f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:58 +0000
Subject: [PATCH 04/76] fix: TrajOptQPProblem prices slacks with the current
 coefficients of a fixed-size term

---
 trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp b/trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp
index 8d88f0b..a3c5945 100644
--- a/trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp
+++ b/trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp
@@ -743,11 +743,14 @@ void TrajOptQPProblem::Implementation::convexify()
   Eigen::Index merit_constraint_index{ 0 };
   for (std::size_t i = 0; i < constraint_terms.size(); ++i)
   {
-    const auto& info = cvp.constraint_term_infos[i].get();
+    auto& info = cvp.constraint_term_infos[i].get();
     const auto& cnt = constraint_terms[i];
     if (info.rows == 0)
       continue;
 
+    // The coefficients may depend on the variables even if the number of rows does not
+    info.coeffs = cnt->getCoefficients();
+
     // Linearize Constraints
     const trajopt_ifopt::Jacobian jac = cnt->getJacobian();
 
-- 
2.43.0


From 9b29568dc21bcad2a6af595ab3eba206e2e4a357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:58 +0000
Subject: [PATCH 05/76] fix: constraint without rows takes no merit coefficient
 from the next one

---
 trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp b/trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp
index a3c5945..40f5c7b 100644
--- a/trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp
+++ b/trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp
@@ -746,7 +746,12 @@ void TrajOptQPProblem::Implementation::convexify()
     auto& info = cvp.constraint_term_infos[i].get();
     const auto& cnt = constraint_terms[i];
     if (info.rows == 0)
+    {
+      // Keep the merit coefficients aligned with the constraints
+      if (info.type == ComponentInfoType::kMeritConstraint)
+        ++merit_constraint_index;
       continue;
+    }
 
     // The coefficients may depend on the variables even if the number of rows does not
     info.coeffs = cnt->getCoefficients();
-- 
2.43.0


From 7099d27e0e43570be74006bed1ea5d4a08969851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:58 +0000
Subject: [PATCH 06/76] fix: TrajOptQPProblem::setup can be repeated

---
 trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp b/trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp
index 40f5c7b..69e0f36 100644
--- a/trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp
+++ b/trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp
@@ -691,7 +691,8 @@ void TrajOptQPProblem::Implementation::setup()
     var_bounds_upper[i] = b.getUpper();
   }
 
-  // Update
+  // Update (the infos were rebuilt above so a repeated setup must fill all of them)
+  initialized = false;
   update();
 
   initialized = true;
-- 
2.43.0


From 16394b80bf0b70bb7cb131685f5683005b99bca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:31 +0000
Subject: [PATCH 07/76] fix: hinge and absolute costs are evaluated with their
 coefficients and without the slack variables

---
 .../trajopt_sqp/src/trajopt_qp_problem.cpp           | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp b/trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp
index 69e0f36..e5995ce 100644
--- a/trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp
+++ b/trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp
@@ -130,7 +130,7 @@ struct ConvexProblem
 
 Eigen::VectorXd ConvexProblem::evaluateConvexCosts(const Eigen::Ref<const Eigen::VectorXd>& var_vals) const
 {
-  /** @note The legacy trajop appears to use all variables include slack for convex cost evaluation */
+  /** @note The slack variables are not used for the convex evaluation, they absorb the violation being measured */
   const auto total_cost = static_cast<Eigen::Index>(objective_term_infos.size() + penalty_constraint_infos.size());
 
   if (total_cost == 0)
@@ -172,7 +172,7 @@ Eigen::VectorXd ConvexProblem::evaluateConvexCosts(const Eigen::Ref<const Eigen:
       continue;
     }
 
-    auto jac = constraint_matrix.middleRows(row_offset, c_info.rows);
+    auto jac = constraint_matrix.middleRows(row_offset, c_info.rows).leftCols(n_nlp_vars);
     auto constant = constraint_constant.segment(row_offset, c_info.rows);
 
     // Ensure scratch buffers big enough (no allocation after first growth)
@@ -185,13 +185,13 @@ Eigen::VectorXd ConvexProblem::evaluateConvexCosts(const Eigen::Ref<const Eigen:
     auto err = scratch_err.head(c_info.rows);
 
     // scratch_val = constant + jac * var_vals
-    val = constant;                   // copy into scratch (but no alloc)
-    val.noalias() += jac * var_vals;  // mat-vec into existing memory
+    val = constant;                    // copy into scratch (but no alloc)
+    val.noalias() += jac * var_block;  // mat-vec into existing memory
 
     // compute violations in-place
     trajopt_ifopt::calcBoundsViolations(err, val, c_info.bounds);
 
-    costs(cost_idx++) = err.sum();
+    costs(cost_idx++) = err.dot(c_info.coeffs);
     assert(!(err.array() < -1e-8).any());
     row_offset += c_info.rows;
   }
@@ -1022,7 +1022,7 @@ Eigen::VectorXd TrajOptQPProblem::Implementation::getExactCosts() const
     auto err = scratch_err.head(c->getRows());
 
     trajopt_ifopt::calcBoundsViolations(err, c->getValues(), c->getBounds());
-    g(cost_idx++) = err.sum();
+    g(cost_idx++) = err.dot(c->getCoefficients());
   }
 
   return g;
-- 
2.43.0


From b1fcfb97d83e212887462dbd47eacf37ac115902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:31 +0000
Subject: [PATCH 08/76] fix: convex cost evaluation when no squared cost has
 rows

---
 trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp b/trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp
index e5995ce..9a40298 100644
--- a/trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp
+++ b/trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp
@@ -152,7 +152,8 @@ Eigen::VectorXd ConvexProblem::evaluateConvexCosts(const Eigen::Ref<const Eigen:
       scratch_val.resize(n_objective_terms);
 
     auto sq_costs = scratch_val.head(n_objective_terms);
-    squared_objective_nlp.values(sq_costs, var_block);
+    if (n_objective_terms > 0)  // convexify() leaves the expressions untouched if no squared cost has rows
+      squared_objective_nlp.values(sq_costs, var_block);
 
     assert(!(sq_costs.array() < -1e-8).any());
     for (const auto& c_info : objective_term_infos)
-- 
2.43.0


From 957eb2694e9f4c155fb0f7d182cdd0a06643b44a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:12 +0000
Subject: [PATCH 09/76] fix: IfoptQPProblem::setup does not accumulate names

---
 trajopt_optimizers/trajopt_sqp/src/ifopt_qp_problem.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/trajopt_optimizers/trajopt_sqp/src/ifopt_qp_problem.cpp b/trajopt_optimizers/trajopt_sqp/src/ifopt_qp_problem.cpp
index 9adb993..0f2c751 100644
--- a/trajopt_optimizers/trajopt_sqp/src/ifopt_qp_problem.cpp
+++ b/trajopt_optimizers/trajopt_sqp/src/ifopt_qp_problem.cpp
@@ -94,6 +94,8 @@ void IfoptQPProblem::setup()
   constraint_types_.resize(static_cast<std::size_t>(num_nlp_cnts_));
 
   // Get NLP Cost and Constraint Names for Debug Print
+  constraint_names_.clear();
+  cost_names_.clear();
   for (const auto& cnt : nlp_->getConstraints().getComponents())
   {
     for (Eigen::Index j = 0; j < cnt->getRows(); j++)
-- 
2.43.0


From 4631e05a6cf456d4fc00a687e868e4c30d5fe93e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:12 +0000
Subject: [PATCH 10/76] fix: Problem evaluates the sum of all cost terms, not
 only the first

---
 trajopt_ifopt/src/core/problem.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/trajopt_ifopt/src/core/problem.cpp b/trajopt_ifopt/src/core/problem.cpp
index d73ae7c..815a1a7 100644
--- a/trajopt_ifopt/src/core/problem.cpp
+++ b/trajopt_ifopt/src/core/problem.cpp
@@ -68,11 +68,8 @@ void Problem::setVariables(const double* x)
 
 double Problem::evaluateCostFunction()
 {
-  Eigen::VectorXd g = Eigen::VectorXd::Zero(1);
-  if (hasCostTerms())
-    g = costs_.getValues();
-
-  return g(0);
+  // each cost term is one row
+  return hasCostTerms() ? costs_.getValues().sum() : 0.0;
 }
 
 Eigen::VectorXd Problem::evaluateCostFunctionGradient(bool use_finite_difference_approximation, double epsilon)
@@ -101,11 +98,12 @@ Eigen::VectorXd Problem::evaluateCostFunctionGradient(bool use_finite_difference
     }
     else
     {
+      // each cost term is one row
       jac = costs_.getJacobian();
     }
   }
 
-  return jac.row(0).transpose();
+  return jac.transpose() * Eigen::VectorXd::Ones(jac.rows());
 }
 
 std::vector<Bounds> Problem::getBoundsOnConstraints() const { return constraints_.getBounds(); }
-- 
2.43.0


From 0f6e47f53064a8feea978c7346716a3f14a52a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:33 +0000
Subject: [PATCH 11/76] fix: IfoptQPProblem exact costs use the weights of the
 QP objective

---
 trajopt_optimizers/trajopt_sqp/src/ifopt_qp_problem.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/trajopt_optimizers/trajopt_sqp/src/ifopt_qp_problem.cpp b/trajopt_optimizers/trajopt_sqp/src/ifopt_qp_problem.cpp
index 0f2c751..2774bcb 100644
--- a/trajopt_optimizers/trajopt_sqp/src/ifopt_qp_problem.cpp
+++ b/trajopt_optimizers/trajopt_sqp/src/ifopt_qp_problem.cpp
@@ -62,13 +62,15 @@ void IfoptQPProblem::addCostSet(std::shared_ptr<trajopt_ifopt::ConstraintSet> co
   {
     case CostPenaltyType::kSquared:
     {
-      auto cost = std::make_shared<trajopt_ifopt::SquaredCost>(constraint_set);
+      auto cost =
+          std::make_shared<trajopt_ifopt::SquaredCost>(constraint_set, constraint_set->getCoefficients());
       nlp_->addCostSet(std::move(cost));
       break;
     }
     case CostPenaltyType::kAbsolute:
     {
-      auto cost = std::make_shared<trajopt_ifopt::AbsoluteCost>(constraint_set);
+      auto cost =
+          std::make_shared<trajopt_ifopt::AbsoluteCost>(constraint_set, constraint_set->getCoefficients());
       nlp_->addCostSet(std::move(cost));
       break;
     }
-- 
2.43.0


From 54615cc4ba192146b5e80a491332b8ecc64c3448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:21 +0000
Subject: [PATCH 12/76] fix: a cost refused by IfoptQPProblem does not enter
 the QP objective

---
 trajopt_optimizers/trajopt_sqp/src/ifopt_qp_problem.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trajopt_optimizers/trajopt_sqp/src/ifopt_qp_problem.cpp b/trajopt_optimizers/trajopt_sqp/src/ifopt_qp_problem.cpp
index 2774bcb..18530ad 100644
--- a/trajopt_optimizers/trajopt_sqp/src/ifopt_qp_problem.cpp
+++ b/trajopt_optimizers/trajopt_sqp/src/ifopt_qp_problem.cpp
@@ -56,7 +56,6 @@ void IfoptQPProblem::addCostSet(std::shared_ptr<trajopt_ifopt::ConstraintSet> co
   // Save raw constraint for Hessian/gradient computation (SquaredCost wraps it
   // but doesn't expose the raw Jacobian needed for the Gauss-Newton Hessian)
   constraint_set->linkWithVariables(nlp_->getOptVariables());
-  cost_constraints_.push_back(constraint_set);
 
   switch (penalty_type)
   {
@@ -77,6 +76,8 @@ void IfoptQPProblem::addCostSet(std::shared_ptr<trajopt_ifopt::ConstraintSet> co
     default:
       throw std::runtime_error("IfoptQPProblem: Unsupported cost penalty type!");
   }
+
+  cost_constraints_.push_back(std::move(constraint_set));
 }
 
 void IfoptQPProblem::setup()
-- 
2.43.0


From 627ba26a866558cdb3450c419b190ba1b70d84ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:36 +0000
Subject: [PATCH 13/76] fix: IfoptQPProblem evaluates each convex cost with its
 own model

---
 .../include/trajopt_sqp/ifopt_qp_problem.h    |  4 ++
 .../trajopt_sqp/src/ifopt_qp_problem.cpp      | 40 ++++++++++++-------
 2 files changed, 30 insertions(+), 14 deletions(-)

diff --git a/trajopt_optimizers/trajopt_sqp/include/trajopt_sqp/ifopt_qp_problem.h b/trajopt_optimizers/trajopt_sqp/include/trajopt_sqp/ifopt_qp_problem.h
index f7a12e6..49f20c5 100644
--- a/trajopt_optimizers/trajopt_sqp/include/trajopt_sqp/ifopt_qp_problem.h
+++ b/trajopt_optimizers/trajopt_sqp/include/trajopt_sqp/ifopt_qp_problem.h
@@ -118,6 +118,10 @@ protected:
   /** @brief Raw constraint sets underlying each SquaredCost, saved for Hessian/gradient computation */
   std::vector<std::shared_ptr<trajopt_ifopt::ConstraintSet>> cost_constraints_;
 
+  /** @brief Quadratic model of each cost in cost_constraints_, their sum is the QP objective */
+  std::vector<trajopt_ifopt::Jacobian> cost_hessians_;
+  std::vector<Eigen::VectorXd> cost_gradients_;
+
   trajopt_ifopt::Jacobian constraint_matrix_;
   Eigen::VectorXd bounds_lower_;
   Eigen::VectorXd bounds_upper_;
diff --git a/trajopt_optimizers/trajopt_sqp/src/ifopt_qp_problem.cpp b/trajopt_optimizers/trajopt_sqp/src/ifopt_qp_problem.cpp
index 18530ad..1950ba1 100644
--- a/trajopt_optimizers/trajopt_sqp/src/ifopt_qp_problem.cpp
+++ b/trajopt_optimizers/trajopt_sqp/src/ifopt_qp_problem.cpp
@@ -184,6 +184,7 @@ void IfoptQPProblem::updateHessian()
   ////////////////////////////////////////////////////////
   hessian_.resize(num_qp_vars_, num_qp_vars_);
   hessian_.setZero();
+  cost_hessians_.assign(cost_constraints_.size(), trajopt_ifopt::Jacobian(num_nlp_vars_, num_nlp_vars_));
 
   if (cost_constraints_.empty())
     return;
@@ -192,8 +193,9 @@ void IfoptQPProblem::updateHessian()
   trajopt_ifopt::Jacobian H_nlp(num_nlp_vars_, num_nlp_vars_);
 
   bool first = true;
-  for (const auto& c : cost_constraints_)
+  for (std::size_t i = 0; i < cost_constraints_.size(); ++i)
   {
+    const auto& c = cost_constraints_[i];
     const trajopt_ifopt::Jacobian J = c->getJacobian();  // m_i × n
     const Eigen::VectorXd w = c->getCoefficients();      // m_i weights
 
@@ -210,7 +212,8 @@ void IfoptQPProblem::updateHessian()
     }
 
     // Evaluate product into row-major temp (Eigen requires matching storage order for +=)
-    trajopt_ifopt::Jacobian JtWJ = Jw.transpose() * Jw;
+    trajopt_ifopt::Jacobian& JtWJ = cost_hessians_[i];
+    JtWJ = Jw.transpose() * Jw;
     if (first)
     {
       H_nlp = JtWJ;
@@ -264,9 +267,11 @@ void IfoptQPProblem::updateGradient()
   //   q = 2 * J^T W e  -  2 * (J^T W J) * x0
   ////////////////////////////////////////////////////////
   gradient_ = Eigen::VectorXd::Zero(num_qp_vars_);
+  cost_gradients_.assign(cost_constraints_.size(), Eigen::VectorXd::Zero(num_nlp_vars_));
 
-  for (const auto& c : cost_constraints_)
+  for (std::size_t i = 0; i < cost_constraints_.size(); ++i)
   {
+    const auto& c = cost_constraints_[i];
     const trajopt_ifopt::Jacobian J = c->getJacobian();  // m × n
     const Eigen::VectorXd w = c->getCoefficients();      // m weights
 
@@ -279,7 +284,9 @@ void IfoptQPProblem::updateGradient()
 
     // g += 2 * J^T * diag(w) * e
     Eigen::VectorXd we = (w.array() * errors.array()).matrix();  // w .* e
-    gradient_.head(num_nlp_vars_) += 2.0 * (J.transpose() * we);
+    cost_gradients_[i] = 2.0 * (J.transpose() * we);
+    gradient_.head(num_nlp_vars_) += cost_gradients_[i];
+    cost_gradients_[i] -= 2.0 * (cost_hessians_[i] * nlp_->getVariableValues());
   }
 
   // Hessian correction: q = g - 2 * H * x0
@@ -389,19 +396,20 @@ void IfoptQPProblem::updateCostsConstantExpression()
   // When convexifying the function it need to produce the same cost values at the values used to calculate
   // the Jacobian and Hessian, so f(x_initial) = a + b * x + c * x^2 = cost_initial_value.
   // Therefore a = cost_initial_value - b * x - c * x^2
-  //     where: b = gradient_
-  //            c = hessian_
+  //     where: b = cost_gradients_ of the cost
+  //            c = cost_hessians_ of the cost
   //            x = x_initial
   //            a = quadratic constant (cost_constant_)
   //
   // Note: This is not used by the QP solver directly but by the Trust Regions Solver
   //       to calculate the merit of the solve.
 
-  // The block excludes the slack variables
-  /** @todo I am not sure this is correct because the gradient_ is not each individual cost function gradient */
-  const double result_quad = x_initial.transpose() * hessian_.block(0, 0, num_nlp_vars_, num_nlp_vars_) * x_initial;
-  const double result_lin = x_initial.dot(gradient_.head(num_nlp_vars_));
-  cost_constant_ = cost_initial_value.array() - result_quad - result_lin;
+  // Costs which were not added through addCostSet are not part of the QP and therefore constant
+  cost_constant_ = cost_initial_value;
+  const auto offset = num_nlp_costs_ - static_cast<Eigen::Index>(cost_constraints_.size());
+  for (std::size_t i = 0; i < cost_constraints_.size(); ++i)
+    cost_constant_(offset + static_cast<Eigen::Index>(i)) -=
+        x_initial.dot(cost_hessians_[i] * x_initial) + x_initial.dot(cost_gradients_[i]);
 }
 
 void IfoptQPProblem::updateConstraintsConstantExpression()
@@ -522,9 +530,13 @@ Eigen::VectorXd IfoptQPProblem::evaluateConvexCosts(const Eigen::Ref<const Eigen
     return {};
 
   auto var_block = var_vals.head(num_nlp_vars_);
-  const double result_quad = var_block.transpose() * hessian_.block(0, 0, num_nlp_vars_, num_nlp_vars_) * var_block;
-  const double result_lin = var_block.dot(gradient_.head(num_nlp_vars_));
-  return cost_constant_.array() + result_lin + result_quad;
+  Eigen::VectorXd costs = cost_constant_;
+  const auto offset = num_nlp_costs_ - static_cast<Eigen::Index>(cost_constraints_.size());
+  for (std::size_t i = 0; i < cost_constraints_.size(); ++i)
+    costs(offset + static_cast<Eigen::Index>(i)) +=
+        var_block.dot(cost_hessians_[i] * var_block) + var_block.dot(cost_gradients_[i]);
+
+  return costs;
 }
 
 double IfoptQPProblem::getTotalExactCost() const { return nlp_->evaluateCostFunction(); }
-- 
2.43.0


From 15685d3fb3a7741522c3cbbf6ffe6170d130173e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:13 +0000
Subject: [PATCH 14/76] fix: QuadExprs::create keeps the linear part of
 expressions without Hessian

---
 trajopt_optimizers/trajopt_sqp/src/expressions.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/trajopt_optimizers/trajopt_sqp/src/expressions.cpp b/trajopt_optimizers/trajopt_sqp/src/expressions.cpp
index bb59d1b..12a1233 100644
--- a/trajopt_optimizers/trajopt_sqp/src/expressions.cpp
+++ b/trajopt_optimizers/trajopt_sqp/src/expressions.cpp
@@ -181,8 +181,7 @@ void QuadExprs::create(const Eigen::Ref<const Eigen::VectorXd>& func_errors,
   assert(static_cast<Eigen::Index>(func_hessians.size()) == m);
   assert(x.size() == n);
 
-  linear_coeffs.resize(m, n);
-  linear_coeffs.setZero();  // keep existing behavior: rows with no Hessian stay zero
+  linear_coeffs = func_jacobian;  // rows with no Hessian are affine
 
   // constants = f(x₀) − J(x₀) x₀
   constants.resize(m);
-- 
2.43.0


From 90ad7cca645999c635fdf862f9783a632b733640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:13 +0000
Subject: [PATCH 15/76] fix: quadratic expressions of a single variable

---
 trajopt_optimizers/trajopt_sqp/src/expressions.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/trajopt_optimizers/trajopt_sqp/src/expressions.cpp b/trajopt_optimizers/trajopt_sqp/src/expressions.cpp
index 12a1233..5154905 100644
--- a/trajopt_optimizers/trajopt_sqp/src/expressions.cpp
+++ b/trajopt_optimizers/trajopt_sqp/src/expressions.cpp
@@ -96,8 +96,9 @@ void AffExprs::square(QuadExprs& quad_expr, const Eigen::Ref<const Eigen::Vector
     scratch_qi_trips_.clear();
 
     // Iterate Bw row i (RowMajor outer index is the row)
+    // With a single variable a 1×1 entry is the general quadratic, see QuadExprs::values
     for (trajopt_ifopt::Jacobian::InnerIterator it(scratch_bw_, static_cast<int>(i)); it; ++it)
-      scratch_qi_trips_.emplace_back(0, it.col(), it.value());
+      scratch_qi_trips_.emplace_back(0, it.col(), n == 1 ? it.value() * it.value() : it.value());
 
     if (scratch_qi_trips_.empty())
     {
@@ -134,7 +135,7 @@ void QuadExprs::values(Eigen::Ref<Eigen::VectorXd> out, const Eigen::Ref<const E
 
   // We support two representations:
   //  1) General quadratic: Q_i is n×n -> add x^T Q_i x
-  //  2) Squared-affine fast path: Q_i is 1×n row vector q_i -> add (q_i * x)^2
+  //  2) Squared-affine fast path: Q_i is 1×n row vector q_i, n > 1 -> add (q_i * x)^2
   //
   // Only allocate scratch_ if/when we hit the general quadratic path.
   bool scratch_ready = false;
@@ -145,7 +146,7 @@ void QuadExprs::values(Eigen::Ref<Eigen::VectorXd> out, const Eigen::Ref<const E
     if (Q.rows() == 0)
       continue;
 
-    if (Q.rows() == 1)
+    if (Q.rows() == 1 && Q.cols() > 1)
     {
       // Encoded q_i (1×n): add (q_i * x)^2
       double t = 0.0;
-- 
2.43.0


From 7da5ac6480ff6884678c5c8543e69e3787359133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:33 +0000
Subject: [PATCH 16/76] fix: restoring a saved iterate updates the constraints
 and costs of the problem

---
 trajopt_ifopt/src/core/problem.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trajopt_ifopt/src/core/problem.cpp b/trajopt_ifopt/src/core/problem.cpp
index 815a1a7..bb3bc11 100644
--- a/trajopt_ifopt/src/core/problem.cpp
+++ b/trajopt_ifopt/src/core/problem.cpp
@@ -130,11 +130,11 @@ void Problem::saveCurrent() { x_prev.push_back(variables_->getValues()); }
 
 Variables::Ptr Problem::getOptVariables() const { return variables_; }
 
-void Problem::setOptVariables(int iter) { variables_->setVariables(x_prev.at(static_cast<std::size_t>(iter))); }
+void Problem::setOptVariables(int iter) { setVariables(x_prev.at(static_cast<std::size_t>(iter)).data()); }
 
 void Problem::setOptVariablesFinal()
 {
-  variables_->setVariables(x_prev.at(static_cast<std::size_t>(getIterationCount() - 1)));
+  setVariables(x_prev.at(static_cast<std::size_t>(getIterationCount() - 1)).data());
 }
 
 void Problem::printCurrent() const
-- 
2.43.0


From 38aa20274a72f3ec3da85c51d96b5f283ac7f5c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:33 +0000
Subject: [PATCH 17/76] fix: usable default step of the finite difference cost
 gradient

---
 trajopt_ifopt/include/trajopt_ifopt/core/problem.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/trajopt_ifopt/include/trajopt_ifopt/core/problem.h b/trajopt_ifopt/include/trajopt_ifopt/core/problem.h
index dbbab4a..1d8d458 100644
--- a/trajopt_ifopt/include/trajopt_ifopt/core/problem.h
+++ b/trajopt_ifopt/include/trajopt_ifopt/core/problem.h
@@ -156,11 +156,12 @@ public:
 
   /**
    * @brief The column-vector of derivatives of the cost w.r.t. each variable.
-   * @details ipopt uses 10e-8 for their derivative check, but setting here to more precise
+   * @details The default step is the one ipopt uses for its derivative check, a step near machine precision
+   * vanishes when it is added to a variable
    * https://coin-or.github.io/Ipopt/OPTIONS.html#OPT_derivative_test_perturbation
    */
   Eigen::VectorXd evaluateCostFunctionGradient(bool use_finite_difference_approximation = false,
-                                               double epsilon = std::numeric_limits<double>::epsilon());
+                                               double epsilon = 1e-7);
 
   /**
    * @brief The number of individual constraints.
-- 
2.43.0


From 5d2e7fd90d724807de1531f6d52a33031417003e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:30 +0000
Subject: [PATCH 18/76] fix: fixed-size composites report their number of
 non-zeros

---
 trajopt_ifopt/src/core/composite.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/trajopt_ifopt/src/core/composite.cpp b/trajopt_ifopt/src/core/composite.cpp
index a249331..3e83480 100644
--- a/trajopt_ifopt/src/core/composite.cpp
+++ b/trajopt_ifopt/src/core/composite.cpp
@@ -81,11 +81,9 @@ int CompositeDifferentiable::update()
     assert(c->getNonZeros() >= 0);
   }
 
+  non_zeros_ = non_zeros;
   if (dynamic_)
-  {
     rows_ = rows;
-    non_zeros_ = non_zeros;
-  }
 
   assert(rows_ == rows);
   return rows_;
-- 
2.43.0


From dc1156524df712fb9363d7a04f372086db8c5bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:12 +0000
Subject: [PATCH 19/76] fix: split joint position bounds use the expanded
 coefficients

---
 trajopt_ifopt/src/constraints/joint_position_constraint.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/trajopt_ifopt/src/constraints/joint_position_constraint.cpp b/trajopt_ifopt/src/constraints/joint_position_constraint.cpp
index af72551..3f120fe 100644
--- a/trajopt_ifopt/src/constraints/joint_position_constraint.cpp
+++ b/trajopt_ifopt/src/constraints/joint_position_constraint.cpp
@@ -126,14 +126,14 @@ JointPosConstraint::JointPosConstraint(const std::vector<Bounds>& bounds,
         bounds_.emplace_back(-double(INFINITY), b.getUpper());
         split_indices.push_back(indices_[i]);
         split_indices.push_back(indices_[i]);
-        split_coeffs.emplace_back(coeffs[static_cast<Eigen::Index>(i)]);
-        split_coeffs.emplace_back(coeffs[static_cast<Eigen::Index>(i)]);
+        split_coeffs.emplace_back(coeffs_[static_cast<Eigen::Index>(i)]);
+        split_coeffs.emplace_back(coeffs_[static_cast<Eigen::Index>(i)]);
       }
       else
       {
         bounds_.push_back(b);
         split_indices.push_back(indices_[i]);
-        split_coeffs.emplace_back(coeffs[static_cast<Eigen::Index>(i)]);
+        split_coeffs.emplace_back(coeffs_[static_cast<Eigen::Index>(i)]);
       }
     }
 
-- 
2.43.0


From 9ce9d04e3c8638bacb0ba966354b1a9d9b00a50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:59 +0000
Subject: [PATCH 20/76] fix: NodesObserver can be constructed

---
 .../trajopt_ifopt/variable_sets/nodes_observer.h       |  3 ++-
 trajopt_ifopt/src/variable_sets/nodes_observer.cpp     | 10 +++++-----
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/trajopt_ifopt/include/trajopt_ifopt/variable_sets/nodes_observer.h b/trajopt_ifopt/include/trajopt_ifopt/variable_sets/nodes_observer.h
index 64fd7b8..c10df42 100644
--- a/trajopt_ifopt/include/trajopt_ifopt/variable_sets/nodes_observer.h
+++ b/trajopt_ifopt/include/trajopt_ifopt/variable_sets/nodes_observer.h
@@ -51,8 +51,9 @@ class NodesObserver : public std::enable_shared_from_this<NodesObserver>
 {
 public:
   /**
-   * @brief Registers this observer with the subject class to receive updates.
+   * @brief Creates an observer of the given subject.
    * @param subject  The subject holding the Hermite node values.
+   * @note To receive updates the created observer must be passed to NodesVariables::addObserver().
    */
   NodesObserver(std::weak_ptr<NodesVariables> subject);
   virtual ~NodesObserver() = default;
diff --git a/trajopt_ifopt/src/variable_sets/nodes_observer.cpp b/trajopt_ifopt/src/variable_sets/nodes_observer.cpp
index c589a07..966ed47 100644
--- a/trajopt_ifopt/src/variable_sets/nodes_observer.cpp
+++ b/trajopt_ifopt/src/variable_sets/nodes_observer.cpp
@@ -30,14 +30,14 @@ OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 #include <trajopt_ifopt/variable_sets/nodes_observer.h>
 #include <trajopt_ifopt/variable_sets/nodes_variables.h>
 
+#include <stdexcept>
+
 namespace trajopt_ifopt
 {
 NodesObserver::NodesObserver(std::weak_ptr<NodesVariables> subject) : subject_(std::move(subject))
 {
-  auto subject_shared = subject_.lock();  // Convert weak_ptr to shared_ptr
-  if (subject_shared)
-    subject_shared->addObserver(shared_from_this());  // register observer to subject so this class always up-to-date
-  else                                                // Handle the case where the weak_ptr is expired
-    throw std::runtime_error("Failed to lock weak_ptr; the object might have been destroyed.");
+  // An observer is not owned by a shared pointer before its constructor has returned, so it cannot be registered here.
+  if (subject_.expired())
+    throw std::runtime_error("NodesObserver, the subject does not exist; the object might have been destroyed.");
 }
 }  // namespace trajopt_ifopt
-- 
2.43.0


From 9bef969eaa72f110408245d6f0eae5c01a9272c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:22:58 +0000
Subject: [PATCH 21/76] fix: unused rows of the collision constraints keep no
 coefficient of an earlier contact

---
 .../constraints/collision/continuous_collision_constraint.cpp   | 2 ++
 .../collision/continuous_collision_numerical_constraint.cpp     | 2 ++
 .../src/constraints/collision/discrete_collision_constraint.cpp | 2 ++
 .../collision/discrete_collision_numerical_constraint.cpp       | 2 ++
 4 files changed, 8 insertions(+)

diff --git a/trajopt_ifopt/src/constraints/collision/continuous_collision_constraint.cpp b/trajopt_ifopt/src/constraints/collision/continuous_collision_constraint.cpp
index 8303d7f..e18955c 100644
--- a/trajopt_ifopt/src/constraints/collision/continuous_collision_constraint.cpp
+++ b/trajopt_ifopt/src/constraints/collision/continuous_collision_constraint.cpp
@@ -98,6 +98,8 @@ int ContinuousCollisionConstraint::update()
   const auto cnt = std::min<std::size_t>(bounds_.size(), collision_data_->gradient_results_sets.size());
   for (std::size_t i = 0; i < cnt; ++i)
     coeffs_(static_cast<Eigen::Index>(i)) = collision_data_->gradient_results_sets[i].coeff;
+  // Unused rows keep no coefficient of an earlier contact
+  coeffs_.tail(coeffs_.size() - static_cast<Eigen::Index>(cnt)).setOnes();
 
   std::call_once(init_flag_, &ContinuousCollisionConstraint::init, this);
 
diff --git a/trajopt_ifopt/src/constraints/collision/continuous_collision_numerical_constraint.cpp b/trajopt_ifopt/src/constraints/collision/continuous_collision_numerical_constraint.cpp
index 3bad743..088d380 100644
--- a/trajopt_ifopt/src/constraints/collision/continuous_collision_numerical_constraint.cpp
+++ b/trajopt_ifopt/src/constraints/collision/continuous_collision_numerical_constraint.cpp
@@ -109,6 +109,8 @@ int ContinuousCollisionNumericalConstraint::update()
   const auto cnt = std::min<std::size_t>(bounds_.size(), collision_data_->gradient_results_sets.size());
   for (std::size_t i = 0; i < cnt; ++i)
     coeffs_(static_cast<Eigen::Index>(i)) = collision_data_->gradient_results_sets[i].coeff;
+  // Unused rows keep no coefficient of an earlier contact
+  coeffs_.tail(coeffs_.size() - static_cast<Eigen::Index>(cnt)).setOnes();
 
   non_zeros_ = 2 * static_cast<Eigen::Index>(rows_) * n_dof_;
   return rows_;
diff --git a/trajopt_ifopt/src/constraints/collision/discrete_collision_constraint.cpp b/trajopt_ifopt/src/constraints/collision/discrete_collision_constraint.cpp
index ff829fd..b2c10b9 100644
--- a/trajopt_ifopt/src/constraints/collision/discrete_collision_constraint.cpp
+++ b/trajopt_ifopt/src/constraints/collision/discrete_collision_constraint.cpp
@@ -81,6 +81,8 @@ int DiscreteCollisionConstraint::update()
   const auto cnt = std::min<std::size_t>(bounds_.size(), collision_data_->gradient_results_sets.size());
   for (std::size_t i = 0; i < cnt; ++i)
     coeffs_(static_cast<Eigen::Index>(i)) = collision_data_->gradient_results_sets[i].coeff;
+  // Unused rows keep no coefficient of an earlier contact
+  coeffs_.tail(coeffs_.size() - static_cast<Eigen::Index>(cnt)).setOnes();
 
   std::call_once(init_flag_, &DiscreteCollisionConstraint::init, this);
 
diff --git a/trajopt_ifopt/src/constraints/collision/discrete_collision_numerical_constraint.cpp b/trajopt_ifopt/src/constraints/collision/discrete_collision_numerical_constraint.cpp
index 367b736..0adf53c 100644
--- a/trajopt_ifopt/src/constraints/collision/discrete_collision_numerical_constraint.cpp
+++ b/trajopt_ifopt/src/constraints/collision/discrete_collision_numerical_constraint.cpp
@@ -79,6 +79,8 @@ int DiscreteCollisionNumericalConstraint::update()
   const auto cnt = std::min<std::size_t>(bounds_.size(), collision_data_->gradient_results_sets.size());
   for (std::size_t i = 0; i < cnt; ++i)
     coeffs_(static_cast<Eigen::Index>(i)) = collision_data_->gradient_results_sets[i].coeff;
+  // Unused rows keep no coefficient of an earlier contact
+  coeffs_.tail(coeffs_.size() - static_cast<Eigen::Index>(cnt)).setOnes();
 
   // Setting to zeros because snopt sparsity cannot change
   std::call_once(init_flag_, &DiscreteCollisionNumericalConstraint::init, this);
-- 
2.43.0


From ceb6ad90f608a68be03fc53016e70bc02ed4503f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:22:58 +0000
Subject: [PATCH 22/76] fix: numerical continuous collision Jacobian perturbs
 the end state as the end state

---
 .../continuous_collision_numerical_constraint.cpp      | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/trajopt_ifopt/src/constraints/collision/continuous_collision_numerical_constraint.cpp b/trajopt_ifopt/src/constraints/collision/continuous_collision_numerical_constraint.cpp
index 088d380..ee26251 100644
--- a/trajopt_ifopt/src/constraints/collision/continuous_collision_numerical_constraint.cpp
+++ b/trajopt_ifopt/src/constraints/collision/continuous_collision_numerical_constraint.cpp
@@ -173,7 +173,7 @@ Jacobian ContinuousCollisionNumericalConstraint::getJacobian() const
   const double margin_buffer = collision_evaluator_->getCollisionMarginBuffer();
 
   // Calculate collisions
-  Eigen::VectorXd joint_vals0 = position_vars_[0]->value();
+  const Eigen::VectorXd joint_vals0 = position_vars_[0]->value();
   const Eigen::VectorXd joint_vals1 = position_vars_[1]->value();
 
   trajopt_common::CollisionCacheData collision_data_delta;
@@ -185,8 +185,12 @@ Jacobian ContinuousCollisionNumericalConstraint::getJacobian() const
     for (int j = 0; j < n_dof_; j++)
     {
       jv(j) += delta;
-      collision_evaluator_->calcCollisionData(
-          collision_data_delta, jv, joint_vals1, vars0_fixed_, vars1_fixed_, bounds_.size());
+      collision_evaluator_->calcCollisionData(collision_data_delta,
+                                              p == 0 ? jv : joint_vals0,
+                                              p == 0 ? joint_vals1 : jv,
+                                              vars0_fixed_,
+                                              vars1_fixed_,
+                                              bounds_.size());
 
       for (int i = 0; i < static_cast<int>(cnt); ++i)
       {
-- 
2.43.0


From 7106655e15594f1d50284982c79578a1ea4c28b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:22:58 +0000
Subject: [PATCH 23/76] fix: discrete collision contacts are ordered by the
 larger error of the two links

---
 .../src/constraints/collision/discrete_collision_evaluators.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trajopt_ifopt/src/constraints/collision/discrete_collision_evaluators.cpp b/trajopt_ifopt/src/constraints/collision/discrete_collision_evaluators.cpp
index 4d80d56..6674523 100644
--- a/trajopt_ifopt/src/constraints/collision/discrete_collision_evaluators.cpp
+++ b/trajopt_ifopt/src/constraints/collision/discrete_collision_evaluators.cpp
@@ -142,7 +142,7 @@ void SingleTimestepCollisionEvaluator::calcCollisions(trajopt_common::CollisionC
     std::sort(collision_data.gradient_results_sets.begin(),
               collision_data.gradient_results_sets.end(),
               [](const trajopt_common::GradientResultsSet& a, const trajopt_common::GradientResultsSet& b) {
-                return a.max_error[0].error > b.max_error[0].error;
+                return a.getMaxErrorT0() > b.getMaxErrorT0();
               });
   }
 }
-- 
2.43.0


From c266b876d0dec3896521a1031c7f8ff5f0249025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:57 +0000
Subject: [PATCH 24/76] fix: an expression can be added to itself in place

---
 trajopt_sco/include/trajopt_sco/expr_ops.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/trajopt_sco/include/trajopt_sco/expr_ops.hpp b/trajopt_sco/include/trajopt_sco/expr_ops.hpp
index cf30c5f..8e7dde5 100644
--- a/trajopt_sco/include/trajopt_sco/expr_ops.hpp
+++ b/trajopt_sco/include/trajopt_sco/expr_ops.hpp
@@ -23,6 +23,11 @@ inline void exprScale(QuadExpr& q, double a)
 inline void exprInc(AffExpr& a, double b) { a.constant += b; }
 inline void exprInc(AffExpr& a, const AffExpr& b)
 {
+  if (&a == &b)  // the ranges inserted below must not belong to the vectors they are inserted into
+  {
+    exprScale(a, 2);
+    return;
+  }
   a.constant += b.constant;
   a.coeffs.insert(a.coeffs.end(), b.coeffs.begin(), b.coeffs.end());
   a.vars.insert(a.vars.end(), b.vars.begin(), b.vars.end());
@@ -41,6 +46,11 @@ inline void exprInc(QuadExpr& a, const AffExpr& b) { exprInc(a.affexpr, b); }
 inline void exprInc(QuadExpr& a, AffExpr&& b) { exprInc(a.affexpr, std::move(b)); }
 inline void exprInc(QuadExpr& a, const QuadExpr& b)
 {
+  if (&a == &b)
+  {
+    exprScale(a, 2);
+    return;
+  }
   exprInc(a.affexpr, b.affexpr);
   a.coeffs.insert(a.coeffs.end(), b.coeffs.begin(), b.coeffs.end());
   a.vars1.insert(a.vars1.end(), b.vars1.begin(), b.vars1.end());
-- 
2.43.0


From eca3ef02882d1b06898f83d8a7100ff656910170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:27 +0000
Subject: [PATCH 25/76] fix: solver names are listed in the order of the solver
 enumeration

---
 trajopt_sco/src/solver_interface.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trajopt_sco/src/solver_interface.cpp b/trajopt_sco/src/solver_interface.cpp
index be35ea8..36f1c16 100644
--- a/trajopt_sco/src/solver_interface.cpp
+++ b/trajopt_sco/src/solver_interface.cpp
@@ -11,7 +11,7 @@ TRAJOPT_IGNORE_WARNINGS_POP
 
 namespace sco
 {
-const std::vector<std::string> ModelType::MODEL_NAMES_ = { "GUROBI", "BPMPD", "OSQP", "QPOASES", "AUTO_SOLVER" };
+const std::vector<std::string> ModelType::MODEL_NAMES_ = { "GUROBI", "OSQP", "QPOASES", "BPMPD", "AUTO_SOLVER" };
 
 void vars2inds(const VarVector& vars, SizeTVec& inds)
 {
@@ -214,7 +214,7 @@ std::ostream& operator<<(std::ostream& o, const QuadExpr& e)
 std::ostream& operator<<(std::ostream& os, const ModelType& cs)
 {
   auto cs_ivalue_ = static_cast<std::size_t>(cs.value_);
-  if (cs_ivalue_ > ModelType::MODEL_NAMES_.size())
+  if (cs_ivalue_ >= ModelType::MODEL_NAMES_.size())
   {
     std::stringstream conversion_error;
     conversion_error << "Error converting ModelType to string - " << "enum value is " << cs_ivalue_ << '\n';
-- 
2.43.0


From 10f3b349e34e3a6e11f48f3106c045199c1d9901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:27 +0000
Subject: [PATCH 26/76] fix: automatic solver choice without any solver is an
 error

---
 trajopt_sco/src/solver_interface.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/trajopt_sco/src/solver_interface.cpp b/trajopt_sco/src/solver_interface.cpp
index 36f1c16..d137b5e 100644
--- a/trajopt_sco/src/solver_interface.cpp
+++ b/trajopt_sco/src/solver_interface.cpp
@@ -321,7 +321,10 @@ Model::Ptr createModel(ModelType model_type, const ModelConfig::ConstPtr& model_
     }
     else
     {
-      solver = availableSolvers()[0];
+      const std::vector<ModelType> available = availableSolvers();
+      if (available.empty())
+        PRINT_AND_THROW("no convex solver is available on this platform");
+      solver = available.front();
     }
   }
 
-- 
2.43.0


From e2d4c38130291dff1d527359d80ec514511501a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:28 +0000
Subject: [PATCH 27/76] fix: points below their lower bound are pushed inside
 the bounds

---
 trajopt_sco/src/modeling.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trajopt_sco/src/modeling.cpp b/trajopt_sco/src/modeling.cpp
index 5185c9f..62b5120 100644
--- a/trajopt_sco/src/modeling.cpp
+++ b/trajopt_sco/src/modeling.cpp
@@ -265,7 +265,7 @@ DblVec OptProb::getClosestFeasiblePoint(const DblVec& x, const double& delta)
   {
     // Force it a tiny bit inside the bounds
     y[i] = fmax(lower_bounds_[i] + delta, x[i]);
-    y[i] = fmin(upper_bounds_[i] - delta, x[i]);
+    y[i] = fmin(upper_bounds_[i] - delta, y[i]);
   }
   return y;
 }
-- 
2.43.0


From 5a68012e74992d781f956bb2e03e387ef67c434b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:25 +0000
Subject: [PATCH 28/76] fix: the maximum term enters the objective and leaves
 the model with its owner

---
 trajopt_sco/src/modeling.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/trajopt_sco/src/modeling.cpp b/trajopt_sco/src/modeling.cpp
index 62b5120..e3ff548 100644
--- a/trajopt_sco/src/modeling.cpp
+++ b/trajopt_sco/src/modeling.cpp
@@ -75,12 +75,14 @@ void ConvexObjective::addL2Norm(const AffExprVector& ev)
 void ConvexObjective::addMax(const AffExprVector& ev)
 {
   Var const m = model_->addVar("max", static_cast<double>(-INFINITY), static_cast<double>(INFINITY));
+  vars_.push_back(m);
   ineqs_.reserve(ineqs_.size() + ev.size());
   for (const auto& i : ev)
   {
     ineqs_.push_back(i);
     exprDec(ineqs_.back(), m);
   }
+  exprInc(quad_, m);
 }
 
 void ConvexObjective::addConstraintsToModel()
-- 
2.43.0


From f20d257bbf5246be151c0d04a4ed062d5fd6d7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:42 +0000
Subject: [PATCH 29/76] fix: solver messages survive partial and interrupted
 transfers

---
 trajopt_sco/include/trajopt_sco/bpmpd_io.hpp | 60 +++++++++++++-------
 trajopt_sco/src/bpmpd_caller.cpp             |  6 ++
 2 files changed, 44 insertions(+), 22 deletions(-)

diff --git a/trajopt_sco/include/trajopt_sco/bpmpd_io.hpp b/trajopt_sco/include/trajopt_sco/bpmpd_io.hpp
index 7ab80ec..3876335 100644
--- a/trajopt_sco/include/trajopt_sco/bpmpd_io.hpp
+++ b/trajopt_sco/include/trajopt_sco/bpmpd_io.hpp
@@ -2,9 +2,10 @@
 #include <trajopt_common/macros.h>
 TRAJOPT_IGNORE_WARNINGS_PUSH
 #include <vector>
-#include <cassert>
+#include <cerrno>
 #include <cstdint>
 #include <cstdlib>
+#include <stdexcept>
 #include <unistd.h>
 TRAJOPT_IGNORE_WARNINGS_POP
 
@@ -16,26 +17,49 @@ enum SerMode : std::uint8_t
   SER
 };
 
+/** @brief Write all bytes, a pipe may accept fewer than offered */
+inline void writeAll(int fp, const void* data, std::size_t size)
+{
+  const char* p = static_cast<const char*>(data);
+  while (size > 0)
+  {
+    const ssize_t n = write(fp, p, size);
+    if (n < 0 && errno == EINTR)
+      continue;
+    if (n < 0)
+      throw std::runtime_error("bpmpd_io: failed to write to the other process");
+    p += n;
+    size -= static_cast<std::size_t>(n);
+  }
+}
+
+/** @brief Read all bytes, a pipe may deliver fewer than requested */
+inline void readAll(int fp, void* data, std::size_t size)
+{
+  char* p = static_cast<char*>(data);
+  while (size > 0)
+  {
+    const ssize_t n = read(fp, p, size);
+    if (n < 0 && errno == EINTR)
+      continue;
+    if (n <= 0)
+      throw std::runtime_error("bpmpd_io: the other process closed the connection");
+    p += n;
+    size -= static_cast<std::size_t>(n);
+  }
+}
+
 template <typename T>
 void ser(int fp, T& x, SerMode mode)
 {
   switch (mode)
   {
     case SER:
-    {
-      T xcopy = x;
-      const ssize_t n = write(fp, &xcopy, sizeof(T));
-      assert(n == sizeof(T));
-      UNUSED(n);
+      writeAll(fp, &x, sizeof(T));
       break;
-    }
     case DESER:
-    {
-      const ssize_t n = read(fp, &x, sizeof(T));
-      assert(n == sizeof(T));
-      UNUSED(n);
+      readAll(fp, &x, sizeof(T));
       break;
-    }
   }
 }
 
@@ -47,20 +71,12 @@ void ser(int fp, std::vector<T>& x, SerMode mode)
   switch (mode)
   {
     case SER:
-    {
-      const long n = write(fp, x.data(), sizeof(T) * size);
-      assert(static_cast<unsigned long>(n) == sizeof(T) * size);
-      UNUSED(n);
+      writeAll(fp, x.data(), sizeof(T) * size);
       break;
-    }
     case DESER:
-    {
       x.resize(size);
-      const long n = read(fp, x.data(), sizeof(T) * size);
-      assert(static_cast<unsigned long>(n) == sizeof(T) * size);
-      UNUSED(n);
+      readAll(fp, x.data(), sizeof(T) * size);
       break;
-    }
   }
 }
 
diff --git a/trajopt_sco/src/bpmpd_caller.cpp b/trajopt_sco/src/bpmpd_caller.cpp
index 0110c0a..12ddb6d 100644
--- a/trajopt_sco/src/bpmpd_caller.cpp
+++ b/trajopt_sco/src/bpmpd_caller.cpp
@@ -34,6 +34,7 @@ extern void bpmpd(int*,
 }
 
 int main(int /*argc*/, char** /*argv*/)
+try
 {
   std::string const working_dir = BPMPD_WORKING_DIR;
   int const err = chdir(working_dir.c_str());
@@ -99,3 +100,8 @@ int main(int /*argc*/, char** /*argv*/)
     bpmpd_io::ser(STDOUT_FILENO, bo, bpmpd_io::SER);
   }
 }
+catch (const std::exception& e)
+{
+  std::cerr << e.what() << '\n';
+  return 1;
+}
-- 
2.43.0


From a46675be1a85bdc57b6819ccd52829383b140ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:27 +0000
Subject: [PATCH 30/76] fix: a solver process that fails or ends is reported
 and replaced

---
 trajopt_sco/src/bpmpd_interface.cpp | 90 +++++++++++++++++++++++++----
 1 file changed, 78 insertions(+), 12 deletions(-)

diff --git a/trajopt_sco/src/bpmpd_interface.cpp b/trajopt_sco/src/bpmpd_interface.cpp
index b6e522a..976d592 100644
--- a/trajopt_sco/src/bpmpd_interface.cpp
+++ b/trajopt_sco/src/bpmpd_interface.cpp
@@ -4,6 +4,7 @@ TRAJOPT_IGNORE_WARNINGS_PUSH
 #include <csignal>
 #include <array>
 #include <mutex>
+#include <sys/wait.h>
 #include <trajopt_sco/bpmpd_io.hpp>
 TRAJOPT_IGNORE_WARNINGS_POP
 
@@ -175,7 +176,8 @@ pid_t popen2(const char* command, int* infp, int* outfp)
 
   if (pid < 0)
   {
-    assert(0);
+    for (const int fd : { p_stdin[READ], p_stdin[WRITE], p_stdout[READ], p_stdout[WRITE] })
+      close(fd);
     return pid;
   }
 
@@ -191,6 +193,10 @@ pid_t popen2(const char* command, int* infp, int* outfp)
     exit(1);
   }
 
+  // The child holds these ends; only without them here is its end noticed
+  close(p_stdin[READ]);
+  close(p_stdout[WRITE]);
+
   if (infp == nullptr)
     close(p_stdin[WRITE]);
   else
@@ -208,22 +214,70 @@ static pid_t gPID = 0;    // NOLINT
 static int gPipeIn = 0;   // NOLINT
 static int gPipeOut = 0;  // NOLINT
 
+/** @brief Holds back SIGPIPE in this thread, writing to a solver process that ended is reported as an error instead */
+class SigPipeBlocker
+{
+public:
+  SigPipeBlocker()
+  {
+    sigset_t pending;
+    sigpending(&pending);
+    was_pending_ = (sigismember(&pending, SIGPIPE) == 1);
+    sigemptyset(&sigpipe_);
+    sigaddset(&sigpipe_, SIGPIPE);
+    pthread_sigmask(SIG_BLOCK, &sigpipe_, &old_mask_);
+  }
+  ~SigPipeBlocker()
+  {
+    const timespec zero{};
+    while (!was_pending_ && sigtimedwait(&sigpipe_, nullptr, &zero) == -1 && errno == EINTR)
+    {
+    }
+    pthread_sigmask(SIG_SETMASK, &old_mask_, nullptr);
+  }
+  SigPipeBlocker(const SigPipeBlocker&) = delete;
+  SigPipeBlocker& operator=(const SigPipeBlocker&) = delete;
+  SigPipeBlocker(SigPipeBlocker&&) = delete;
+  SigPipeBlocker& operator=(SigPipeBlocker&&) = delete;
+
+private:
+  sigset_t sigpipe_{};
+  sigset_t old_mask_{};
+  bool was_pending_{ false };
+};
+
 void fexit()
 {
+  if (gPID <= 0)
+    return;
+  const SigPipeBlocker blocker;
   std::array<char, 1> text{ bpmpd_io::EXIT_CHAR };
-  long const n = write(gPipeIn, text.data(), 1);
-  ALWAYS_ASSERT(n == 1);
+  const ssize_t n = write(gPipeIn, text.data(), 1);
+  UNUSED(n);
 }
 
-BPMPDModel::BPMPDModel()
+/** @brief Start the solver process unless it is running */
+static bool startSolver()
 {
-  if (gPID == 0)
-  {
-    atexit(fexit);
+  static const int registered = atexit(fexit);
+  UNUSED(registered);
+  if (gPID <= 0)
     gPID = popen2(BPMPD_CALLER, &gPipeIn, &gPipeOut);
-  }
+  return gPID > 0;
 }
 
+/** @brief Give up a solver process that can not be talked to, the next solve starts another one */
+static void abandonSolver()
+{
+  close(gPipeIn);
+  close(gPipeOut);
+  kill(gPID, SIGKILL);
+  waitpid(gPID, nullptr, 0);
+  gPID = 0;
+}
+
+BPMPDModel::BPMPDModel() { startSolver(); }
+
 // BPMPDModel::~BPMPDModel()
 //{
 // char text[1] = {123};
@@ -518,12 +572,24 @@ CvxOptStatus BPMPDModel::optimize()
                            obj,
                            lbound,
                            ubound);
-  bpmpd_io::ser(gPipeIn, bi, bpmpd_io::SER);
-
-  // std::cout << "serialization time:" << end-start << '\n';
+  if (!startSolver())
+    return CVX_FAILED;
 
   bpmpd_io::bpmpd_output bo;
-  bpmpd_io::ser(gPipeOut, bo, bpmpd_io::DESER);
+  try
+  {
+    const SigPipeBlocker blocker;
+    bpmpd_io::ser(gPipeIn, bi, bpmpd_io::SER);
+    bpmpd_io::ser(gPipeOut, bo, bpmpd_io::DESER);
+    if (bo.primal.size() < n)
+      throw std::runtime_error("BPMPD returned too few values");
+  }
+  catch (const std::exception& e)
+  {
+    LOG_ERROR("BPMPD solver process failed: %s", e.what());
+    abandonSolver();
+    return CVX_FAILED;
+  }
 
   m_soln = DblVec(bo.primal.begin(), bo.primal.begin() + static_cast<long int>(n));
   const int retcode = bo.code;
-- 
2.43.0


From e2cf90f4ba25c8c667967ba1c9d9a065b8ca5f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:42 +0000
Subject: [PATCH 31/76] fix: an affine objective replaces a quadratic one
 entirely

---
 trajopt_sco/src/bpmpd_interface.cpp   | 2 +-
 trajopt_sco/src/osqp_interface.cpp    | 2 +-
 trajopt_sco/src/qpoases_interface.cpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/trajopt_sco/src/bpmpd_interface.cpp b/trajopt_sco/src/bpmpd_interface.cpp
index 976d592..dd5433a 100644
--- a/trajopt_sco/src/bpmpd_interface.cpp
+++ b/trajopt_sco/src/bpmpd_interface.cpp
@@ -606,7 +606,7 @@ CvxOptStatus BPMPDModel::optimize()
 
   // exit(0);
 }
-void BPMPDModel::setObjective(const AffExpr& expr) { m_objective.affexpr = expr; }
+void BPMPDModel::setObjective(const AffExpr& expr) { m_objective = QuadExpr(expr); }
 void BPMPDModel::setObjective(const QuadExpr& expr) { m_objective = expr; }
 void BPMPDModel::writeToFile(const std::string& /*fname*/) const
 {
diff --git a/trajopt_sco/src/osqp_interface.cpp b/trajopt_sco/src/osqp_interface.cpp
index c64b205..6fdb369 100644
--- a/trajopt_sco/src/osqp_interface.cpp
+++ b/trajopt_sco/src/osqp_interface.cpp
@@ -613,7 +613,7 @@ CvxOptStatus OSQPModel::optimize()
 
   return CVX_FAILED;
 }
-void OSQPModel::setObjective(const AffExpr& expr) { objective_.affexpr = expr; }
+void OSQPModel::setObjective(const AffExpr& expr) { objective_ = QuadExpr(expr); }
 void OSQPModel::setObjective(const QuadExpr& expr) { objective_ = expr; }
 
 VarVector OSQPModel::getVars() const { return vars_; }
diff --git a/trajopt_sco/src/qpoases_interface.cpp b/trajopt_sco/src/qpoases_interface.cpp
index 1886201..66b9d80 100644
--- a/trajopt_sco/src/qpoases_interface.cpp
+++ b/trajopt_sco/src/qpoases_interface.cpp
@@ -259,7 +259,7 @@ CvxOptStatus qpOASESModel::optimize()
 
   return CVX_FAILED;
 }
-void qpOASESModel::setObjective(const AffExpr& expr) { objective_.affexpr = expr; }
+void qpOASESModel::setObjective(const AffExpr& expr) { objective_ = QuadExpr(expr); }
 void qpOASESModel::setObjective(const QuadExpr& expr) { objective_ = expr; }
 void qpOASESModel::writeToFile(const std::string& /*fname*/) const {}
 VarVector qpOASESModel::getVars() const { return vars_; }
-- 
2.43.0


From db578e29d58fd7e32b8b2541830a0ac22066d725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:04 +0000
Subject: [PATCH 32/76] fix: running out of time before the first evaluation is
 not convergence

---
 trajopt_sco/src/optimizers.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/trajopt_sco/src/optimizers.cpp b/trajopt_sco/src/optimizers.cpp
index fce8e57..e456793 100644
--- a/trajopt_sco/src/optimizers.cpp
+++ b/trajopt_sco/src/optimizers.cpp
@@ -742,7 +742,9 @@ OptStatus BasicTrustRegionSQP::optimize()
         LOG_INFO("Elapsed time %f has exceeded max time %f", elapsed_time, param_.max_time);
         retval = OPT_TIME_LIMIT;
 
-        if (results_.cnt_viols.empty() || vecMax(results_.cnt_viols) < param_.cnt_tolerance)
+        // no violations are known if the time is up before the first evaluation
+        if (constraints.empty() ||
+            (!results_.cnt_viols.empty() && vecMax(results_.cnt_viols) < param_.cnt_tolerance))
         {
           retval = OPT_CONVERGED;
           if (!results_.cnt_viols.empty())
-- 
2.43.0


From ffab86893dc2e48e02c23571944c247c8a486b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:04 +0000
Subject: [PATCH 33/76] fix: log files that could not be opened are not closed

---
 trajopt_sco/src/optimizers.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/trajopt_sco/src/optimizers.cpp b/trajopt_sco/src/optimizers.cpp
index e456793..2d190ae 100644
--- a/trajopt_sco/src/optimizers.cpp
+++ b/trajopt_sco/src/optimizers.cpp
@@ -982,10 +982,11 @@ cleanup:
   // NOLINTBEGIN(clang-analyzer-core.NonNullParamChecker)
   if (param_.log_results || trajopt_common::GetLogLevel() >= trajopt_common::LevelDebug)
   {
-    std::fclose(log_solver_stream);
-    std::fclose(log_vars_stream);
-    std::fclose(log_costs_stream);
-    std::fclose(log_constraints_stream);
+    for (std::FILE* stream : { log_solver_stream, log_vars_stream, log_costs_stream, log_constraints_stream })
+    {
+      if (stream != nullptr)
+        std::fclose(stream);
+    }
   }
   // NOLINTEND(clang-analyzer-core.NonNullParamChecker)
 
-- 
2.43.0


From 7c51464c50583491db2cf330200aaa7d60292d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:04 +0000
Subject: [PATCH 34/76] fix: a repeated optimisation evaluates its own start
 point

---
 trajopt_sco/src/optimizers.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trajopt_sco/src/optimizers.cpp b/trajopt_sco/src/optimizers.cpp
index 2d190ae..977f0e0 100644
--- a/trajopt_sco/src/optimizers.cpp
+++ b/trajopt_sco/src/optimizers.cpp
@@ -722,7 +722,8 @@ OptStatus BasicTrustRegionSQP::optimize()
   if (!prob_)
     PRINT_AND_THROW("you forgot to set the optimization problem");
 
-  results_.x = prob_->getClosestFeasiblePoint(results_.x);
+  // values and counters of an earlier run do not belong to this start point
+  initialize(prob_->getClosestFeasiblePoint(results_.x));
 
   assert(results_.x.size() == prob_->getVars().size());
   assert(!prob_->getCosts().empty() || !constraints.empty());
-- 
2.43.0


From e09d011bfd5565b098739d1d77d1c4ffbe813ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:20 +0000
Subject: [PATCH 35/76] fix: the solver process holds no second copy of its
 connection

---
 trajopt_sco/src/bpmpd_interface.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/trajopt_sco/src/bpmpd_interface.cpp b/trajopt_sco/src/bpmpd_interface.cpp
index dd5433a..1172f4a 100644
--- a/trajopt_sco/src/bpmpd_interface.cpp
+++ b/trajopt_sco/src/bpmpd_interface.cpp
@@ -188,6 +188,12 @@ pid_t popen2(const char* command, int* infp, int* outfp)
     close(p_stdout[READ]);
     dup2(p_stdout[WRITE], WRITE);
 
+    // The connection ends when the command closes its standard input and output
+    if (p_stdin[READ] > STDERR_FILENO)
+      close(p_stdin[READ]);
+    if (p_stdout[WRITE] > STDERR_FILENO)
+      close(p_stdout[WRITE]);
+
     execl("/bin/sh", "sh", "-c", command, nullptr);
     perror("execl");
     exit(1);
-- 
2.43.0


From 48ceb4b1fcf3b432bc2463b4df654913d08a37cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:20 +0000
Subject: [PATCH 36/76] fix: the first pipe is closed when the second can not
 be opened

---
 trajopt_sco/src/bpmpd_interface.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/trajopt_sco/src/bpmpd_interface.cpp b/trajopt_sco/src/bpmpd_interface.cpp
index 1172f4a..8e27542 100644
--- a/trajopt_sco/src/bpmpd_interface.cpp
+++ b/trajopt_sco/src/bpmpd_interface.cpp
@@ -169,9 +169,16 @@ pid_t popen2(const char* command, int* infp, int* outfp)
   std::array<int, 2> p_stdout{};
   pid_t pid{ 0 };
 
-  if (pipe(p_stdin.data()) != 0 || pipe(p_stdout.data()) != 0)
+  if (pipe(p_stdin.data()) != 0)
     return -1;
 
+  if (pipe(p_stdout.data()) != 0)
+  {
+    close(p_stdin[READ]);
+    close(p_stdin[WRITE]);
+    return -1;
+  }
+
   pid = fork();
 
   if (pid < 0)
-- 
2.43.0


From 26c877402d8e268a3492b30ee3b282a5bf5addcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:06 +0000
Subject: [PATCH 37/76] fix: an answer of the bundled solver that violates the
 problem is not reported as solved

---
 trajopt_sco/src/bpmpd_interface.cpp | 36 ++++++++++++++++++++++++++++-
 1 file changed, 35 insertions(+), 1 deletion(-)

diff --git a/trajopt_sco/src/bpmpd_interface.cpp b/trajopt_sco/src/bpmpd_interface.cpp
index 8e27542..09f321d 100644
--- a/trajopt_sco/src/bpmpd_interface.cpp
+++ b/trajopt_sco/src/bpmpd_interface.cpp
@@ -417,6 +417,34 @@ DblVec BPMPDModel::getVarValues(const VarVector& vars) const
   return out;
 }
 
+/** @brief Check if a point is finite, inside the bounds and satisfies the constraints (relative to the size of the terms) */
+static bool satisfies(const DblVec& x,
+                      const DblVec& lbs,
+                      const DblVec& ubs,
+                      const AffExprVector& exprs,
+                      const ConstraintTypeVector& types)
+{
+  const double tol = 1e-4;
+  for (std::size_t i = 0; i < x.size(); ++i)
+  {
+    const double margin = tol * (1 + std::abs(x[i]));
+    if (!std::isfinite(x[i]) || x[i] < lbs[i] - margin || x[i] > ubs[i] + margin)
+      return false;
+  }
+
+  for (std::size_t i = 0; i < exprs.size(); ++i)
+  {
+    double size = 1 + std::abs(exprs[i].constant);
+    for (std::size_t j = 0; j < exprs[i].size(); ++j)
+      size += std::abs(exprs[i].coeffs[j] * exprs[i].vars[j].value(x));
+
+    const double value = exprs[i].value(x);
+    if (value > tol * size || (types[i] == EQ && value < -tol * size))
+      return false;
+  }
+  return true;
+}
+
 #define DBG(expr)  // cout << #expr << ": " << CSTR(expr) << '\n'
 
 CvxOptStatus BPMPDModel::optimize()
@@ -608,7 +636,13 @@ CvxOptStatus BPMPDModel::optimize()
   const int retcode = bo.code;
 
   if (retcode == 2)
-    return CVX_SOLVED;
+  {
+    if (satisfies(m_soln, m_lbs, m_ubs, m_cntExprs, m_cntTypes))
+      return CVX_SOLVED;
+
+    LOG_WARN("BPMPD reported a point that violates the bounds or constraints as optimal");
+    return CVX_FAILED;
+  }
 
   if (retcode == 3 || retcode == 4)
     return CVX_INFEASIBLE;
-- 
2.43.0


From 39d5b2f3f0d9c83144b1a1de6ac5f79c22ab0fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:50 +0000
Subject: [PATCH 38/76] fix: a JSON value that is no list is not read as a list

---
 trajopt/include/trajopt/json_marshal.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/trajopt/include/trajopt/json_marshal.hpp b/trajopt/include/trajopt/json_marshal.hpp
index cb78227..4cfadc8 100644
--- a/trajopt/include/trajopt/json_marshal.hpp
+++ b/trajopt/include/trajopt/json_marshal.hpp
@@ -30,6 +30,11 @@ inline void fromJson(const Json::Value& v, T& ref)
 template <class T>
 void fromJsonArray(const Json::Value& parent, std::vector<T>& ref)
 {
+  if (!parent.isArray() && !parent.isNull())
+  {
+    PRINT_AND_THROW(boost::format("expected list. got: %s\n") % parent);
+  }
+
   ref.clear();
   ref.reserve(parent.size());
   for (const auto& it : parent)
-- 
2.43.0


From 7c2f103ba5269cb8d9fef64a5db73a7ac6f497fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:27 +0000
Subject: [PATCH 39/76] fix: the whole sparsity pattern is compared before an
 OSQP workspace is reused

---
 trajopt_sco/src/osqp_interface.cpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/trajopt_sco/src/osqp_interface.cpp b/trajopt_sco/src/osqp_interface.cpp
index 6fdb369..3a34ed8 100644
--- a/trajopt_sco/src/osqp_interface.cpp
+++ b/trajopt_sco/src/osqp_interface.cpp
@@ -195,10 +195,8 @@ bool OSQPModel::updateObjective(bool check_sparsity)
   eigenToCSC(triangular_sm, P_row_indices_, P_column_pointers_, P_csc_data_);
 
   // Check if sparsity has changed
-  sparsity_equal = sparsity_equal &&
-                   memcmp(prev_column_pointers.data(), P_column_pointers_.data(), static_cast<size_t>(P_->n) + 1) == 0;
   sparsity_equal =
-      sparsity_equal && (memcmp(prev_row_indices.data(), P_row_indices_.data(), static_cast<size_t>(P_->nzmax)) == 0);
+      sparsity_equal && prev_column_pointers == P_column_pointers_ && prev_row_indices == P_row_indices_;
 
   P_.reset(OSQPCscMatrix_new(n_,
                              n_,
@@ -265,10 +263,8 @@ bool OSQPModel::updateConstraints(bool check_sparsity)
   eigenToCSC(sm, A_row_indices_, A_column_pointers_, A_csc_data_);
 
   // Check if sparsity has changed
-  sparsity_equal = sparsity_equal &&
-                   memcmp(prev_column_pointers.data(), A_column_pointers_.data(), static_cast<size_t>(A_->n) + 1) == 0;
   sparsity_equal =
-      sparsity_equal && (memcmp(prev_row_indices.data(), A_row_indices_.data(), static_cast<size_t>(A_->nzmax)) == 0);
+      sparsity_equal && prev_column_pointers == A_column_pointers_ && prev_row_indices == A_row_indices_;
 
   A_.reset(OSQPCscMatrix_new(m_,
                              n_,
-- 
2.43.0


From 6b6c95961306ab71b66f7ed3ef4940dd2083cc1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:28 +0000
Subject: [PATCH 40/76] fix: a failed OSQP set-up leaves no pointer to the
 previous workspace

---
 trajopt_sco/src/osqp_interface.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/trajopt_sco/src/osqp_interface.cpp b/trajopt_sco/src/osqp_interface.cpp
index 3a34ed8..d72bf98 100644
--- a/trajopt_sco/src/osqp_interface.cpp
+++ b/trajopt_sco/src/osqp_interface.cpp
@@ -344,6 +344,7 @@ void OSQPModel::createOrUpdateSolver()
       settings.rho = osqp_workspace_->settings->rho;
     }
     osqp_cleanup(osqp_workspace_);
+    osqp_workspace_ = nullptr;
   }
 
   // Setup workspace - this should be called only once
-- 
2.43.0


From 4cf938c2ec0ae1527847fc72689b3ce31a5b095c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:41 +0000
Subject: [PATCH 41/76] fix: the background decomposition is stopped before its
 buffers are released

---
 trajopt_ext/vhacd/src/VHACD-ASYNC.cpp | 628 +++++++++++++-------------
 1 file changed, 314 insertions(+), 314 deletions(-)

diff --git a/trajopt_ext/vhacd/src/VHACD-ASYNC.cpp b/trajopt_ext/vhacd/src/VHACD-ASYNC.cpp
index 6759e97..beff232 100644
--- a/trajopt_ext/vhacd/src/VHACD-ASYNC.cpp
+++ b/trajopt_ext/vhacd/src/VHACD-ASYNC.cpp
@@ -1,314 +1,314 @@
-#include "vhacd/VHACD.h"
-#include <stdlib.h>
-#include <string.h>
-#include <stdarg.h>
-#include <thread>
-#include <atomic>
-#include <mutex>
-#include <string>
-#include <float.h>
-
-#define ENABLE_ASYNC 1
-
-#define HACD_ALLOC(x) malloc(x)
-#define HACD_FREE(x) free(x)
-#define HACD_ASSERT(x) assert(x)
-
-namespace VHACD
-{
-class MyHACD_API : public VHACD::IVHACD, public VHACD::IVHACD::IUserCallback, VHACD::IVHACD::IUserLogger
-{
-public:
-  MyHACD_API(void) { mVHACD = VHACD::CreateVHACD(); }
-  virtual ~MyHACD_API(void)
-  {
-    releaseHACD();
-    Cancel();
-    mVHACD->Release();
-  }
-
-  bool Compute(const double* const _points,
-               const uint32_t countPoints,
-               const uint32_t* const _triangles,
-               const uint32_t countTriangles,
-               const Parameters& _desc) override final
-  {
-#if ENABLE_ASYNC
-    Cancel();  // if we previously had a solution running; cancel it.
-    releaseHACD();
-
-    // We need to copy the input vertices and triangles into our own buffers so we can operate
-    // on them safely from the background thread.
-    mVertices = (double*)HACD_ALLOC(sizeof(double) * countPoints * 3);
-    mIndices = (uint32_t*)HACD_ALLOC(sizeof(uint32_t) * countTriangles * 3);
-    memcpy(mVertices, _points, sizeof(double) * countPoints * 3);
-    memcpy(mIndices, _triangles, sizeof(uint32_t) * countTriangles * 3);
-    mRunning = true;
-    mThread = new std::thread([this, countPoints, countTriangles, _desc]() {
-      ComputeNow(mVertices, countPoints, mIndices, countTriangles, _desc);
-      mRunning = false;
-    });
-#else
-    releaseHACD();
-    ComputeNow(_points, countPoints, _triangles, countTriangles, _desc);
-#endif
-    return true;
-  }
-
-  bool ComputeNow(const double* const points,
-                  const uint32_t countPoints,
-                  const uint32_t* const triangles,
-                  const uint32_t countTriangles,
-                  const Parameters& _desc)
-  {
-    uint32_t ret = 0;
-
-    mHullCount = 0;
-    mCallback = _desc.m_callback;
-    mLogger = _desc.m_logger;
-
-    IVHACD::Parameters desc = _desc;
-    // Set our intercepting callback interfaces if non-null
-    desc.m_callback = desc.m_callback ? this : nullptr;
-    desc.m_logger = desc.m_logger ? this : nullptr;
-
-    if (countPoints)
-    {
-      bool ok = mVHACD->Compute(points, countPoints, triangles, countTriangles, desc);
-      if (ok)
-      {
-        ret = mVHACD->GetNConvexHulls();
-        mHulls = new IVHACD::ConvexHull[ret];
-        for (uint32_t i = 0; i < ret; i++)
-        {
-          VHACD::IVHACD::ConvexHull vhull;
-          mVHACD->GetConvexHull(i, vhull);
-          VHACD::IVHACD::ConvexHull h;
-          h.m_nPoints = vhull.m_nPoints;
-          h.m_points = (double*)HACD_ALLOC(sizeof(double) * 3 * h.m_nPoints);
-          memcpy(h.m_points, vhull.m_points, sizeof(double) * 3 * h.m_nPoints);
-          h.m_nTriangles = vhull.m_nTriangles;
-          h.m_triangles = (uint32_t*)HACD_ALLOC(sizeof(uint32_t) * 3 * h.m_nTriangles);
-          memcpy(h.m_triangles, vhull.m_triangles, sizeof(uint32_t) * 3 * h.m_nTriangles);
-          h.m_volume = vhull.m_volume;
-          h.m_center[0] = vhull.m_center[0];
-          h.m_center[1] = vhull.m_center[1];
-          h.m_center[2] = vhull.m_center[2];
-          mHulls[i] = h;
-          if (mCancel)
-          {
-            ret = 0;
-            break;
-          }
-        }
-      }
-    }
-
-    mHullCount = ret;
-    return ret ? true : false;
-  }
-
-  void releaseHull(VHACD::IVHACD::ConvexHull& h)
-  {
-    HACD_FREE((void*)h.m_triangles);
-    HACD_FREE((void*)h.m_points);
-    h.m_triangles = nullptr;
-    h.m_points = nullptr;
-  }
-
-  void GetConvexHull(const uint32_t index, VHACD::IVHACD::ConvexHull& ch) const override final
-  {
-    if (index < mHullCount)
-    {
-      ch = mHulls[index];
-    }
-  }
-
-  void releaseHACD(void)  // release memory associated with the last HACD request
-  {
-    for (uint32_t i = 0; i < mHullCount; i++)
-    {
-      releaseHull(mHulls[i]);
-    }
-    delete[] mHulls;
-    mHulls = nullptr;
-    mHullCount = 0;
-    HACD_FREE(mVertices);
-    mVertices = nullptr;
-    HACD_FREE(mIndices);
-    mIndices = nullptr;
-  }
-
-  virtual void release(void)  // release the HACD_API interface
-  {
-    delete this;
-  }
-
-  virtual uint32_t getHullCount(void) { return mHullCount; }
-  virtual void Cancel() override final
-  {
-    if (mRunning)
-    {
-      mVHACD->Cancel();  // Set the cancel signal to the base VHACD
-    }
-    if (mThread)
-    {
-      mThread->join();  // Wait for the thread to fully exit before we delete the instance
-      delete mThread;
-      mThread = nullptr;
-      Log("Convex Decomposition thread canceled\n");
-    }
-    mCancel = false;  // clear the cancel semaphore
-  }
-
-  bool Compute(const float* const points,
-               const uint32_t countPoints,
-               const uint32_t* const triangles,
-               const uint32_t countTriangles,
-               const Parameters& params) override final
-  {
-    double* vertices = (double*)HACD_ALLOC(sizeof(double) * countPoints * 3);
-    const float* source = points;
-    double* dest = vertices;
-    for (uint32_t i = 0; i < countPoints; i++)
-    {
-      dest[0] = source[0];
-      dest[1] = source[1];
-      dest[2] = source[2];
-      dest += 3;
-      source += 3;
-    }
-
-    bool ret = Compute(vertices, countPoints, triangles, countTriangles, params);
-    HACD_FREE(vertices);
-    return ret;
-  }
-
-  uint32_t GetNConvexHulls() const override final
-  {
-    processPendingMessages();
-    return mHullCount;
-  }
-
-  void Clean(void) override final  // release internally allocated memory
-  {
-    Cancel();
-    releaseHACD();
-    mVHACD->Clean();
-  }
-
-  void Release(void) override final  // release IVHACD
-  {
-    delete this;
-  }
-
-  bool OCLInit(void* const oclDevice, IVHACD::IUserLogger* const logger = nullptr) override final
-  {
-    return mVHACD->OCLInit(oclDevice, logger);
-  }
-
-  bool OCLRelease(IVHACD::IUserLogger* const logger = nullptr) override final { return mVHACD->OCLRelease(logger); }
-  void Update(const double overallProgress,
-              const double stageProgress,
-              const double operationProgress,
-              const char* const stage,
-              const char* const operation) override final
-  {
-    mMessageMutex.lock();
-    mHaveUpdateMessage = true;
-    mOverallProgress = overallProgress;
-    mStageProgress = stageProgress;
-    mOperationProgress = operationProgress;
-    mStage = std::string(stage);
-    mOperation = std::string(operation);
-    mMessageMutex.unlock();
-  }
-
-  void Log(const char* const msg) override final
-  {
-    mMessageMutex.lock();
-    mHaveLogMessage = true;
-    mMessage = std::string(msg);
-    mMessageMutex.unlock();
-  }
-
-  bool IsReady(void) const override final
-  {
-    processPendingMessages();
-    return !mRunning;
-  }
-
-  // As a convenience for the calling application we only send it update and log messages from it's own main
-  // thread.  This reduces the complexity burden on the caller by making sure it only has to deal with log
-  // messages in it's main application thread.
-  void processPendingMessages(void) const
-  {
-    // If we have a new update message and the user has specified a callback we send the message and clear the semaphore
-    if (mHaveUpdateMessage && mCallback)
-    {
-      mMessageMutex.lock();
-      mCallback->Update(mOverallProgress, mStageProgress, mOperationProgress, mStage.c_str(), mOperation.c_str());
-      mHaveUpdateMessage = false;
-      mMessageMutex.unlock();
-    }
-    // If we have a new log message and the user has specified a callback we send the message and clear the semaphore
-    if (mHaveLogMessage && mLogger)
-    {
-      mMessageMutex.lock();
-      mLogger->Log(mMessage.c_str());
-      mHaveLogMessage = false;
-      mMessageMutex.unlock();
-    }
-  }
-
-  // Will compute the center of mass of the convex hull decomposition results and return it
-  // in 'centerOfMass'.  Returns false if the center of mass could not be computed.
-  bool ComputeCenterOfMass(double centerOfMass[3]) const override
-  {
-    bool ret = false;
-
-    centerOfMass[0] = 0;
-    centerOfMass[1] = 0;
-    centerOfMass[2] = 0;
-
-    if (mVHACD && IsReady())
-    {
-      ret = mVHACD->ComputeCenterOfMass(centerOfMass);
-    }
-    return ret;
-  }
-
-private:
-  double* mVertices{ nullptr };
-  uint32_t* mIndices{ nullptr };
-  std::atomic<uint32_t> mHullCount{ 0 };
-  VHACD::IVHACD::ConvexHull* mHulls{ nullptr };
-  VHACD::IVHACD::IUserCallback* mCallback{ nullptr };
-  VHACD::IVHACD::IUserLogger* mLogger{ nullptr };
-  VHACD::IVHACD* mVHACD{ nullptr };
-  std::thread* mThread{ nullptr };
-  std::atomic<bool> mRunning{ false };
-  std::atomic<bool> mCancel{ false };
-
-  // Thread safe caching mechanism for messages and update status.
-  // This is so that caller always gets messages in his own thread
-  // Member variables are marked as 'mutable' since the message dispatch function
-  // is called from const query methods.
-  mutable std::mutex mMessageMutex;
-  mutable std::atomic<bool> mHaveUpdateMessage{ false };
-  mutable std::atomic<bool> mHaveLogMessage{ false };
-  mutable double mOverallProgress{ 0 };
-  mutable double mStageProgress{ 0 };
-  mutable double mOperationProgress{ 0 };
-  mutable std::string mStage;
-  mutable std::string mOperation;
-  mutable std::string mMessage;
-};
-
-IVHACD* CreateVHACD_ASYNC(void)
-{
-  MyHACD_API* m = new MyHACD_API;
-  return static_cast<IVHACD*>(m);
-}
-
-};  // namespace VHACD
+#include "vhacd/VHACD.h"
+#include <stdlib.h>
+#include <string.h>
+#include <stdarg.h>
+#include <thread>
+#include <atomic>
+#include <mutex>
+#include <string>
+#include <float.h>
+
+#define ENABLE_ASYNC 1
+
+#define HACD_ALLOC(x) malloc(x)
+#define HACD_FREE(x) free(x)
+#define HACD_ASSERT(x) assert(x)
+
+namespace VHACD
+{
+class MyHACD_API : public VHACD::IVHACD, public VHACD::IVHACD::IUserCallback, VHACD::IVHACD::IUserLogger
+{
+public:
+  MyHACD_API(void) { mVHACD = VHACD::CreateVHACD(); }
+  virtual ~MyHACD_API(void)
+  {
+    Cancel();  // wait for the background thread before the buffers it uses are released
+    releaseHACD();
+    mVHACD->Release();
+  }
+
+  bool Compute(const double* const _points,
+               const uint32_t countPoints,
+               const uint32_t* const _triangles,
+               const uint32_t countTriangles,
+               const Parameters& _desc) override final
+  {
+#if ENABLE_ASYNC
+    Cancel();  // if we previously had a solution running; cancel it.
+    releaseHACD();
+
+    // We need to copy the input vertices and triangles into our own buffers so we can operate
+    // on them safely from the background thread.
+    mVertices = (double*)HACD_ALLOC(sizeof(double) * countPoints * 3);
+    mIndices = (uint32_t*)HACD_ALLOC(sizeof(uint32_t) * countTriangles * 3);
+    memcpy(mVertices, _points, sizeof(double) * countPoints * 3);
+    memcpy(mIndices, _triangles, sizeof(uint32_t) * countTriangles * 3);
+    mRunning = true;
+    mThread = new std::thread([this, countPoints, countTriangles, _desc]() {
+      ComputeNow(mVertices, countPoints, mIndices, countTriangles, _desc);
+      mRunning = false;
+    });
+#else
+    releaseHACD();
+    ComputeNow(_points, countPoints, _triangles, countTriangles, _desc);
+#endif
+    return true;
+  }
+
+  bool ComputeNow(const double* const points,
+                  const uint32_t countPoints,
+                  const uint32_t* const triangles,
+                  const uint32_t countTriangles,
+                  const Parameters& _desc)
+  {
+    uint32_t ret = 0;
+
+    mHullCount = 0;
+    mCallback = _desc.m_callback;
+    mLogger = _desc.m_logger;
+
+    IVHACD::Parameters desc = _desc;
+    // Set our intercepting callback interfaces if non-null
+    desc.m_callback = desc.m_callback ? this : nullptr;
+    desc.m_logger = desc.m_logger ? this : nullptr;
+
+    if (countPoints)
+    {
+      bool ok = mVHACD->Compute(points, countPoints, triangles, countTriangles, desc);
+      if (ok)
+      {
+        ret = mVHACD->GetNConvexHulls();
+        mHulls = new IVHACD::ConvexHull[ret];
+        for (uint32_t i = 0; i < ret; i++)
+        {
+          VHACD::IVHACD::ConvexHull vhull;
+          mVHACD->GetConvexHull(i, vhull);
+          VHACD::IVHACD::ConvexHull h;
+          h.m_nPoints = vhull.m_nPoints;
+          h.m_points = (double*)HACD_ALLOC(sizeof(double) * 3 * h.m_nPoints);
+          memcpy(h.m_points, vhull.m_points, sizeof(double) * 3 * h.m_nPoints);
+          h.m_nTriangles = vhull.m_nTriangles;
+          h.m_triangles = (uint32_t*)HACD_ALLOC(sizeof(uint32_t) * 3 * h.m_nTriangles);
+          memcpy(h.m_triangles, vhull.m_triangles, sizeof(uint32_t) * 3 * h.m_nTriangles);
+          h.m_volume = vhull.m_volume;
+          h.m_center[0] = vhull.m_center[0];
+          h.m_center[1] = vhull.m_center[1];
+          h.m_center[2] = vhull.m_center[2];
+          mHulls[i] = h;
+          if (mCancel)
+          {
+            ret = 0;
+            break;
+          }
+        }
+      }
+    }
+
+    mHullCount = ret;
+    return ret ? true : false;
+  }
+
+  void releaseHull(VHACD::IVHACD::ConvexHull& h)
+  {
+    HACD_FREE((void*)h.m_triangles);
+    HACD_FREE((void*)h.m_points);
+    h.m_triangles = nullptr;
+    h.m_points = nullptr;
+  }
+
+  void GetConvexHull(const uint32_t index, VHACD::IVHACD::ConvexHull& ch) const override final
+  {
+    if (index < mHullCount)
+    {
+      ch = mHulls[index];
+    }
+  }
+
+  void releaseHACD(void)  // release memory associated with the last HACD request
+  {
+    for (uint32_t i = 0; i < mHullCount; i++)
+    {
+      releaseHull(mHulls[i]);
+    }
+    delete[] mHulls;
+    mHulls = nullptr;
+    mHullCount = 0;
+    HACD_FREE(mVertices);
+    mVertices = nullptr;
+    HACD_FREE(mIndices);
+    mIndices = nullptr;
+  }
+
+  virtual void release(void)  // release the HACD_API interface
+  {
+    delete this;
+  }
+
+  virtual uint32_t getHullCount(void) { return mHullCount; }
+  virtual void Cancel() override final
+  {
+    if (mRunning)
+    {
+      mVHACD->Cancel();  // Set the cancel signal to the base VHACD
+    }
+    if (mThread)
+    {
+      mThread->join();  // Wait for the thread to fully exit before we delete the instance
+      delete mThread;
+      mThread = nullptr;
+      Log("Convex Decomposition thread canceled\n");
+    }
+    mCancel = false;  // clear the cancel semaphore
+  }
+
+  bool Compute(const float* const points,
+               const uint32_t countPoints,
+               const uint32_t* const triangles,
+               const uint32_t countTriangles,
+               const Parameters& params) override final
+  {
+    double* vertices = (double*)HACD_ALLOC(sizeof(double) * countPoints * 3);
+    const float* source = points;
+    double* dest = vertices;
+    for (uint32_t i = 0; i < countPoints; i++)
+    {
+      dest[0] = source[0];
+      dest[1] = source[1];
+      dest[2] = source[2];
+      dest += 3;
+      source += 3;
+    }
+
+    bool ret = Compute(vertices, countPoints, triangles, countTriangles, params);
+    HACD_FREE(vertices);
+    return ret;
+  }
+
+  uint32_t GetNConvexHulls() const override final
+  {
+    processPendingMessages();
+    return mHullCount;
+  }
+
+  void Clean(void) override final  // release internally allocated memory
+  {
+    Cancel();
+    releaseHACD();
+    mVHACD->Clean();
+  }
+
+  void Release(void) override final  // release IVHACD
+  {
+    delete this;
+  }
+
+  bool OCLInit(void* const oclDevice, IVHACD::IUserLogger* const logger = nullptr) override final
+  {
+    return mVHACD->OCLInit(oclDevice, logger);
+  }
+
+  bool OCLRelease(IVHACD::IUserLogger* const logger = nullptr) override final { return mVHACD->OCLRelease(logger); }
+  void Update(const double overallProgress,
+              const double stageProgress,
+              const double operationProgress,
+              const char* const stage,
+              const char* const operation) override final
+  {
+    mMessageMutex.lock();
+    mHaveUpdateMessage = true;
+    mOverallProgress = overallProgress;
+    mStageProgress = stageProgress;
+    mOperationProgress = operationProgress;
+    mStage = std::string(stage);
+    mOperation = std::string(operation);
+    mMessageMutex.unlock();
+  }
+
+  void Log(const char* const msg) override final
+  {
+    mMessageMutex.lock();
+    mHaveLogMessage = true;
+    mMessage = std::string(msg);
+    mMessageMutex.unlock();
+  }
+
+  bool IsReady(void) const override final
+  {
+    processPendingMessages();
+    return !mRunning;
+  }
+
+  // As a convenience for the calling application we only send it update and log messages from it's own main
+  // thread.  This reduces the complexity burden on the caller by making sure it only has to deal with log
+  // messages in it's main application thread.
+  void processPendingMessages(void) const
+  {
+    // If we have a new update message and the user has specified a callback we send the message and clear the semaphore
+    if (mHaveUpdateMessage && mCallback)
+    {
+      mMessageMutex.lock();
+      mCallback->Update(mOverallProgress, mStageProgress, mOperationProgress, mStage.c_str(), mOperation.c_str());
+      mHaveUpdateMessage = false;
+      mMessageMutex.unlock();
+    }
+    // If we have a new log message and the user has specified a callback we send the message and clear the semaphore
+    if (mHaveLogMessage && mLogger)
+    {
+      mMessageMutex.lock();
+      mLogger->Log(mMessage.c_str());
+      mHaveLogMessage = false;
+      mMessageMutex.unlock();
+    }
+  }
+
+  // Will compute the center of mass of the convex hull decomposition results and return it
+  // in 'centerOfMass'.  Returns false if the center of mass could not be computed.
+  bool ComputeCenterOfMass(double centerOfMass[3]) const override
+  {
+    bool ret = false;
+
+    centerOfMass[0] = 0;
+    centerOfMass[1] = 0;
+    centerOfMass[2] = 0;
+
+    if (mVHACD && IsReady())
+    {
+      ret = mVHACD->ComputeCenterOfMass(centerOfMass);
+    }
+    return ret;
+  }
+
+private:
+  double* mVertices{ nullptr };
+  uint32_t* mIndices{ nullptr };
+  std::atomic<uint32_t> mHullCount{ 0 };
+  VHACD::IVHACD::ConvexHull* mHulls{ nullptr };
+  VHACD::IVHACD::IUserCallback* mCallback{ nullptr };
+  VHACD::IVHACD::IUserLogger* mLogger{ nullptr };
+  VHACD::IVHACD* mVHACD{ nullptr };
+  std::thread* mThread{ nullptr };
+  std::atomic<bool> mRunning{ false };
+  std::atomic<bool> mCancel{ false };
+
+  // Thread safe caching mechanism for messages and update status.
+  // This is so that caller always gets messages in his own thread
+  // Member variables are marked as 'mutable' since the message dispatch function
+  // is called from const query methods.
+  mutable std::mutex mMessageMutex;
+  mutable std::atomic<bool> mHaveUpdateMessage{ false };
+  mutable std::atomic<bool> mHaveLogMessage{ false };
+  mutable double mOverallProgress{ 0 };
+  mutable double mStageProgress{ 0 };
+  mutable double mOperationProgress{ 0 };
+  mutable std::string mStage;
+  mutable std::string mOperation;
+  mutable std::string mMessage;
+};
+
+IVHACD* CreateVHACD_ASYNC(void)
+{
+  MyHACD_API* m = new MyHACD_API;
+  return static_cast<IVHACD*>(m);
+}
+
+};  // namespace VHACD
-- 
2.43.0


From 3011fed56dd9069d9e883ec4c4240bff7ad0c63e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:41 +0000
Subject: [PATCH 42/76] fix: the last messages of a background decomposition
 are delivered before it is reported ready

---
 trajopt_ext/vhacd/src/VHACD-ASYNC.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trajopt_ext/vhacd/src/VHACD-ASYNC.cpp b/trajopt_ext/vhacd/src/VHACD-ASYNC.cpp
index beff232..5b1735b 100644
--- a/trajopt_ext/vhacd/src/VHACD-ASYNC.cpp
+++ b/trajopt_ext/vhacd/src/VHACD-ASYNC.cpp
@@ -234,8 +234,9 @@ public:
 
   bool IsReady(void) const override final
   {
+    const bool running = mRunning;  // read first, so that a message sent before the end is delivered below
     processPendingMessages();
-    return !mRunning;
+    return !running;
   }
 
   // As a convenience for the calling application we only send it update and log messages from it's own main
-- 
2.43.0


From d75bb0628e38eab8a0d53b018388e481a11b74b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:41 +0000
Subject: [PATCH 43/76] fix: the callbacks of a background decomposition are
 set before its thread starts and get its own messages only

---
 trajopt_ext/vhacd/src/VHACD-ASYNC.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/trajopt_ext/vhacd/src/VHACD-ASYNC.cpp b/trajopt_ext/vhacd/src/VHACD-ASYNC.cpp
index 5b1735b..02f67d3 100644
--- a/trajopt_ext/vhacd/src/VHACD-ASYNC.cpp
+++ b/trajopt_ext/vhacd/src/VHACD-ASYNC.cpp
@@ -43,6 +43,11 @@ public:
     mIndices = (uint32_t*)HACD_ALLOC(sizeof(uint32_t) * countTriangles * 3);
     memcpy(mVertices, _points, sizeof(double) * countPoints * 3);
     memcpy(mIndices, _triangles, sizeof(uint32_t) * countTriangles * 3);
+    mCallback = _desc.m_callback;
+    mLogger = _desc.m_logger;
+    // messages of the previous request must not reach the callbacks of this one
+    mHaveUpdateMessage = false;
+    mHaveLogMessage = false;
     mRunning = true;
     mThread = new std::thread([this, countPoints, countTriangles, _desc]() {
       ComputeNow(mVertices, countPoints, mIndices, countTriangles, _desc);
@@ -50,6 +55,8 @@ public:
     });
 #else
     releaseHACD();
+    mCallback = _desc.m_callback;
+    mLogger = _desc.m_logger;
     ComputeNow(_points, countPoints, _triangles, countTriangles, _desc);
 #endif
     return true;
@@ -64,8 +71,6 @@ public:
     uint32_t ret = 0;
 
     mHullCount = 0;
-    mCallback = _desc.m_callback;
-    mLogger = _desc.m_logger;
 
     IVHACD::Parameters desc = _desc;
     // Set our intercepting callback interfaces if non-null
-- 
2.43.0


From eda0152ce40a12e12f41303aecd89b0545014599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:41 +0000
Subject: [PATCH 44/76] fix: a callback of a background decomposition can
 cancel it

---
 trajopt_ext/vhacd/src/VHACD-ASYNC.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/trajopt_ext/vhacd/src/VHACD-ASYNC.cpp b/trajopt_ext/vhacd/src/VHACD-ASYNC.cpp
index 02f67d3..89c0e0a 100644
--- a/trajopt_ext/vhacd/src/VHACD-ASYNC.cpp
+++ b/trajopt_ext/vhacd/src/VHACD-ASYNC.cpp
@@ -253,17 +253,24 @@ public:
     if (mHaveUpdateMessage && mCallback)
     {
       mMessageMutex.lock();
-      mCallback->Update(mOverallProgress, mStageProgress, mOperationProgress, mStage.c_str(), mOperation.c_str());
+      const double overallProgress = mOverallProgress;
+      const double stageProgress = mStageProgress;
+      const double operationProgress = mOperationProgress;
+      const std::string stage = mStage;
+      const std::string operation = mOperation;
       mHaveUpdateMessage = false;
       mMessageMutex.unlock();
+      // not under the lock: the callback may call back into this object, for example to cancel
+      mCallback->Update(overallProgress, stageProgress, operationProgress, stage.c_str(), operation.c_str());
     }
     // If we have a new log message and the user has specified a callback we send the message and clear the semaphore
     if (mHaveLogMessage && mLogger)
     {
       mMessageMutex.lock();
-      mLogger->Log(mMessage.c_str());
+      const std::string message = mMessage;
       mHaveLogMessage = false;
       mMessageMutex.unlock();
+      mLogger->Log(message.c_str());
     }
   }
 
-- 
2.43.0


From baa1a570ab6032b533de626a41758e96fb461827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:41 +0000
Subject: [PATCH 45/76] fix: a cancellation that arrives before the background
 decomposition has started is not lost

---
 trajopt_ext/vhacd/src/VHACD-ASYNC.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/trajopt_ext/vhacd/src/VHACD-ASYNC.cpp b/trajopt_ext/vhacd/src/VHACD-ASYNC.cpp
index 89c0e0a..c8b358d 100644
--- a/trajopt_ext/vhacd/src/VHACD-ASYNC.cpp
+++ b/trajopt_ext/vhacd/src/VHACD-ASYNC.cpp
@@ -74,7 +74,8 @@ public:
 
     IVHACD::Parameters desc = _desc;
     // Set our intercepting callback interfaces if non-null
-    desc.m_callback = desc.m_callback ? this : nullptr;
+    // (the progress callback is always intercepted, it also passes on a request to cancel)
+    desc.m_callback = this;
     desc.m_logger = desc.m_logger ? this : nullptr;
 
     if (countPoints)
@@ -102,6 +103,10 @@ public:
           mHulls[i] = h;
           if (mCancel)
           {
+            for (uint32_t j = 0; j <= i; j++)
+            {
+              releaseHull(mHulls[j]);
+            }
             ret = 0;
             break;
           }
@@ -154,6 +159,7 @@ public:
   {
     if (mRunning)
     {
+      mCancel = true;    // the base VHACD forgets a cancel signal that is set before it has started, see Update
       mVHACD->Cancel();  // Set the cancel signal to the base VHACD
     }
     if (mThread)
@@ -219,6 +225,10 @@ public:
               const char* const stage,
               const char* const operation) override final
   {
+    if (mCancel)
+    {
+      mVHACD->Cancel();
+    }
     mMessageMutex.lock();
     mHaveUpdateMessage = true;
     mOverallProgress = overallProgress;
-- 
2.43.0


From ae39a4a9c186a1169ef0a9c9d5ffbb18fed906d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:13 +0000
Subject: [PATCH 46/76] fix: the centre of mass of an earlier background
 decomposition is not reported for the latest

---
 trajopt_ext/vhacd/src/VHACD-ASYNC.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trajopt_ext/vhacd/src/VHACD-ASYNC.cpp b/trajopt_ext/vhacd/src/VHACD-ASYNC.cpp
index c8b358d..e131d18 100644
--- a/trajopt_ext/vhacd/src/VHACD-ASYNC.cpp
+++ b/trajopt_ext/vhacd/src/VHACD-ASYNC.cpp
@@ -294,7 +294,8 @@ public:
     centerOfMass[1] = 0;
     centerOfMass[2] = 0;
 
-    if (mVHACD && IsReady())
+    // (without hulls the base VHACD may still hold those of an earlier request)
+    if (mVHACD && IsReady() && mHullCount > 0)
     {
       ret = mVHACD->ComputeCenterOfMass(centerOfMass);
     }
-- 
2.43.0


From a51071b75962a5c2bf9f5f2e63a48923c6759fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:42 +0000
Subject: [PATCH 47/76] fix: the second side of the hull of three points is a
 triangle

---
 trajopt_ext/vhacd/src/vhacdICHull.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trajopt_ext/vhacd/src/vhacdICHull.cpp b/trajopt_ext/vhacd/src/vhacdICHull.cpp
index 8ef3d0b..45ee2a6 100644
--- a/trajopt_ext/vhacd/src/vhacdICHull.cpp
+++ b/trajopt_ext/vhacd/src/vhacdICHull.cpp
@@ -86,7 +86,7 @@ ICHullError ICHull::Process()
     t1->GetData().m_vertices[1] = v1;
     t1->GetData().m_vertices[2] = v2;
     t2->GetData().m_vertices[0] = v1;
-    t2->GetData().m_vertices[1] = v2;
+    t2->GetData().m_vertices[1] = v0;
     t2->GetData().m_vertices[2] = v2;
     return ICHullErrorOK;
   }
-- 
2.43.0


From f806ee58d6f11d975c06457a557aa853c778862c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:42 +0000
Subject: [PATCH 48/76] fix: a point that a later point takes off the hull is
 removed from it

---
 trajopt_ext/vhacd/src/vhacdICHull.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/trajopt_ext/vhacd/src/vhacdICHull.cpp b/trajopt_ext/vhacd/src/vhacdICHull.cpp
index 45ee2a6..b7b9026 100644
--- a/trajopt_ext/vhacd/src/vhacdICHull.cpp
+++ b/trajopt_ext/vhacd/src/vhacdICHull.cpp
@@ -754,6 +754,9 @@ bool ICHull::CleanVertices(uint32_t& addedPoints)
       v = v->GetPrev();
     }
   } while (v->GetData().m_tag && v != vHead);
+  // the loop ends before the head, whose mark must not survive either
+  vHead->GetData().m_duplicate = 0;
+  vHead->GetData().m_onHull = false;
   return true;
 }
 void ICHull::Clear()
-- 
2.43.0


From 55106a1c30f60a108d3e2eda0e44ae231ced9612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:39 +0000
Subject: [PATCH 49/76] fix: the voxel bounds are checked against the size of
 their own axis

---
 trajopt_ext/vhacd/include/vhacd/inc/vhacdVolume.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/trajopt_ext/vhacd/include/vhacd/inc/vhacdVolume.h b/trajopt_ext/vhacd/include/vhacd/inc/vhacdVolume.h
index 4ec3af0..ad882ad 100644
--- a/trajopt_ext/vhacd/include/vhacd/inc/vhacdVolume.h
+++ b/trajopt_ext/vhacd/include/vhacd/inc/vhacdVolume.h
@@ -252,15 +252,15 @@ public:
   unsigned char& GetVoxel(const size_t i, const size_t j, const size_t k)
   {
     assert(i < m_dim[0]);
-    assert(j < m_dim[0]);
-    assert(k < m_dim[0]);
+    assert(j < m_dim[1]);
+    assert(k < m_dim[2]);
     return m_data[i + j * m_dim[0] + k * m_dim[0] * m_dim[1]];
   }
   const unsigned char& GetVoxel(const size_t i, const size_t j, const size_t k) const
   {
     assert(i < m_dim[0]);
-    assert(j < m_dim[0]);
-    assert(k < m_dim[0]);
+    assert(j < m_dim[1]);
+    assert(k < m_dim[2]);
     return m_data[i + j * m_dim[0] + k * m_dim[0] * m_dim[1]];
   }
   size_t GetNPrimitivesOnSurf() const { return m_numVoxelsOnSurface; }
-- 
2.43.0


From 53ddb8ad9f1c2bdd44109445bbec3ff7ba178c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:34 +0000
Subject: [PATCH 50/76] fix: a decomposition releases what an earlier one on
 the same engine left

---
 trajopt_ext/vhacd/include/vhacd/inc/vhacdVHACD.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trajopt_ext/vhacd/include/vhacd/inc/vhacdVHACD.h b/trajopt_ext/vhacd/include/vhacd/inc/vhacdVHACD.h
index ea98573..1accd90 100644
--- a/trajopt_ext/vhacd/include/vhacd/inc/vhacdVHACD.h
+++ b/trajopt_ext/vhacd/include/vhacd/inc/vhacdVHACD.h
@@ -325,7 +325,7 @@ private:
                   const uint32_t nTriangles,
                   const Parameters& params)
   {
-    Init();
+    Clean();
     if (params.m_projectHullVertices)
     {
       mRaycastMesh = RaycastMesh::createRaycastMesh(nPoints, points, nTriangles, (const uint32_t*)triangles);
-- 
2.43.0


From eb7d7a173a7987ca2736f2cf760b4e70117e3645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:15 +0000
Subject: [PATCH 51/76] fix: a hull that can not be simplified is kept as it is

---
 trajopt_ext/vhacd/src/VHACD.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/trajopt_ext/vhacd/src/VHACD.cpp b/trajopt_ext/vhacd/src/VHACD.cpp
index 96e0213..76b55c1 100644
--- a/trajopt_ext/vhacd/src/VHACD.cpp
+++ b/trajopt_ext/vhacd/src/VHACD.cpp
@@ -1705,7 +1705,11 @@ void VHACD::SimplifyConvexHull(Mesh* const ch, const size_t nvertices, const dou
   {
     icHull.AddPoints(ch->GetPointsBuffer(), ch->GetNPoints());
   }
-  icHull.Process((uint32_t)nvertices, minVolume);
+  // keep the hull as it is when a simpler one can not be computed
+  if (icHull.Process((uint32_t)nvertices, minVolume) != ICHullErrorOK)
+  {
+    return;
+  }
   TMMesh& mesh = icHull.GetMesh();
   const size_t nT = mesh.GetNTriangles();
   const size_t nV = mesh.GetNVertices();
-- 
2.43.0


From 5c3a57e376a6a658b87ff5a1c99158b994ccd064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:15 +0000
Subject: [PATCH 52/76] fix: the tolerance of the incremental hull is relative
 to the extent of its points

---
 .../vhacd/include/vhacd/inc/vhacdICHull.h     |  4 +++
 trajopt_ext/vhacd/src/vhacdICHull.cpp         | 28 +++++++++++++++----
 2 files changed, 27 insertions(+), 5 deletions(-)

diff --git a/trajopt_ext/vhacd/include/vhacd/inc/vhacdICHull.h b/trajopt_ext/vhacd/include/vhacd/inc/vhacdICHull.h
index 1c34422..dcd7ad8 100644
--- a/trajopt_ext/vhacd/include/vhacd/inc/vhacdICHull.h
+++ b/trajopt_ext/vhacd/include/vhacd/inc/vhacdICHull.h
@@ -100,12 +100,16 @@ private:
   void Clear();
 
 private:
+  //!    Sets the volume below which four of the points are taken to be coplanar, which depends on their extent.
+  void ComputeVolumeTolerance();
+
   static const int32_t sc_dummyIndex;
   TMMesh m_mesh;
   SArray<CircularListElement<TMMEdge>*> m_edgesToDelete;
   SArray<CircularListElement<TMMEdge>*> m_edgesToUpdate;
   SArray<CircularListElement<TMMTriangle>*> m_trianglesToDelete;
   Vec3<double> m_normal;
+  double m_eps;
   bool m_isFlat;
   ICHull(const ICHull& rhs);
 };
diff --git a/trajopt_ext/vhacd/src/vhacdICHull.cpp b/trajopt_ext/vhacd/src/vhacdICHull.cpp
index b7b9026..ff786c5 100644
--- a/trajopt_ext/vhacd/src/vhacdICHull.cpp
+++ b/trajopt_ext/vhacd/src/vhacdICHull.cpp
@@ -31,9 +31,25 @@
 
 namespace VHACD
 {
-const double ICHull::sc_eps = 1.0e-15;
+const double ICHull::sc_eps = 1.0e-14;
 const int32_t ICHull::sc_dummyIndex = std::numeric_limits<int32_t>::max();
-ICHull::ICHull() { m_isFlat = false; }
+ICHull::ICHull()
+{
+  m_eps = 0.0;
+  m_isFlat = false;
+}
+void ICHull::ComputeVolumeTolerance()
+{
+  CircularListElement<TMMVertex>* v = m_mesh.m_vertices.GetHead();
+  Vec3<double> minPos(v->GetData().m_pos);
+  Vec3<double> maxPos(v->GetData().m_pos);
+  for (size_t i = 0; i < m_mesh.GetNVertices(); i++, v = v->GetNext())
+  {
+    v->GetData().m_pos.UpdateMinMax(minPos, maxPos);
+  }
+  const double extent = (maxPos - minPos).GetNorm();
+  m_eps = sc_eps * extent * extent * extent;
+}
 bool ICHull::AddPoints(const Vec3<double>* points, size_t nPoints)
 {
   if (!points)
@@ -96,6 +112,7 @@ ICHullError ICHull::Process()
     m_mesh.m_triangles.Clear();
     m_isFlat = false;
   }
+  ComputeVolumeTolerance();
   if (m_mesh.GetNTriangles() == 0)  // we have to create the first polyhedron
   {
     ICHullError res = DoubleTriangle();
@@ -243,6 +260,7 @@ ICHullError ICHull::Process(const uint32_t nPointsCH, const double minVolume)
     m_isFlat = false;
   }
 
+  ComputeVolumeTolerance();
   if (m_mesh.GetNTriangles() == 0)  // we have to create the first polyhedron
   {
     ICHullError res = DoubleTriangle();
@@ -421,12 +439,12 @@ ICHullError ICHull::DoubleTriangle()
   vertices.GetHead() = v3;
 
   double vol = ComputeVolume4(v0->GetData().m_pos, v1->GetData().m_pos, v2->GetData().m_pos, v3->GetData().m_pos);
-  while (fabs(vol) < sc_eps && !v3->GetNext()->GetData().m_tag)
+  while (fabs(vol) <= m_eps && !v3->GetNext()->GetData().m_tag)
   {
     v3 = v3->GetNext();
     vol = ComputeVolume4(v0->GetData().m_pos, v1->GetData().m_pos, v2->GetData().m_pos, v3->GetData().m_pos);
   }
-  if (fabs(vol) < sc_eps)
+  if (fabs(vol) <= m_eps)
   {
     // compute the barycenter
     Vec3<double> bary(0.0, 0.0, 0.0);
@@ -561,7 +579,7 @@ bool ICHull::ComputePointVolume(double& totalVolume, bool markVisibleFaces)
     ver2.Y() = f->GetData().m_vertices[2]->GetData().m_pos.Y();
     ver2.Z() = f->GetData().m_vertices[2]->GetData().m_pos.Z();
     vol = ComputeVolume4(ver0, ver1, ver2, pos0);
-    if (vol < -sc_eps)
+    if (vol < -m_eps)
     {
       vol = fabs(vol);
       totalVolume += vol;
-- 
2.43.0


From 5e7054e27155be298e1b2e50a20134a571c281cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:06 +0000
Subject: [PATCH 53/76] fix: the voxel size follows the longest side of the
 mesh when two sides are equally long

---
 trajopt_ext/vhacd/include/vhacd/inc/vhacdVolume.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trajopt_ext/vhacd/include/vhacd/inc/vhacdVolume.h b/trajopt_ext/vhacd/include/vhacd/inc/vhacdVolume.h
index ad882ad..abab004 100644
--- a/trajopt_ext/vhacd/include/vhacd/inc/vhacdVolume.h
+++ b/trajopt_ext/vhacd/include/vhacd/inc/vhacdVolume.h
@@ -377,14 +377,14 @@ void Volume::Voxelize(const T* const points,
 
   double d[3] = { m_maxBB[0] - m_minBB[0], m_maxBB[1] - m_minBB[1], m_maxBB[2] - m_minBB[2] };
   double r;
-  if (d[0] > d[1] && d[0] > d[2])
+  if (d[0] >= d[1] && d[0] >= d[2])
   {
     r = d[0];
     m_dim[0] = dim;
     m_dim[1] = 2 + static_cast<size_t>(dim * d[1] / d[0]);
     m_dim[2] = 2 + static_cast<size_t>(dim * d[2] / d[0]);
   }
-  else if (d[1] > d[0] && d[1] > d[2])
+  else if (d[1] >= d[0] && d[1] >= d[2])
   {
     r = d[1];
     m_dim[1] = dim;
-- 
2.43.0


From 44d0acfefbbadcaa62ffc1aefda0689c591faa59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:34 +0000
Subject: [PATCH 54/76] fix: the parts of a cut tetrahedron fill it

---
 trajopt_ext/vhacd/src/vhacdVolume.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trajopt_ext/vhacd/src/vhacdVolume.cpp b/trajopt_ext/vhacd/src/vhacdVolume.cpp
index 9525b72..08e9619 100644
--- a/trajopt_ext/vhacd/src/vhacdVolume.cpp
+++ b/trajopt_ext/vhacd/src/vhacdVolume.cpp
@@ -1375,7 +1375,7 @@ void TetrahedronSet::AddClippedTetrahedra(const Vec3<double> (&pts)[10], const i
         maxVol = v;
       }
     }
-    if (h1 == -1 && Add(tetrahedron1))
+    if (h1 != -1 && Add(tetrahedron1))
     {
       ++m_numTetrahedraOnSurface;
     }
@@ -1459,7 +1459,7 @@ void TetrahedronSet::AddClippedTetrahedra(const Vec3<double> (&pts)[10], const i
     for (int32_t h = 0; h < 4; ++h)
     {
       double v = ComputeVolume4(
-          pts[a0], tetrahedron0.m_pts[tetF[h][0]], tetrahedron0.m_pts[tetF[h][1]], tetrahedron0.m_pts[tetF[h][2]]);
+          pts[a1], tetrahedron0.m_pts[tetF[h][0]], tetrahedron0.m_pts[tetF[h][1]], tetrahedron0.m_pts[tetF[h][2]]);
       if (h == h1)
         continue;
       if (v > maxVol)
-- 
2.43.0


From 51ab743182875faed83d4da15d0193e7d6278b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:34 +0000
Subject: [PATCH 55/76] fix: a plane through a corner of a tetrahedron can be
 cut along

---
 trajopt_ext/vhacd/src/vhacdVolume.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trajopt_ext/vhacd/src/vhacdVolume.cpp b/trajopt_ext/vhacd/src/vhacdVolume.cpp
index 08e9619..bc76488 100644
--- a/trajopt_ext/vhacd/src/vhacdVolume.cpp
+++ b/trajopt_ext/vhacd/src/vhacdVolume.cpp
@@ -1655,7 +1655,8 @@ void TetrahedronSet::Clip(const Plane& plane,
           P1 = tetrahedron.m_pts[edges[j][1]];
           delta = (P0 - P1) * n;
           alpha = -(plane.m_d + (n * P1)) / delta;
-          assert(alpha >= 0.0 && alpha <= 1.0);
+          // an end of the edge may lie on the plane up to rounding
+          alpha = std::min(1.0, std::max(0.0, alpha));
           M = alpha * P0 + (1 - alpha) * P1;
           for (int32_t xx = 0; xx < 3; ++xx)
           {
-- 
2.43.0


From d3f8a28604b3543794c19873e8c1a1f01ec7b6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:34 +0000
Subject: [PATCH 56/76] fix: the search for a plane sees the volumes and points
 of cut tetrahedra

---
 .../vhacd/include/vhacd/inc/vhacdVolume.h     |  1 +
 trajopt_ext/vhacd/src/vhacdVolume.cpp         | 52 ++++++++++++++-----
 2 files changed, 41 insertions(+), 12 deletions(-)

diff --git a/trajopt_ext/vhacd/include/vhacd/inc/vhacdVolume.h b/trajopt_ext/vhacd/include/vhacd/inc/vhacdVolume.h
index abab004..ae68434 100644
--- a/trajopt_ext/vhacd/include/vhacd/inc/vhacdVolume.h
+++ b/trajopt_ext/vhacd/include/vhacd/inc/vhacdVolume.h
@@ -215,6 +215,7 @@ public:
   static const double EPS;
 
 private:
+  void GetPoints(const Plane& plane, const size_t sampling, SArray<Vec3<double> >& points) const;
   void AddClippedTetrahedra(const Vec3<double> (&pts)[10], const int32_t nPts);
 
   size_t m_numTetrahedraOnSurface;
diff --git a/trajopt_ext/vhacd/src/vhacdVolume.cpp b/trajopt_ext/vhacd/src/vhacdVolume.cpp
index bc76488..4fe07e0 100644
--- a/trajopt_ext/vhacd/src/vhacdVolume.cpp
+++ b/trajopt_ext/vhacd/src/vhacdVolume.cpp
@@ -1502,27 +1502,55 @@ void TetrahedronSet::AddClippedTetrahedra(const Vec3<double> (&pts)[10], const i
   }
 }
 
-void TetrahedronSet::Intersect(const Plane& /*plane*/,
-                               SArray<Vec3<double> >* const /*positivePts*/,
-                               SArray<Vec3<double> >* const /*negativePts*/,
-                               const size_t /*sampling*/) const
+void TetrahedronSet::Intersect(const Plane& plane,
+                               SArray<Vec3<double> >* const positivePts,
+                               SArray<Vec3<double> >* const negativePts,
+                               const size_t sampling) const
+{
+  TetrahedronSet positivePart, negativePart;
+  Clip(plane, &positivePart, &negativePart);
+  positivePart.GetPoints(plane, sampling, *positivePts);
+  negativePart.GetPoints(plane, sampling, *negativePts);
+}
+void TetrahedronSet::GetPoints(const Plane& plane, const size_t sampling, SArray<Vec3<double> >& points) const
 {
   const size_t nTetrahedra = m_tetrahedra.Size();
-  if (nTetrahedra == 0)
-    return;
+  size_t s = 0;
+  for (size_t v = 0; v < nTetrahedra; ++v)
+  {
+    const Tetrahedron& tetrahedron = m_tetrahedra[v];
+    bool nearPlane = false;
+    for (int32_t i = 0; i < 4; ++i)
+    {
+      nearPlane = nearPlane || fabs(plane.m_a * tetrahedron.m_pts[i][0] + plane.m_b * tetrahedron.m_pts[i][1] +
+                                    plane.m_c * tetrahedron.m_pts[i][2] + plane.m_d) <= m_scale;
+    }
+    // all the points next to the plane, and a sample of the other ones
+    if (!nearPlane && ++s != sampling)
+    {
+      continue;
+    }
+    if (!nearPlane)
+    {
+      s = 0;
+    }
+    for (int32_t i = 0; i < 4; ++i)
+    {
+      points.PushBack(tetrahedron.m_pts[i]);
+    }
+  }
 }
 void TetrahedronSet::ComputeExteriorPoints(const Plane& /*plane*/,
                                            const Mesh& /*mesh*/,
                                            SArray<Vec3<double> >* const /*exteriorPts*/) const
 {
 }
-void TetrahedronSet::ComputeClippedVolumes(const Plane& /*plane*/,
-                                           double& /*positiveVolume*/,
-                                           double& /*negativeVolume*/) const
+void TetrahedronSet::ComputeClippedVolumes(const Plane& plane, double& positiveVolume, double& negativeVolume) const
 {
-  const size_t nTetrahedra = m_tetrahedra.Size();
-  if (nTetrahedra == 0)
-    return;
+  TetrahedronSet positivePart, negativePart;
+  Clip(plane, &positivePart, &negativePart);
+  positiveVolume = positivePart.ComputeVolume();
+  negativeVolume = negativePart.ComputeVolume();
 }
 
 void TetrahedronSet::SelectOnSurface(PrimitiveSet* const onSurfP) const
-- 
2.43.0


From d207f75a03b8a13fb5cba9726380f29974264de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:27 +0000
Subject: [PATCH 57/76] fix: warm start OSQP with the slacks each row needs

---
 .../trajopt_sqp/src/osqp_eigen_solver.cpp     | 41 +++++++++++--------
 1 file changed, 24 insertions(+), 17 deletions(-)

diff --git a/trajopt_optimizers/trajopt_sqp/src/osqp_eigen_solver.cpp b/trajopt_optimizers/trajopt_sqp/src/osqp_eigen_solver.cpp
index 248674d..a60fc4b 100644
--- a/trajopt_optimizers/trajopt_sqp/src/osqp_eigen_solver.cpp
+++ b/trajopt_optimizers/trajopt_sqp/src/osqp_eigen_solver.cpp
@@ -291,30 +291,37 @@ bool OSQPEigenSolver::setWarmStart(const QPProblem& qp_problem)
   // Set the primal NLP variables
   x0_.head(num_nlp_vars) = nlp_vars;
 
-  // If there are slack variables, compute them from constraint violations
+  // If there are slack variables, compute what each row needs from them to be within its bounds
   if (num_slacks > 0)
   {
-    // Evaluate constraint violations at current NLP variables
-    const Eigen::VectorXd violations = qp_problem.evaluateConvexConstraintViolations(nlp_vars);
-
-    // Get the constraint matrix (row-major)
+    // Get the constraint matrix (row-major), the rows after the constraint rows are the variable bounds
     const trajopt_ifopt::Jacobian& constraint_matrix = qp_problem.getConstraintMatrix();
+    const Eigen::VectorXd& lower = qp_problem.getBoundsLower();
+    const Eigen::VectorXd& upper = qp_problem.getBoundsUpper();
+    const Eigen::Index num_rows = constraint_matrix.rows() - num_vars_;
 
-    for (Eigen::Index k = 0; k < violations.size(); ++k)
+    for (Eigen::Index k = 0; k < num_rows; ++k)
     {
+      // Value of the row with all slack variables at zero
+      double value = 0;
+      for (trajopt_ifopt::Jacobian::InnerIterator it(constraint_matrix, k); it; ++it)
+      {
+        if (it.col() < num_nlp_vars)
+          value += it.value() * nlp_vars(it.col());
+      }
+
+      // What the slack variables have to contribute
+      double missing = 0;
+      if (value < lower(k))
+        missing = lower(k) - value;
+      else if (value > upper(k))
+        missing = upper(k) - value;
+
       for (trajopt_ifopt::Jacobian::InnerIterator it(constraint_matrix, k); it; ++it)
       {
-        const Eigen::Index col_idx = it.col();
-        const double coeff = it.value();
-
-        // Slack variables start at index num_nlp_vars
-        if (col_idx >= num_nlp_vars && std::abs(coeff) > 1e-14)
-        {
-          // Slack is computed as: slack = violation / coefficient
-          double slack = violations(k) / coeff;
-          // Enforce non-negativity constraint on slack variables
-          x0_(col_idx) = std::max(0.0, slack);
-        }
+        // Slack variables start at index num_nlp_vars and are non-negative
+        if (it.col() >= num_nlp_vars && std::abs(it.value()) > 1e-14)
+          x0_(it.col()) = std::max(0.0, missing / it.value());
       }
     }
   }
-- 
2.43.0


From 43b4ffd2777ec71cc79882e596a0477b1fb2ab66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:27 +0000
Subject: [PATCH 58/76] fix: OSQP solver status stayed failed after a later
 successful solve

---
 trajopt_optimizers/trajopt_sqp/src/osqp_eigen_solver.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/trajopt_optimizers/trajopt_sqp/src/osqp_eigen_solver.cpp b/trajopt_optimizers/trajopt_sqp/src/osqp_eigen_solver.cpp
index a60fc4b..206daee 100644
--- a/trajopt_optimizers/trajopt_sqp/src/osqp_eigen_solver.cpp
+++ b/trajopt_optimizers/trajopt_sqp/src/osqp_eigen_solver.cpp
@@ -169,6 +169,7 @@ bool OSQPEigenSolver::solve()
     {
       std::cout << "OSQP Solution: " << solver_->getSolution().transpose().format(format) << '\n';
     }
+    solver_status_ = QPSolverStatus::kInitialized;
     return true;
   }
 
-- 
2.43.0


From 2dcaf347cdc91f99609bf25794d7c480eceb1bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:39 +0000
Subject: [PATCH 59/76] fix: SQP solver reused for a problem of another size
 did not re-initialise its QP solver

---
 .../include/trajopt_sqp/trust_region_sqp_solver.h          | 4 ++++
 .../trajopt_sqp/src/trust_region_sqp_solver.cpp            | 7 +++----
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/trajopt_optimizers/trajopt_sqp/include/trajopt_sqp/trust_region_sqp_solver.h b/trajopt_optimizers/trajopt_sqp/include/trajopt_sqp/trust_region_sqp_solver.h
index f8e8396..e4310ad 100644
--- a/trajopt_optimizers/trajopt_sqp/include/trajopt_sqp/trust_region_sqp_solver.h
+++ b/trajopt_optimizers/trajopt_sqp/include/trajopt_sqp/trust_region_sqp_solver.h
@@ -126,6 +126,10 @@ protected:
   SQPResults results_;
   std::vector<std::shared_ptr<SQPCallback>> callbacks_;
 
+  /** @brief The dimensions the QP solver was last initialized with */
+  Eigen::Index qp_solver_num_vars_{ -1 };
+  Eigen::Index qp_solver_num_cnts_{ -1 };
+
   void constraintMeritCoeffChanged();
 };
 
diff --git a/trajopt_optimizers/trajopt_sqp/src/trust_region_sqp_solver.cpp b/trajopt_optimizers/trajopt_sqp/src/trust_region_sqp_solver.cpp
index 888c5c0..0fb9ffa 100644
--- a/trajopt_optimizers/trajopt_sqp/src/trust_region_sqp_solver.cpp
+++ b/trajopt_optimizers/trajopt_sqp/src/trust_region_sqp_solver.cpp
@@ -207,16 +207,15 @@ bool TrustRegionSQPSolver::stepSQPSolver()
 {
   results_.convexify_iteration++;
 
-  const auto prev_nv = qp_problem->getNumQPVars();
-  const auto prev_nc = qp_problem->getNumQPConstraints();
-
   qp_problem->convexify();
 
   const auto nv = qp_problem->getNumQPVars();
   const auto nc = qp_problem->getNumQPConstraints();
 
   const bool first_time = qp_solver->getSolverStatus() == QPSolverStatus::kUninitialized;
-  const bool dims_changed = (nv != prev_nv || nc != prev_nc);
+  const bool dims_changed = (nv != qp_solver_num_vars_ || nc != qp_solver_num_cnts_);
+  qp_solver_num_vars_ = nv;
+  qp_solver_num_cnts_ = nc;
 
   if (first_time || dims_changed)
   {
-- 
2.43.0


From efadadd902788d4833ebf8d3e52fba0256136b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:39 +0000
Subject: [PATCH 60/76] fix: qpOASES started from scratch with the work limit a
 failed hot start left over

---
 trajopt_sco/src/qpoases_interface.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/trajopt_sco/src/qpoases_interface.cpp b/trajopt_sco/src/qpoases_interface.cpp
index 66b9d80..d549e05 100644
--- a/trajopt_sco/src/qpoases_interface.cpp
+++ b/trajopt_sco/src/qpoases_interface.cpp
@@ -240,6 +240,8 @@ CvxOptStatus qpOASESModel::optimize()
     //      tests pass.
     createSolver();
 
+    // A failed hot start leaves the number of changes it made
+    nWSR = 255;
     val = qpoases_problem_->init(&H_, g_.data(), &A_, lb_.data(), ub_.data(), lbA_.data(), ubA_.data(), nWSR, nullptr);
   }
 
-- 
2.43.0


From 0c157ead7730843eebc54078b5665990010ef15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:24 +0000
Subject: [PATCH 61/76] fix: Cartesian line constraint Jacobian read past its
 rows with fewer than six components

The loops always ran over six rows, and the numeric Jacobian, which only
holds the requested components, was indexed with the component numbers.
setBounds required six limits whatever the number of rows.
---
 .../src/constraints/cartesian_line_constraint.cpp        | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/trajopt_ifopt/src/constraints/cartesian_line_constraint.cpp b/trajopt_ifopt/src/constraints/cartesian_line_constraint.cpp
index 609ecc0..fdd2676 100644
--- a/trajopt_ifopt/src/constraints/cartesian_line_constraint.cpp
+++ b/trajopt_ifopt/src/constraints/cartesian_line_constraint.cpp
@@ -147,7 +147,7 @@ std::vector<Bounds> CartLineConstraint::getBounds() const { return bounds_; }
 
 void CartLineConstraint::setBounds(const std::vector<Bounds>& bounds)
 {
-  assert(bounds.size() == 6);
+  assert(bounds.size() == static_cast<std::size_t>(rows_));
   bounds_ = bounds;
 }
 
@@ -176,14 +176,15 @@ void CartLineConstraint::calcJacobianBlock(Jacobian& jac_block,
       dof_vals_pert(i) = joint_vals(i);
     }
 
-    for (int i = 0; i < 6; i++)
+    // The error difference only holds the requested components
+    for (int i = 0; i < info_.indices.size(); i++)
     {
       jac_block.startVec(i);
       for (int j = 0; j < n_dof_; j++)
       {
         // Each jac_block will be for a single variable but for all timesteps. Therefore we must index down to the
         // correct timestep for this variable
-        jac_block.insertBack(i, position_var_->getIndex() + j) = jac0.coeffRef(info_.indices[i], j);
+        jac_block.insertBack(i, position_var_->getIndex() + j) = jac0(i, j);
       }
     }
   }
@@ -235,7 +236,7 @@ void CartLineConstraint::calcJacobianBlock(Jacobian& jac_block,
     //    Jacobian jac_block = jac0.sparseView();
 
     // This does work but could be faster
-    for (int i = 0; i < 6; i++)
+    for (int i = 0; i < info_.indices.size(); i++)
     {
       jac_block.startVec(i);
       for (int j = 0; j < n_dof_; j++)
-- 
2.43.0


From 77eeacbe684ba39f0041c98e483912a6948d9166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:25 +0000
Subject: [PATCH 62/76] fix: nearest point of a Cartesian line was only right
 for lines of length one in a positive direction

The offset from the start was taken component-wise absolute, its length along
the line was compared with one instead of the length of the line, and used
as the fraction of the turn between the two end orientations.
---
 .../constraints/cartesian_line_constraint.cpp | 20 ++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/trajopt_ifopt/src/constraints/cartesian_line_constraint.cpp b/trajopt_ifopt/src/constraints/cartesian_line_constraint.cpp
index fdd2676..cf40cce 100644
--- a/trajopt_ifopt/src/constraints/cartesian_line_constraint.cpp
+++ b/trajopt_ifopt/src/constraints/cartesian_line_constraint.cpp
@@ -273,36 +273,42 @@ Eigen::Isometry3d CartLineConstraint::getLinePoint(const Eigen::Isometry3d& sour
                                                    const Eigen::Isometry3d& target_tf1,
                                                    const Eigen::Isometry3d& target_tf2) const
 {
-  // distance 1; distance from new pose to first point on line
-  const Eigen::Vector3d d1 = (source_tf.translation() - target_tf1.translation()).array().abs();
+  // vector from the first point on the line to the new pose
+  const Eigen::Vector3d d1 = source_tf.translation() - target_tf1.translation();
 
   // Get the line
   const Eigen::Vector3d line = target_tf2.translation() - target_tf1.translation();
 
   // Point D, the nearest point on line AB to point C, can be found with:
-  // (AC - (AC * AB)) * AB
-  Eigen::Isometry3d line_point;
+  // (AC * AB) * AB
+  Eigen::Isometry3d line_point = Eigen::Isometry3d::Identity();
   const Eigen::Vector3d line_norm = line.normalized();
+  const double length = line.norm();
   const double mag = d1.dot(line_norm);
 
+  // The fraction of the line travelled at the nearest point
+  double fraction{ 0 };
+
   // If point C is not between the line endpoints, set nearest point to endpoint
-  if (mag > 1.0)
+  if (mag > length)
   {
+    fraction = 1;
     line_point.translation() = info_.target_frame_offset2.translation();
   }
-  else if (mag < 0)
+  else if (mag <= 0)
   {
     line_point.translation() = info_.target_frame_offset1.translation();
   }
   else
   {
+    fraction = mag / length;
     line_point.translation() = info_.target_frame_offset1.translation() + mag * line_norm;
   }
 
   // The orientation of the line_point is found using quaternion SLERP
   const Eigen::Quaterniond quat_a(target_tf1.rotation());
   const Eigen::Quaterniond quat_b(target_tf2.rotation());
-  const Eigen::Quaterniond slerp = quat_a.slerp(mag, quat_b);
+  const Eigen::Quaterniond slerp = quat_a.slerp(fraction, quat_b);
   line_point.linear() = slerp.toRotationMatrix();
 
   return line_point;
-- 
2.43.0


From 276da674f5827bbabfd5ed226e6ed7928dbcd9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:53 +0000
Subject: [PATCH 63/76] fix: joint subset of the singularity terms was only
 computed with assertions enabled

The calls that extract the subset and scatter its gradient stood inside
assert(), so builds with NDEBUG used uninitialised joint values.
---
 trajopt/src/kinematic_terms.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/trajopt/src/kinematic_terms.cpp b/trajopt/src/kinematic_terms.cpp
index dd20e24..ad81647 100644
--- a/trajopt/src/kinematic_terms.cpp
+++ b/trajopt/src/kinematic_terms.cpp
@@ -643,10 +643,10 @@ MatrixXd AvoidSingularityJacCalculator::operator()(const VectorXd& var_vals) con
 
 VectorXd AvoidSingularitySubsetErrCalculator::operator()(const VectorXd& var_vals) const
 {
-  UNUSED(var_vals);
   // Get the subset of the input variable values
   VectorXd subset_var_vals(fwd_kin_->numJoints());
-  assert(getSubset(superset_kin_->getJointNames(), var_vals, fwd_kin_->getJointNames(), subset_var_vals) == true);
+  if (!getSubset(superset_kin_->getJointNames(), var_vals, fwd_kin_->getJointNames(), subset_var_vals))
+    throw std::runtime_error("AvoidSingularity: The joints are not a subset of the superset joints.");
 
   // Return the cost using the base class
   return AvoidSingularityErrCalculator::operator()(subset_var_vals);
@@ -654,10 +654,10 @@ VectorXd AvoidSingularitySubsetErrCalculator::operator()(const VectorXd& var_val
 
 MatrixXd AvoidSingularitySubsetJacCalculator::operator()(const VectorXd& var_vals) const
 {
-  UNUSED(var_vals);
   // Calculate the gradient using the subset kinematics
   VectorXd subset_var_vals(fwd_kin_->numJoints());
-  assert(getSubset(superset_kin_->getJointNames(), var_vals, fwd_kin_->getJointNames(), subset_var_vals) == true);
+  if (!getSubset(superset_kin_->getJointNames(), var_vals, fwd_kin_->getJointNames(), subset_var_vals))
+    throw std::runtime_error("AvoidSingularity: The joints are not a subset of the superset joints.");
   MatrixXd subset_jac = AvoidSingularityJacCalculator::operator()(subset_var_vals);
 
   // Create an all-zero gradient that is the size of the superset joints
@@ -666,9 +666,9 @@ MatrixXd AvoidSingularitySubsetJacCalculator::operator()(const VectorXd& var_val
 
   // Update the all-zero superset gradient with the values from the subset gradient
   VectorXd tmp(superset_kin_->numJoints());
-  assert(updateFromSubset(
-             superset_kin_->getJointNames(), superset_jac.row(0), fwd_kin_->getJointNames(), subset_jac.row(0), tmp) ==
-         true);
+  if (!updateFromSubset(
+          superset_kin_->getJointNames(), superset_jac.row(0), fwd_kin_->getJointNames(), subset_jac.row(0), tmp))
+    throw std::runtime_error("AvoidSingularity: The joints are not a subset of the superset joints.");
 
   // Create the output gradient
   MatrixXd jac(1, superset_kin_->numJoints());
-- 
2.43.0


From 9e1991e8a18e25b81509ccba73585f4d3939127b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:22 +0000
Subject: [PATCH 64/76] fix: fixed time steps and joints one past the end, or
 negative, were not refused

---
 trajopt/src/problem_description.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trajopt/src/problem_description.cpp b/trajopt/src/problem_description.cpp
index 6e77143..99e03df 100644
--- a/trajopt/src/problem_description.cpp
+++ b/trajopt/src/problem_description.cpp
@@ -486,7 +486,7 @@ TrajOptProb::Ptr ConstructProblem(const ProblemConstructionInfo& pci)
   {
     for (const int& t_idx : bi.fixed_timesteps)
     {
-      if (init_traj.rows() < t_idx)
+      if (t_idx < 0 || init_traj.rows() <= t_idx)
       {
         PRINT_AND_THROW("Fixed timestep index is outside the bounds of the initial trajectory.");
       }
@@ -510,7 +510,7 @@ TrajOptProb::Ptr ConstructProblem(const ProblemConstructionInfo& pci)
   {
     for (const int& dof_ind : bi.fixed_dofs)
     {
-      if (static_cast<int>(n_dof) < dof_ind)
+      if (dof_ind < 0 || static_cast<int>(n_dof) <= dof_ind)
       {
         PRINT_AND_THROW("DOF(aka Joint) indice is greater than the number of DOF available.");
       }
-- 
2.43.0


From 3c36e8b183103496d3050e365ef2efc68557246f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:03 +0000
Subject: [PATCH 65/76] fix: jerk of a single late time step was asked for
 beyond the end of the trajectory

---
 trajopt/src/problem_description.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trajopt/src/problem_description.cpp b/trajopt/src/problem_description.cpp
index 99e03df..fcfdf4c 100644
--- a/trajopt/src/problem_description.cpp
+++ b/trajopt/src/problem_description.cpp
@@ -1533,7 +1533,7 @@ void JointJerkTermInfo::hatch(TrajOptProb& prob)
     last_step = prob.GetNumSteps() - 1;
   // If only one time step is desired, calculate velocity with next step (5 steps are needed for 1 jerk calculation)
   if (last_step == first_step)
-    last_step += 4;
+    last_step = std::min(last_step + 4, prob.GetNumSteps() - 1);
   if (last_step < first_step)
   {
     const int tmp = first_step;
-- 
2.43.0


From 3752de71a5a79031762a8d45a6bab0f64ca9e043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:25 +0000
Subject: [PATCH 66/76] fix: Cartesian velocity term covering the last step
 read variables past the end of the trajectory

---
 trajopt/src/problem_description.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trajopt/src/problem_description.cpp b/trajopt/src/problem_description.cpp
index fcfdf4c..481fd4d 100644
--- a/trajopt/src/problem_description.cpp
+++ b/trajopt/src/problem_description.cpp
@@ -1022,7 +1022,7 @@ void CartVelTermInfo::hatch(TrajOptProb& prob)
   }
   else if (static_cast<bool>(term_type & TermType::TT_COST) && static_cast<bool>(~(term_type | ~TermType::TT_USE_TIME)))
   {
-    for (int iStep = first_step; iStep <= last_step; ++iStep)
+    for (int iStep = first_step; iStep <= last_step && iStep + 1 < prob.GetNumSteps(); ++iStep)
     {
       auto f = std::make_shared<CartVelErrCalculator>(prob.GetKin(), link, max_displacement);
       auto dfdx = std::make_shared<CartVelJacCalculator>(prob.GetKin(), link, max_displacement);
@@ -1037,7 +1037,7 @@ void CartVelTermInfo::hatch(TrajOptProb& prob)
   }
   else if (static_cast<bool>(term_type & TermType::TT_CNT) && static_cast<bool>(~(term_type | ~TermType::TT_USE_TIME)))
   {
-    for (int iStep = first_step; iStep <= last_step; ++iStep)
+    for (int iStep = first_step; iStep <= last_step && iStep + 1 < prob.GetNumSteps(); ++iStep)
     {
       auto f = std::make_shared<CartVelErrCalculator>(prob.GetKin(), link, max_displacement);
       auto dfdx = std::make_shared<CartVelJacCalculator>(prob.GetKin(), link, max_displacement);
-- 
2.43.0


From e83cb3d54a9cad46771c4bfb5555a08e5b922116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:25 +0000
Subject: [PATCH 67/76] fix: Cartesian velocity constraint did not carry the
 name of its term

---
 trajopt/src/problem_description.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trajopt/src/problem_description.cpp b/trajopt/src/problem_description.cpp
index 481fd4d..b74964a 100644
--- a/trajopt/src/problem_description.cpp
+++ b/trajopt/src/problem_description.cpp
@@ -1047,7 +1047,7 @@ void CartVelTermInfo::hatch(TrajOptProb& prob)
           trajopt_common::concat(prob.GetVarRow(iStep, 0, n_dof), prob.GetVarRow(iStep + 1, 0, n_dof)),
           Eigen::VectorXd::Ones(0),
           sco::INEQ,
-          "CartVel"));
+          name));
     }
   }
   else
-- 
2.43.0


From 7c1ffc368867e28626cd7bb02ce592c222305a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:36 +0000
Subject: [PATCH 68/76] fix: pose term at a time step beyond the trajectory was
 read from JSON without complaint

---
 trajopt/src/problem_description.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/trajopt/src/problem_description.cpp b/trajopt/src/problem_description.cpp
index b74964a..8bb0886 100644
--- a/trajopt/src/problem_description.cpp
+++ b/trajopt/src/problem_description.cpp
@@ -692,6 +692,7 @@ void DynamicCartPoseTermInfo::fromJson(ProblemConstructionInfo& pci, const Json:
 
   const Json::Value& params = v["params"];
   json_marshal::childFromJson(params, timestep, "timestep", pci.basic_info.n_steps - 1);
+  FAIL_IF_FALSE((timestep >= 0) && (timestep < pci.basic_info.n_steps));
   json_marshal::childFromJson(params, pos_coeffs, "pos_coeffs", Eigen::Vector3d(1, 1, 1));
   json_marshal::childFromJson(params, rot_coeffs, "rot_coeffs", Eigen::Vector3d(1, 1, 1));
   json_marshal::childFromJson(params, source_frame, "source_frame");
@@ -839,6 +840,7 @@ void CartPoseTermInfo::fromJson(ProblemConstructionInfo& pci, const Json::Value&
 
   const Json::Value& params = v["params"];
   json_marshal::childFromJson(params, timestep, "timestep", pci.basic_info.n_steps - 1);
+  FAIL_IF_FALSE((timestep >= 0) && (timestep < pci.basic_info.n_steps));
   json_marshal::childFromJson(params, pos_coeffs, "pos_coeffs", Eigen::Vector3d(1, 1, 1));
   json_marshal::childFromJson(params, rot_coeffs, "rot_coeffs", Eigen::Vector3d(1, 1, 1));
   json_marshal::childFromJson(params, source_frame, "source_frame");
-- 
2.43.0


From d475822d7516eae156f327022aa701a61ab4a383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:30 +0000
Subject: [PATCH 69/76] fix: safety margin buffer of a collision term was
 refused from JSON

---
 trajopt/src/problem_description.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/trajopt/src/problem_description.cpp b/trajopt/src/problem_description.cpp
index 8bb0886..79d2662 100644
--- a/trajopt/src/problem_description.cpp
+++ b/trajopt/src/problem_description.cpp
@@ -1707,6 +1707,7 @@ void CollisionTermInfo::fromJson(ProblemConstructionInfo& pci, const Json::Value
                                "fixed_steps",
                                "contact_test_type",
                                "longest_valid_segment_length",
+                               "safety_margin_buffer",
                                "coeffs",
                                "dist_pen",
                                "pairs" };
-- 
2.43.0


From 3ccbcc63ca555ac2d73183ebaa2621b43768ef11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:29 +0000
Subject: [PATCH 70/76] fix: value of joint equality constraints was squared
 while their convex model was linear, far goals were never reached

---
 trajopt/src/trajectory_costs.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/trajopt/src/trajectory_costs.cpp b/trajopt/src/trajectory_costs.cpp
index b3d34a5..978201a 100644
--- a/trajopt/src/trajectory_costs.cpp
+++ b/trajopt/src/trajectory_costs.cpp
@@ -169,8 +169,8 @@ DblVec JointPosEqConstraint::value(const DblVec& xvec)
   // Takes diff b/n the subsequent rows and subtract each row by the targets_ vector
   Eigen::MatrixXd diff =
       (traj.block(first_step_, 0, last_step_ - first_step_ + 1, traj.cols())).rowwise() - targets_.transpose();
-  // Squares it, multiplies it by a diagonal matrix of coefficients, and converts to vector
-  return trajopt_common::toDblVec((diff.array().square()).matrix() * coeffs_.asDiagonal());
+  // Multiplies it by a diagonal matrix of coefficients, and converts to vector
+  return trajopt_common::toDblVec(diff * coeffs_.asDiagonal());
 }
 sco::ConvexConstraints::Ptr JointPosEqConstraint::convex(const DblVec& /*x*/, sco::Model* model)
 {
@@ -410,8 +410,8 @@ DblVec JointVelEqConstraint::value(const DblVec& xvec)
   // Takes diff b/n the subsequent rows and subtract each row by the targets_ vector
   Eigen::MatrixXd diff = (diffAxis0(traj.block(first_step_, 0, last_step_ - first_step_ + 1, traj.cols()))).rowwise() -
                          targets_.transpose();
-  // Squares it, multiplies it by a diagonal matrix of coefficients, and converts to vector
-  return trajopt_common::toDblVec((diff.array().square()).matrix() * coeffs_.asDiagonal());
+  // Multiplies it by a diagonal matrix of coefficients, and converts to vector
+  return trajopt_common::toDblVec(diff * coeffs_.asDiagonal());
 }
 sco::ConvexConstraints::Ptr JointVelEqConstraint::convex(const DblVec& /*x*/, sco::Model* model)
 {
@@ -662,8 +662,8 @@ DblVec JointAccEqConstraint::value(const DblVec& xvec)
   Eigen::MatrixXd diff =
       (diffAxis0(diffAxis0(traj.block(first_step_, 0, last_step_ - first_step_ + 1, traj.cols())))).rowwise() -
       targets_.transpose();
-  // Squares it, multiplies it by a diagonal matrix of coefficients, and converts to vector
-  return trajopt_common::toDblVec((diff.array().square()).matrix() * coeffs_.asDiagonal());
+  // Multiplies it by a diagonal matrix of coefficients, and converts to vector
+  return trajopt_common::toDblVec(diff * coeffs_.asDiagonal());
 }
 sco::ConvexConstraints::Ptr JointAccEqConstraint::convex(const DblVec& /*x*/, sco::Model* model)
 {
@@ -922,8 +922,8 @@ DblVec JointJerkEqConstraint::value(const DblVec& xvec)
       (diffAxis0(diffAxis0(diffAxis0(traj.block(first_step_, 0, last_step_ - first_step_ + 1, traj.cols())))))
           .rowwise() -
       targets_.transpose();
-  // Squares it, multiplies it by a diagonal matrix of coefficients, and converts to vector
-  return trajopt_common::toDblVec((diff.array().square()).matrix() * coeffs_.asDiagonal());
+  // Multiplies it by a diagonal matrix of coefficients, and converts to vector
+  return trajopt_common::toDblVec(diff * coeffs_.asDiagonal());
 }
 sco::ConvexConstraints::Ptr JointJerkEqConstraint::convex(const DblVec& /*x*/, sco::Model* model)
 {
-- 
2.43.0


From 6060087257e89a57cd59486b303f4d2e1ca1ac80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:06 +0000
Subject: [PATCH 71/76] fix: distinct shapes and subshapes of a link shared a
 key and their contacts were merged into one row

---
 trajopt_common/src/collision_utils.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/trajopt_common/src/collision_utils.cpp b/trajopt_common/src/collision_utils.cpp
index 65772ec..ec8e494 100644
--- a/trajopt_common/src/collision_utils.cpp
+++ b/trajopt_common/src/collision_utils.cpp
@@ -64,10 +64,10 @@ std::size_t getHash(const void* parent,
 std::size_t cantorHash(int shape_id, int subshape_id)
 {
   assert(shape_id >= 0);
-  if (subshape_id < 0)
-    return static_cast<std::size_t>(shape_id);
-
-  return static_cast<std::size_t>(1 / 2.0 * (shape_id + subshape_id) * (shape_id + subshape_id + 1) + subshape_id);
+  // A shape without subshape is paired like one before the first subshape, otherwise it shares the value of another pair
+  const auto k1 = static_cast<std::size_t>(shape_id);
+  const auto k2 = (subshape_id < 0) ? std::size_t(0) : static_cast<std::size_t>(subshape_id) + 1;
+  return ((k1 + k2) * (k1 + k2 + 1) / 2) + k2;
 }
 
 void removeInvalidContactResults(tesseract::collision::ContactResultVector& contact_results,
-- 
2.43.0


From e1b99a168713e2584929596c827e750e5bf3fddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:14 +0000
Subject: [PATCH 72/76] fix: the legacy name 'buffer' of the collision margin
 buffer was ignored in YAML

---
 trajopt_common/include/trajopt_common/yaml_extensions.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/trajopt_common/include/trajopt_common/yaml_extensions.h b/trajopt_common/include/trajopt_common/yaml_extensions.h
index 8f3a29c..4f83493 100644
--- a/trajopt_common/include/trajopt_common/yaml_extensions.h
+++ b/trajopt_common/include/trajopt_common/yaml_extensions.h
@@ -126,6 +126,8 @@ struct convert<trajopt_common::TrajOptCollisionConfig>
     // Accept both 'collision_margin_buffer' and legacy alias 'buffer'
     if (const YAML::Node& n = node["collision_margin_buffer"])
       rhs.collision_margin_buffer = n.as<double>();
+    else if (const YAML::Node& legacy = node["buffer"])
+      rhs.collision_margin_buffer = legacy.as<double>();
 
     if (const YAML::Node& n = node["max_num_cnt"])
       rhs.max_num_cnt = n.as<int>();
-- 
2.43.0


From a8ca80c321c0d3ceab28076ae4f81aa5235685ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:30 +0000
Subject: [PATCH 73/76] fix: VHACD-ASYNC.cpp has its CRLF line endings back

Commit 4cf938c converted the whole file to LF by accident; no other change.
---
 trajopt_ext/vhacd/src/VHACD-ASYNC.cpp | 676 +++++++++++++-------------
 1 file changed, 338 insertions(+), 338 deletions(-)

diff --git a/trajopt_ext/vhacd/src/VHACD-ASYNC.cpp b/trajopt_ext/vhacd/src/VHACD-ASYNC.cpp
index e131d18..60ca52e 100644
--- a/trajopt_ext/vhacd/src/VHACD-ASYNC.cpp
+++ b/trajopt_ext/vhacd/src/VHACD-ASYNC.cpp
@@ -1,338 +1,338 @@
-#include "vhacd/VHACD.h"
-#include <stdlib.h>
-#include <string.h>
-#include <stdarg.h>
-#include <thread>
-#include <atomic>
-#include <mutex>
-#include <string>
-#include <float.h>
-
-#define ENABLE_ASYNC 1
-
-#define HACD_ALLOC(x) malloc(x)
-#define HACD_FREE(x) free(x)
-#define HACD_ASSERT(x) assert(x)
-
-namespace VHACD
-{
-class MyHACD_API : public VHACD::IVHACD, public VHACD::IVHACD::IUserCallback, VHACD::IVHACD::IUserLogger
-{
-public:
-  MyHACD_API(void) { mVHACD = VHACD::CreateVHACD(); }
-  virtual ~MyHACD_API(void)
-  {
-    Cancel();  // wait for the background thread before the buffers it uses are released
-    releaseHACD();
-    mVHACD->Release();
-  }
-
-  bool Compute(const double* const _points,
-               const uint32_t countPoints,
-               const uint32_t* const _triangles,
-               const uint32_t countTriangles,
-               const Parameters& _desc) override final
-  {
-#if ENABLE_ASYNC
-    Cancel();  // if we previously had a solution running; cancel it.
-    releaseHACD();
-
-    // We need to copy the input vertices and triangles into our own buffers so we can operate
-    // on them safely from the background thread.
-    mVertices = (double*)HACD_ALLOC(sizeof(double) * countPoints * 3);
-    mIndices = (uint32_t*)HACD_ALLOC(sizeof(uint32_t) * countTriangles * 3);
-    memcpy(mVertices, _points, sizeof(double) * countPoints * 3);
-    memcpy(mIndices, _triangles, sizeof(uint32_t) * countTriangles * 3);
-    mCallback = _desc.m_callback;
-    mLogger = _desc.m_logger;
-    // messages of the previous request must not reach the callbacks of this one
-    mHaveUpdateMessage = false;
-    mHaveLogMessage = false;
-    mRunning = true;
-    mThread = new std::thread([this, countPoints, countTriangles, _desc]() {
-      ComputeNow(mVertices, countPoints, mIndices, countTriangles, _desc);
-      mRunning = false;
-    });
-#else
-    releaseHACD();
-    mCallback = _desc.m_callback;
-    mLogger = _desc.m_logger;
-    ComputeNow(_points, countPoints, _triangles, countTriangles, _desc);
-#endif
-    return true;
-  }
-
-  bool ComputeNow(const double* const points,
-                  const uint32_t countPoints,
-                  const uint32_t* const triangles,
-                  const uint32_t countTriangles,
-                  const Parameters& _desc)
-  {
-    uint32_t ret = 0;
-
-    mHullCount = 0;
-
-    IVHACD::Parameters desc = _desc;
-    // Set our intercepting callback interfaces if non-null
-    // (the progress callback is always intercepted, it also passes on a request to cancel)
-    desc.m_callback = this;
-    desc.m_logger = desc.m_logger ? this : nullptr;
-
-    if (countPoints)
-    {
-      bool ok = mVHACD->Compute(points, countPoints, triangles, countTriangles, desc);
-      if (ok)
-      {
-        ret = mVHACD->GetNConvexHulls();
-        mHulls = new IVHACD::ConvexHull[ret];
-        for (uint32_t i = 0; i < ret; i++)
-        {
-          VHACD::IVHACD::ConvexHull vhull;
-          mVHACD->GetConvexHull(i, vhull);
-          VHACD::IVHACD::ConvexHull h;
-          h.m_nPoints = vhull.m_nPoints;
-          h.m_points = (double*)HACD_ALLOC(sizeof(double) * 3 * h.m_nPoints);
-          memcpy(h.m_points, vhull.m_points, sizeof(double) * 3 * h.m_nPoints);
-          h.m_nTriangles = vhull.m_nTriangles;
-          h.m_triangles = (uint32_t*)HACD_ALLOC(sizeof(uint32_t) * 3 * h.m_nTriangles);
-          memcpy(h.m_triangles, vhull.m_triangles, sizeof(uint32_t) * 3 * h.m_nTriangles);
-          h.m_volume = vhull.m_volume;
-          h.m_center[0] = vhull.m_center[0];
-          h.m_center[1] = vhull.m_center[1];
-          h.m_center[2] = vhull.m_center[2];
-          mHulls[i] = h;
-          if (mCancel)
-          {
-            for (uint32_t j = 0; j <= i; j++)
-            {
-              releaseHull(mHulls[j]);
-            }
-            ret = 0;
-            break;
-          }
-        }
-      }
-    }
-
-    mHullCount = ret;
-    return ret ? true : false;
-  }
-
-  void releaseHull(VHACD::IVHACD::ConvexHull& h)
-  {
-    HACD_FREE((void*)h.m_triangles);
-    HACD_FREE((void*)h.m_points);
-    h.m_triangles = nullptr;
-    h.m_points = nullptr;
-  }
-
-  void GetConvexHull(const uint32_t index, VHACD::IVHACD::ConvexHull& ch) const override final
-  {
-    if (index < mHullCount)
-    {
-      ch = mHulls[index];
-    }
-  }
-
-  void releaseHACD(void)  // release memory associated with the last HACD request
-  {
-    for (uint32_t i = 0; i < mHullCount; i++)
-    {
-      releaseHull(mHulls[i]);
-    }
-    delete[] mHulls;
-    mHulls = nullptr;
-    mHullCount = 0;
-    HACD_FREE(mVertices);
-    mVertices = nullptr;
-    HACD_FREE(mIndices);
-    mIndices = nullptr;
-  }
-
-  virtual void release(void)  // release the HACD_API interface
-  {
-    delete this;
-  }
-
-  virtual uint32_t getHullCount(void) { return mHullCount; }
-  virtual void Cancel() override final
-  {
-    if (mRunning)
-    {
-      mCancel = true;    // the base VHACD forgets a cancel signal that is set before it has started, see Update
-      mVHACD->Cancel();  // Set the cancel signal to the base VHACD
-    }
-    if (mThread)
-    {
-      mThread->join();  // Wait for the thread to fully exit before we delete the instance
-      delete mThread;
-      mThread = nullptr;
-      Log("Convex Decomposition thread canceled\n");
-    }
-    mCancel = false;  // clear the cancel semaphore
-  }
-
-  bool Compute(const float* const points,
-               const uint32_t countPoints,
-               const uint32_t* const triangles,
-               const uint32_t countTriangles,
-               const Parameters& params) override final
-  {
-    double* vertices = (double*)HACD_ALLOC(sizeof(double) * countPoints * 3);
-    const float* source = points;
-    double* dest = vertices;
-    for (uint32_t i = 0; i < countPoints; i++)
-    {
-      dest[0] = source[0];
-      dest[1] = source[1];
-      dest[2] = source[2];
-      dest += 3;
-      source += 3;
-    }
-
-    bool ret = Compute(vertices, countPoints, triangles, countTriangles, params);
-    HACD_FREE(vertices);
-    return ret;
-  }
-
-  uint32_t GetNConvexHulls() const override final
-  {
-    processPendingMessages();
-    return mHullCount;
-  }
-
-  void Clean(void) override final  // release internally allocated memory
-  {
-    Cancel();
-    releaseHACD();
-    mVHACD->Clean();
-  }
-
-  void Release(void) override final  // release IVHACD
-  {
-    delete this;
-  }
-
-  bool OCLInit(void* const oclDevice, IVHACD::IUserLogger* const logger = nullptr) override final
-  {
-    return mVHACD->OCLInit(oclDevice, logger);
-  }
-
-  bool OCLRelease(IVHACD::IUserLogger* const logger = nullptr) override final { return mVHACD->OCLRelease(logger); }
-  void Update(const double overallProgress,
-              const double stageProgress,
-              const double operationProgress,
-              const char* const stage,
-              const char* const operation) override final
-  {
-    if (mCancel)
-    {
-      mVHACD->Cancel();
-    }
-    mMessageMutex.lock();
-    mHaveUpdateMessage = true;
-    mOverallProgress = overallProgress;
-    mStageProgress = stageProgress;
-    mOperationProgress = operationProgress;
-    mStage = std::string(stage);
-    mOperation = std::string(operation);
-    mMessageMutex.unlock();
-  }
-
-  void Log(const char* const msg) override final
-  {
-    mMessageMutex.lock();
-    mHaveLogMessage = true;
-    mMessage = std::string(msg);
-    mMessageMutex.unlock();
-  }
-
-  bool IsReady(void) const override final
-  {
-    const bool running = mRunning;  // read first, so that a message sent before the end is delivered below
-    processPendingMessages();
-    return !running;
-  }
-
-  // As a convenience for the calling application we only send it update and log messages from it's own main
-  // thread.  This reduces the complexity burden on the caller by making sure it only has to deal with log
-  // messages in it's main application thread.
-  void processPendingMessages(void) const
-  {
-    // If we have a new update message and the user has specified a callback we send the message and clear the semaphore
-    if (mHaveUpdateMessage && mCallback)
-    {
-      mMessageMutex.lock();
-      const double overallProgress = mOverallProgress;
-      const double stageProgress = mStageProgress;
-      const double operationProgress = mOperationProgress;
-      const std::string stage = mStage;
-      const std::string operation = mOperation;
-      mHaveUpdateMessage = false;
-      mMessageMutex.unlock();
-      // not under the lock: the callback may call back into this object, for example to cancel
-      mCallback->Update(overallProgress, stageProgress, operationProgress, stage.c_str(), operation.c_str());
-    }
-    // If we have a new log message and the user has specified a callback we send the message and clear the semaphore
-    if (mHaveLogMessage && mLogger)
-    {
-      mMessageMutex.lock();
-      const std::string message = mMessage;
-      mHaveLogMessage = false;
-      mMessageMutex.unlock();
-      mLogger->Log(message.c_str());
-    }
-  }
-
-  // Will compute the center of mass of the convex hull decomposition results and return it
-  // in 'centerOfMass'.  Returns false if the center of mass could not be computed.
-  bool ComputeCenterOfMass(double centerOfMass[3]) const override
-  {
-    bool ret = false;
-
-    centerOfMass[0] = 0;
-    centerOfMass[1] = 0;
-    centerOfMass[2] = 0;
-
-    // (without hulls the base VHACD may still hold those of an earlier request)
-    if (mVHACD && IsReady() && mHullCount > 0)
-    {
-      ret = mVHACD->ComputeCenterOfMass(centerOfMass);
-    }
-    return ret;
-  }
-
-private:
-  double* mVertices{ nullptr };
-  uint32_t* mIndices{ nullptr };
-  std::atomic<uint32_t> mHullCount{ 0 };
-  VHACD::IVHACD::ConvexHull* mHulls{ nullptr };
-  VHACD::IVHACD::IUserCallback* mCallback{ nullptr };
-  VHACD::IVHACD::IUserLogger* mLogger{ nullptr };
-  VHACD::IVHACD* mVHACD{ nullptr };
-  std::thread* mThread{ nullptr };
-  std::atomic<bool> mRunning{ false };
-  std::atomic<bool> mCancel{ false };
-
-  // Thread safe caching mechanism for messages and update status.
-  // This is so that caller always gets messages in his own thread
-  // Member variables are marked as 'mutable' since the message dispatch function
-  // is called from const query methods.
-  mutable std::mutex mMessageMutex;
-  mutable std::atomic<bool> mHaveUpdateMessage{ false };
-  mutable std::atomic<bool> mHaveLogMessage{ false };
-  mutable double mOverallProgress{ 0 };
-  mutable double mStageProgress{ 0 };
-  mutable double mOperationProgress{ 0 };
-  mutable std::string mStage;
-  mutable std::string mOperation;
-  mutable std::string mMessage;
-};
-
-IVHACD* CreateVHACD_ASYNC(void)
-{
-  MyHACD_API* m = new MyHACD_API;
-  return static_cast<IVHACD*>(m);
-}
-
-};  // namespace VHACD
+#include "vhacd/VHACD.h"
+#include <stdlib.h>
+#include <string.h>
+#include <stdarg.h>
+#include <thread>
+#include <atomic>
+#include <mutex>
+#include <string>
+#include <float.h>
+
+#define ENABLE_ASYNC 1
+
+#define HACD_ALLOC(x) malloc(x)
+#define HACD_FREE(x) free(x)
+#define HACD_ASSERT(x) assert(x)
+
+namespace VHACD
+{
+class MyHACD_API : public VHACD::IVHACD, public VHACD::IVHACD::IUserCallback, VHACD::IVHACD::IUserLogger
+{
+public:
+  MyHACD_API(void) { mVHACD = VHACD::CreateVHACD(); }
+  virtual ~MyHACD_API(void)
+  {
+    Cancel();  // wait for the background thread before the buffers it uses are released
+    releaseHACD();
+    mVHACD->Release();
+  }
+
+  bool Compute(const double* const _points,
+               const uint32_t countPoints,
+               const uint32_t* const _triangles,
+               const uint32_t countTriangles,
+               const Parameters& _desc) override final
+  {
+#if ENABLE_ASYNC
+    Cancel();  // if we previously had a solution running; cancel it.
+    releaseHACD();
+
+    // We need to copy the input vertices and triangles into our own buffers so we can operate
+    // on them safely from the background thread.
+    mVertices = (double*)HACD_ALLOC(sizeof(double) * countPoints * 3);
+    mIndices = (uint32_t*)HACD_ALLOC(sizeof(uint32_t) * countTriangles * 3);
+    memcpy(mVertices, _points, sizeof(double) * countPoints * 3);
+    memcpy(mIndices, _triangles, sizeof(uint32_t) * countTriangles * 3);
+    mCallback = _desc.m_callback;
+    mLogger = _desc.m_logger;
+    // messages of the previous request must not reach the callbacks of this one
+    mHaveUpdateMessage = false;
+    mHaveLogMessage = false;
+    mRunning = true;
+    mThread = new std::thread([this, countPoints, countTriangles, _desc]() {
+      ComputeNow(mVertices, countPoints, mIndices, countTriangles, _desc);
+      mRunning = false;
+    });
+#else
+    releaseHACD();
+    mCallback = _desc.m_callback;
+    mLogger = _desc.m_logger;
+    ComputeNow(_points, countPoints, _triangles, countTriangles, _desc);
+#endif
+    return true;
+  }
+
+  bool ComputeNow(const double* const points,
+                  const uint32_t countPoints,
+                  const uint32_t* const triangles,
+                  const uint32_t countTriangles,
+                  const Parameters& _desc)
+  {
+    uint32_t ret = 0;
+
+    mHullCount = 0;
+
+    IVHACD::Parameters desc = _desc;
+    // Set our intercepting callback interfaces if non-null
+    // (the progress callback is always intercepted, it also passes on a request to cancel)
+    desc.m_callback = this;
+    desc.m_logger = desc.m_logger ? this : nullptr;
+
+    if (countPoints)
+    {
+      bool ok = mVHACD->Compute(points, countPoints, triangles, countTriangles, desc);
+      if (ok)
+      {
+        ret = mVHACD->GetNConvexHulls();
+        mHulls = new IVHACD::ConvexHull[ret];
+        for (uint32_t i = 0; i < ret; i++)
+        {
+          VHACD::IVHACD::ConvexHull vhull;
+          mVHACD->GetConvexHull(i, vhull);
+          VHACD::IVHACD::ConvexHull h;
+          h.m_nPoints = vhull.m_nPoints;
+          h.m_points = (double*)HACD_ALLOC(sizeof(double) * 3 * h.m_nPoints);
+          memcpy(h.m_points, vhull.m_points, sizeof(double) * 3 * h.m_nPoints);
+          h.m_nTriangles = vhull.m_nTriangles;
+          h.m_triangles = (uint32_t*)HACD_ALLOC(sizeof(uint32_t) * 3 * h.m_nTriangles);
+          memcpy(h.m_triangles, vhull.m_triangles, sizeof(uint32_t) * 3 * h.m_nTriangles);
+          h.m_volume = vhull.m_volume;
+          h.m_center[0] = vhull.m_center[0];
+          h.m_center[1] = vhull.m_center[1];
+          h.m_center[2] = vhull.m_center[2];
+          mHulls[i] = h;
+          if (mCancel)
+          {
+            for (uint32_t j = 0; j <= i; j++)
+            {
+              releaseHull(mHulls[j]);
+            }
+            ret = 0;
+            break;
+          }
+        }
+      }
+    }
+
+    mHullCount = ret;
+    return ret ? true : false;
+  }
+
+  void releaseHull(VHACD::IVHACD::ConvexHull& h)
+  {
+    HACD_FREE((void*)h.m_triangles);
+    HACD_FREE((void*)h.m_points);
+    h.m_triangles = nullptr;
+    h.m_points = nullptr;
+  }
+
+  void GetConvexHull(const uint32_t index, VHACD::IVHACD::ConvexHull& ch) const override final
+  {
+    if (index < mHullCount)
+    {
+      ch = mHulls[index];
+    }
+  }
+
+  void releaseHACD(void)  // release memory associated with the last HACD request
+  {
+    for (uint32_t i = 0; i < mHullCount; i++)
+    {
+      releaseHull(mHulls[i]);
+    }
+    delete[] mHulls;
+    mHulls = nullptr;
+    mHullCount = 0;
+    HACD_FREE(mVertices);
+    mVertices = nullptr;
+    HACD_FREE(mIndices);
+    mIndices = nullptr;
+  }
+
+  virtual void release(void)  // release the HACD_API interface
+  {
+    delete this;
+  }
+
+  virtual uint32_t getHullCount(void) { return mHullCount; }
+  virtual void Cancel() override final
+  {
+    if (mRunning)
+    {
+      mCancel = true;    // the base VHACD forgets a cancel signal that is set before it has started, see Update
+      mVHACD->Cancel();  // Set the cancel signal to the base VHACD
+    }
+    if (mThread)
+    {
+      mThread->join();  // Wait for the thread to fully exit before we delete the instance
+      delete mThread;
+      mThread = nullptr;
+      Log("Convex Decomposition thread canceled\n");
+    }
+    mCancel = false;  // clear the cancel semaphore
+  }
+
+  bool Compute(const float* const points,
+               const uint32_t countPoints,
+               const uint32_t* const triangles,
+               const uint32_t countTriangles,
+               const Parameters& params) override final
+  {
+    double* vertices = (double*)HACD_ALLOC(sizeof(double) * countPoints * 3);
+    const float* source = points;
+    double* dest = vertices;
+    for (uint32_t i = 0; i < countPoints; i++)
+    {
+      dest[0] = source[0];
+      dest[1] = source[1];
+      dest[2] = source[2];
+      dest += 3;
+      source += 3;
+    }
+
+    bool ret = Compute(vertices, countPoints, triangles, countTriangles, params);
+    HACD_FREE(vertices);
+    return ret;
+  }
+
+  uint32_t GetNConvexHulls() const override final
+  {
+    processPendingMessages();
+    return mHullCount;
+  }
+
+  void Clean(void) override final  // release internally allocated memory
+  {
+    Cancel();
+    releaseHACD();
+    mVHACD->Clean();
+  }
+
+  void Release(void) override final  // release IVHACD
+  {
+    delete this;
+  }
+
+  bool OCLInit(void* const oclDevice, IVHACD::IUserLogger* const logger = nullptr) override final
+  {
+    return mVHACD->OCLInit(oclDevice, logger);
+  }
+
+  bool OCLRelease(IVHACD::IUserLogger* const logger = nullptr) override final { return mVHACD->OCLRelease(logger); }
+  void Update(const double overallProgress,
+              const double stageProgress,
+              const double operationProgress,
+              const char* const stage,
+              const char* const operation) override final
+  {
+    if (mCancel)
+    {
+      mVHACD->Cancel();
+    }
+    mMessageMutex.lock();
+    mHaveUpdateMessage = true;
+    mOverallProgress = overallProgress;
+    mStageProgress = stageProgress;
+    mOperationProgress = operationProgress;
+    mStage = std::string(stage);
+    mOperation = std::string(operation);
+    mMessageMutex.unlock();
+  }
+
+  void Log(const char* const msg) override final
+  {
+    mMessageMutex.lock();
+    mHaveLogMessage = true;
+    mMessage = std::string(msg);
+    mMessageMutex.unlock();
+  }
+
+  bool IsReady(void) const override final
+  {
+    const bool running = mRunning;  // read first, so that a message sent before the end is delivered below
+    processPendingMessages();
+    return !running;
+  }
+
+  // As a convenience for the calling application we only send it update and log messages from it's own main
+  // thread.  This reduces the complexity burden on the caller by making sure it only has to deal with log
+  // messages in it's main application thread.
+  void processPendingMessages(void) const
+  {
+    // If we have a new update message and the user has specified a callback we send the message and clear the semaphore
+    if (mHaveUpdateMessage && mCallback)
+    {
+      mMessageMutex.lock();
+      const double overallProgress = mOverallProgress;
+      const double stageProgress = mStageProgress;
+      const double operationProgress = mOperationProgress;
+      const std::string stage = mStage;
+      const std::string operation = mOperation;
+      mHaveUpdateMessage = false;
+      mMessageMutex.unlock();
+      // not under the lock: the callback may call back into this object, for example to cancel
+      mCallback->Update(overallProgress, stageProgress, operationProgress, stage.c_str(), operation.c_str());
+    }
+    // If we have a new log message and the user has specified a callback we send the message and clear the semaphore
+    if (mHaveLogMessage && mLogger)
+    {
+      mMessageMutex.lock();
+      const std::string message = mMessage;
+      mHaveLogMessage = false;
+      mMessageMutex.unlock();
+      mLogger->Log(message.c_str());
+    }
+  }
+
+  // Will compute the center of mass of the convex hull decomposition results and return it
+  // in 'centerOfMass'.  Returns false if the center of mass could not be computed.
+  bool ComputeCenterOfMass(double centerOfMass[3]) const override
+  {
+    bool ret = false;
+
+    centerOfMass[0] = 0;
+    centerOfMass[1] = 0;
+    centerOfMass[2] = 0;
+
+    // (without hulls the base VHACD may still hold those of an earlier request)
+    if (mVHACD && IsReady() && mHullCount > 0)
+    {
+      ret = mVHACD->ComputeCenterOfMass(centerOfMass);
+    }
+    return ret;
+  }
+
+private:
+  double* mVertices{ nullptr };
+  uint32_t* mIndices{ nullptr };
+  std::atomic<uint32_t> mHullCount{ 0 };
+  VHACD::IVHACD::ConvexHull* mHulls{ nullptr };
+  VHACD::IVHACD::IUserCallback* mCallback{ nullptr };
+  VHACD::IVHACD::IUserLogger* mLogger{ nullptr };
+  VHACD::IVHACD* mVHACD{ nullptr };
+  std::thread* mThread{ nullptr };
+  std::atomic<bool> mRunning{ false };
+  std::atomic<bool> mCancel{ false };
+
+  // Thread safe caching mechanism for messages and update status.
+  // This is so that caller always gets messages in his own thread
+  // Member variables are marked as 'mutable' since the message dispatch function
+  // is called from const query methods.
+  mutable std::mutex mMessageMutex;
+  mutable std::atomic<bool> mHaveUpdateMessage{ false };
+  mutable std::atomic<bool> mHaveLogMessage{ false };
+  mutable double mOverallProgress{ 0 };
+  mutable double mStageProgress{ 0 };
+  mutable double mOperationProgress{ 0 };
+  mutable std::string mStage;
+  mutable std::string mOperation;
+  mutable std::string mMessage;
+};
+
+IVHACD* CreateVHACD_ASYNC(void)
+{
+  MyHACD_API* m = new MyHACD_API;
+  return static_cast<IVHACD*>(m);
+}
+
+};  // namespace VHACD
-- 
2.43.0


From 9aae6d298cc0e575b1fe554b7f1baab764ac03cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:09 +0000
Subject: [PATCH 74/76] fix: the optimisation log passed the time of a step to
 the forward kinematics and named the joints of the whole environment

---
 trajopt/src/file_write_callback.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/trajopt/src/file_write_callback.cpp b/trajopt/src/file_write_callback.cpp
index 289c146..8347d53 100644
--- a/trajopt/src/file_write_callback.cpp
+++ b/trajopt/src/file_write_callback.cpp
@@ -38,10 +38,11 @@ void WriteFile(const std::shared_ptr<std::ofstream>& file,
 {
   // Loop over time steps
   TrajArray traj = getTraj(results.x, vars);
+  const Eigen::Index n_joints = manip->numJoints();  // Without the time column
   for (auto i = 0; i < traj.rows(); i++)
   {
     // Calc/Write joint values
-    Eigen::VectorXd joint_angles(traj.cols());
+    Eigen::VectorXd joint_angles(n_joints);
     for (auto j = 0; j < traj.cols(); j++)
     {
       if (j != 0)
@@ -50,7 +51,8 @@ void WriteFile(const std::shared_ptr<std::ofstream>& file,
       }
       *file << traj(i, j);
 
-      joint_angles(j) = traj(i, j);
+      if (j < n_joints)
+        joint_angles(j) = traj(i, j);
     }
 
     // Calc cartesian pose
@@ -102,7 +104,9 @@ std::function<void(sco::OptProb*, sco::OptResults&)> WriteCallback(std::shared_p
   }
 
   // Write joint names
-  std::vector<std::string> joint_names = prob->GetEnv()->getActiveJointNames();
+  std::vector<std::string> joint_names = prob->GetKin()->getJointNames();
+  if (prob->GetHasTime())
+    joint_names.emplace_back("dt");
   for (std::size_t i = 0; i < joint_names.size(); i++)
   {
     if (i != 0)
-- 
2.43.0


From 554a37e94b25678d9c4430012074e0bd1c4bdd47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:17 +0000
Subject: [PATCH 75/76] fix: the drawn trajectory of a problem with time had
 one value too many per state

---
 trajopt/src/plot_callback.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trajopt/src/plot_callback.cpp b/trajopt/src/plot_callback.cpp
index 8825b16..8980c21 100644
--- a/trajopt/src/plot_callback.cpp
+++ b/trajopt/src/plot_callback.cpp
@@ -44,9 +44,10 @@ void PlotCosts(const std::shared_ptr<tesseract::visualization::Visualization>& p
   }
 
   auto traj = getTraj(results.x, vars);
+  const auto n_joints = static_cast<Eigen::Index>(joint_names.size());  // Without the time column
   tesseract::common::JointTrajectory joint_trajectory;
   for (long i = 0; i < traj.rows(); ++i)
-    joint_trajectory.states.emplace_back(joint_names, traj.row(i));
+    joint_trajectory.states.emplace_back(joint_names, traj.row(i).head(n_joints));
 
   plotter->plotTrajectory(joint_trajectory, state_solver);
   plotter->waitForInput();
-- 
2.43.0


From 34d2af27defc1cc42a5640817e814c5d608b4dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:17 +0000
Subject: [PATCH 76/76] fix: the target of a pose constraint was drawn as if
 its target frame were the world

---
 .../constraints/cartesian_position_constraint.h           | 6 ++++++
 .../src/constraints/cartesian_position_constraint.cpp     | 8 ++++++++
 .../trajopt_sqp/src/callbacks/cartesian_error_plotter.cpp | 2 +-
 3 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/trajopt_ifopt/include/trajopt_ifopt/constraints/cartesian_position_constraint.h b/trajopt_ifopt/include/trajopt_ifopt/constraints/cartesian_position_constraint.h
index 624dc74..4ea3615 100644
--- a/trajopt_ifopt/include/trajopt_ifopt/constraints/cartesian_position_constraint.h
+++ b/trajopt_ifopt/include/trajopt_ifopt/constraints/cartesian_position_constraint.h
@@ -123,6 +123,12 @@ public:
    */
   Eigen::Isometry3d getCurrentPose() const;
 
+  /**
+   * @brief Returns the target pose in world frame given the input kinematic info and the current variable values
+   * @return The target pose, which moves with the target frame
+   */
+  Eigen::Isometry3d getCurrentTargetPose() const;
+
   /** @brief If true, numeric differentiation will be used. Default: true
    *
    * Note: While the logic for using the jacobian from KDL will be used if set to false, this has been buggy. Set this
diff --git a/trajopt_ifopt/src/constraints/cartesian_position_constraint.cpp b/trajopt_ifopt/src/constraints/cartesian_position_constraint.cpp
index 6b6cad3..8d4c4e3 100644
--- a/trajopt_ifopt/src/constraints/cartesian_position_constraint.cpp
+++ b/trajopt_ifopt/src/constraints/cartesian_position_constraint.cpp
@@ -398,4 +398,12 @@ Eigen::Isometry3d CartPosConstraint::getCurrentPose() const
   return transforms_cache_[source_frame_] * source_frame_offset_;
 }
 
+Eigen::Isometry3d CartPosConstraint::getCurrentTargetPose() const
+{
+  transforms_cache_.clear();
+  manip_->calcFwdKin(transforms_cache_, position_var_->value());
+
+  return transforms_cache_[target_frame_] * target_frame_offset_;
+}
+
 }  // namespace trajopt_ifopt
diff --git a/trajopt_optimizers/trajopt_sqp/src/callbacks/cartesian_error_plotter.cpp b/trajopt_optimizers/trajopt_sqp/src/callbacks/cartesian_error_plotter.cpp
index 157b729..e523c8c 100644
--- a/trajopt_optimizers/trajopt_sqp/src/callbacks/cartesian_error_plotter.cpp
+++ b/trajopt_optimizers/trajopt_sqp/src/callbacks/cartesian_error_plotter.cpp
@@ -44,7 +44,7 @@ void CartesianErrorPlottingCallback::plot(const QPProblem& /*problem*/)
   for (const auto& cnt : cart_position_cnts_)
   {
     Eigen::Isometry3d current_pose = cnt->getCurrentPose();
-    Eigen::Isometry3d target_pose = cnt->getTargetPose();
+    Eigen::Isometry3d target_pose = cnt->getCurrentTargetPose();
 
     if (plotter_)
     {
-- 
2.43.0

