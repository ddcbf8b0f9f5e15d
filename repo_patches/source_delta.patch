From f7211847a110db8645ae46e79155a52be0ce7b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:56 +0000
Subject: [PATCH 01/18] fix: numeric_limits<Jet>::min_exponent10 reported
 max_exponent10 of the scalar

---
 include/ceres/jet.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ceres/jet.h b/include/ceres/jet.h
index 3672011..f53c922 100644
--- a/include/ceres/jet.h
+++ b/include/ceres/jet.h
@@ -1373,7 +1373,7 @@ struct numeric_limits<ceres::Jet<T, N>> {
   static constexpr int max_digits10 = std::numeric_limits<T>::max_digits10;
   static constexpr int radix = std::numeric_limits<T>::radix;
   static constexpr int min_exponent = std::numeric_limits<T>::min_exponent;
-  static constexpr int min_exponent10 = std::numeric_limits<T>::max_exponent10;
+  static constexpr int min_exponent10 = std::numeric_limits<T>::min_exponent10;
   static constexpr int max_exponent = std::numeric_limits<T>::max_exponent;
   static constexpr int max_exponent10 = std::numeric_limits<T>::max_exponent10;
   static constexpr bool traps = std::numeric_limits<T>::traps;
-- 
2.43.0


From 4e21534b528908fe42f79c49117d0f4308af4182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:12 +0000
Subject: [PATCH 02/18] fix: RotationMatrixToQuaternion read and wrote out of
 bounds for EigenQuaternionOrder

The negative-trace branch used the positions of the quaternion
coefficients as row/column indices of the rotation matrix.
---
 include/ceres/rotation.h | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/ceres/rotation.h b/include/ceres/rotation.h
index 7062ec3..dca73eb 100644
--- a/include/ceres/rotation.h
+++ b/include/ceres/rotation.h
@@ -470,23 +470,26 @@ void RotationMatrixToQuaternion(
     quaternion[Order::kY] = (R(0, 2) - R(2, 0)) * t;
     quaternion[Order::kZ] = (R(1, 0) - R(0, 1)) * t;
   } else {
-    int i = Order::kW;
+    // Positions of the coefficients of the vector part in the quaternion.
+    constexpr int kVector[3] = {Order::kX, Order::kY, Order::kZ};
+
+    int i = 0;
     if (R(1, 1) > R(0, 0)) {
-      i = Order::kX;
+      i = 1;
     }
 
     if (R(2, 2) > R(i, i)) {
-      i = Order::kY;
+      i = 2;
     }
 
     const int j = (i + 1) % 3;
     const int k = (j + 1) % 3;
     T t = sqrt(R(i, i) - R(j, j) - R(k, k) + T(1.0));
-    quaternion[i + 1] = T(0.5) * t;
+    quaternion[kVector[i]] = T(0.5) * t;
     t = T(0.5) / t;
     quaternion[Order::kW] = (R(k, j) - R(j, k)) * t;
-    quaternion[j + 1] = (R(j, i) + R(i, j)) * t;
-    quaternion[k + 1] = (R(k, i) + R(i, k)) * t;
+    quaternion[kVector[j]] = (R(j, i) + R(i, j)) * t;
+    quaternion[kVector[k]] = (R(k, i) + R(i, k)) * t;
   }
 }
 
-- 
2.43.0


From d2c38087d4f0e68c053e854b29e7353166fc7cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:45 +0000
Subject: [PATCH 03/18] fix: QuaternionToAngleAxis had the wrong derivative at
 quaternion (-1, 0, 0, 0)

Just like next to it, the angle-axis vector there is -2 times the vector
part of the quaternion, not 2 times.
---
 include/ceres/rotation.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/ceres/rotation.h b/include/ceres/rotation.h
index dca73eb..9480b06 100644
--- a/include/ceres/rotation.h
+++ b/include/ceres/rotation.h
@@ -416,12 +416,11 @@ inline void QuaternionToAngleAxis(const T* quaternion, T* angle_axis) {
 
   T k;
   const T sin_theta = hypot(q1, q2, q3);
+  const T& cos_theta = quaternion[Order::kW];
 
   // For quaternions representing non-zero rotation, the conversion
   // is numerically stable.
   if (fpclassify(sin_theta) != FP_ZERO) {
-    const T& cos_theta = quaternion[Order::kW];
-
     // If cos_theta is negative, theta is greater than pi/2, which
     // means that angle for the angle_axis vector which is 2 * theta
     // would be greater than pi.
@@ -442,8 +441,9 @@ inline void QuaternionToAngleAxis(const T* quaternion, T* angle_axis) {
     // For zero rotation, sqrt() will produce NaN in the derivative since
     // the argument is zero.  By approximating with a Taylor series,
     // and truncating at one term, the value and first derivatives will be
-    // computed correctly when Jets are used.
-    k = T(2.0);
+    // computed correctly when Jets are used. The sign is that of cos_theta,
+    // since both q and -q represent the zero rotation.
+    k = copysign(T(2.0), cos_theta);
   }
 
   angle_axis[0] = q1 * k;
-- 
2.43.0


From c5dd176e553348c59f3fcf211fa3a79f7feefebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:03 +0000
Subject: [PATCH 04/18] fix: LineManifold Jacobians scaled the origin part by
 the length of the direction

---
 include/ceres/line_manifold.h | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/ceres/line_manifold.h b/include/ceres/line_manifold.h
index 64b61ba..32c9da3 100644
--- a/include/ceres/line_manifold.h
+++ b/include/ceres/line_manifold.h
@@ -225,15 +225,17 @@ bool LineManifold<AmbientSpaceDimension>::PlusJacobian(
   // Clear the Jacobian as only half of the matrix is not zero.
   jacobian.setZero();
 
-  auto jacobian_d =
+  auto jacobian_o =
       jacobian
           .template topLeftCorner<AmbientSpaceDimension, TangentSpaceDimension>(
               size_, size_ - 1);
-  auto jacobian_o = jacobian.template bottomRightCorner<AmbientSpaceDimension,
+  auto jacobian_d = jacobian.template bottomRightCorner<AmbientSpaceDimension,
                                                         TangentSpaceDimension>(
       size_, size_ - 1);
   internal::ComputeSphereManifoldPlusJacobian(d, &jacobian_d);
-  jacobian_o = jacobian_d;
+  // The update of the origin point does not scale with the length of the
+  // direction vector.
+  jacobian_o = jacobian_d / d.norm();
   return true;
 }
 
@@ -279,15 +281,15 @@ bool LineManifold<AmbientSpaceDimension>::MinusJacobian(
   // Clear the Jacobian as only half of the matrix is not zero.
   jacobian.setZero();
 
-  auto jacobian_d =
+  auto jacobian_o =
       jacobian
           .template topLeftCorner<TangentSpaceDimension, AmbientSpaceDimension>(
               size_ - 1, size_);
-  auto jacobian_o = jacobian.template bottomRightCorner<TangentSpaceDimension,
+  auto jacobian_d = jacobian.template bottomRightCorner<TangentSpaceDimension,
                                                         AmbientSpaceDimension>(
       size_ - 1, size_);
   internal::ComputeSphereManifoldMinusJacobian(d, &jacobian_d);
-  jacobian_o = jacobian_d;
+  jacobian_o = jacobian_d * d.norm();
 
   return true;
 }
-- 
2.43.0


From 1adb5584d8ef7ba66f89adfc300a3df5dc2315bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:50 +0000
Subject: [PATCH 05/18] fix: NumericDiffCostFunction reported success when an
 evaluation for the Jacobian failed

---
 include/ceres/numeric_diff_cost_function.h | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/include/ceres/numeric_diff_cost_function.h b/include/ceres/numeric_diff_cost_function.h
index 5889b70..e4aad2c 100644
--- a/include/ceres/numeric_diff_cost_function.h
+++ b/include/ceres/numeric_diff_cost_function.h
@@ -267,17 +267,15 @@ class NumericDiffCostFunction final
                   parameters_reference_copy[block]);
     }
 
-    internal::EvaluateJacobianForParameterBlocks<kMethod,
-                                                 kNumResiduals,
-                                                 ParameterDims>(
+    return internal::EvaluateJacobianForParameterBlocks<kMethod,
+                                                        kNumResiduals,
+                                                        ParameterDims>(
         functor_.get(),
         residuals,
         options_,
         this->num_residuals(),
         parameters_reference_copy.data(),
         jacobians);
-
-    return true;
   }
 
   const CostFunctor& functor() const { return *functor_; }
-- 
2.43.0


From 9afd205df97d5f7cb80900124f59706141011a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:23 +0000
Subject: [PATCH 06/18] fix: GradientChecker used an uninitialised matrix when
 Manifold::PlusJacobian failed

---
 internal/ceres/gradient_checker.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/ceres/gradient_checker.cc b/internal/ceres/gradient_checker.cc
index dffbba2..195c78c 100644
--- a/internal/ceres/gradient_checker.cc
+++ b/internal/ceres/gradient_checker.cc
@@ -106,7 +106,10 @@ bool EvaluateCostFunction(const CostFunction* function,
       int tangent_size = manifolds.at(i)->TangentSize();
       CHECK_EQ(jacobians->at(i).cols(), ambient_size);
       Matrix ambient_J_tangent(ambient_size, tangent_size);
-      manifolds.at(i)->PlusJacobian(parameters[i], ambient_J_tangent.data());
+      if (!manifolds.at(i)->PlusJacobian(parameters[i],
+                                         ambient_J_tangent.data())) {
+        return false;
+      }
       local_jacobians->at(i).noalias() = jacobians->at(i) * ambient_J_tangent;
     }
   }
-- 
2.43.0


From f14c705b72b7f79cbc6ac48a203dc8f1fa1f6e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:30 +0000
Subject: [PATCH 07/18] fix: ParameterBlock::IsUpperBounded and IsLowerBounded
 returned the negation

---
 internal/ceres/parameter_block.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/ceres/parameter_block.h b/internal/ceres/parameter_block.h
index a914087..de37642 100644
--- a/internal/ceres/parameter_block.h
+++ b/internal/ceres/parameter_block.h
@@ -130,8 +130,8 @@ class CERES_NO_EXPORT ParameterBlock {
                           : -std::numeric_limits<double>::max());
   }
 
-  bool IsUpperBounded() const { return (upper_bounds_ == nullptr); }
-  bool IsLowerBounded() const { return (lower_bounds_ == nullptr); }
+  bool IsUpperBounded() const { return (upper_bounds_ != nullptr); }
+  bool IsLowerBounded() const { return (lower_bounds_ != nullptr); }
 
   // This parameter block's index in an array.
   int index() const { return index_; }
-- 
2.43.0


From 4605e37a1fb2264613cec09cd5d4312e82cdbb94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:43 +0000
Subject: [PATCH 08/18] fix: DoglegStrategy let the trust region radius grow
 beyond max_trust_region_radius

---
 internal/ceres/dogleg_strategy.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/ceres/dogleg_strategy.cc b/internal/ceres/dogleg_strategy.cc
index ef45a0b..4ff30ea 100644
--- a/internal/ceres/dogleg_strategy.cc
+++ b/internal/ceres/dogleg_strategy.cc
@@ -623,7 +623,8 @@ void DoglegStrategy::StepAccepted(double step_quality) {
   }
 
   if (step_quality > increase_threshold_) {
-    radius_ = std::max(radius_, 3.0 * dogleg_step_norm_);
+    radius_ =
+        std::min(max_radius_, std::max(radius_, 3.0 * dogleg_step_norm_));
   }
 
   // Reduce the regularization multiplier, in the hope that whatever
-- 
2.43.0


From 4c90ae0b1070ceab2564d45903ea379a530a71ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:07 +0000
Subject: [PATCH 09/18] fix: Solver::Summary::num_inner_iteration_steps was one
 too small

TrustRegionMinimizer increments the counter, which starts at -1 (not
summarized) and was never set to zero.
---
 internal/ceres/trust_region_minimizer.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/ceres/trust_region_minimizer.cc b/internal/ceres/trust_region_minimizer.cc
index c2c10f8..7c4df9e 100644
--- a/internal/ceres/trust_region_minimizer.cc
+++ b/internal/ceres/trust_region_minimizer.cc
@@ -151,6 +151,7 @@ void TrustRegionMinimizer::Init(const Minimizer::Options& options,
   solver_summary_->termination_type = NO_CONVERGENCE;
   solver_summary_->num_successful_steps = 0;
   solver_summary_->num_unsuccessful_steps = 0;
+  solver_summary_->num_inner_iteration_steps = 0;
   solver_summary_->is_constrained = options.is_constrained;
 
   CHECK(options_.evaluator != nullptr);
-- 
2.43.0


From cb3d9d4e885323d207710c9139f34bfa341247e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:20 +0000
Subject: [PATCH 10/18] fix: TrustRegionMinimizer declared convergence when no
 candidate point could be computed

When Evaluator::Plus fails, candidate_x_ keeps its previous value, which
is the current point if the last step was successful.  The parameter
tolerance test then saw a step of length zero.
---
 internal/ceres/trust_region_minimizer.cc | 15 +++++++++++----
 internal/ceres/trust_region_minimizer.h  |  2 +-
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/internal/ceres/trust_region_minimizer.cc b/internal/ceres/trust_region_minimizer.cc
index 7c4df9e..59c51f0 100644
--- a/internal/ceres/trust_region_minimizer.cc
+++ b/internal/ceres/trust_region_minimizer.cc
@@ -107,10 +107,14 @@ void TrustRegionMinimizer::Minimize(const Minimizer::Options& options,
       DoLineSearch(x_, gradient_, x_cost_, &delta_);
     }
 
-    ComputeCandidatePointAndEvaluateCost();
+    const bool candidate_point_is_valid =
+        ComputeCandidatePointAndEvaluateCost();
     DoInnerIterationsIfNeeded();
 
-    if (atleast_one_successful_step && ParameterToleranceReached()) {
+    // If there is no candidate point, then there is no step whose length can be
+    // compared with the parameter tolerance.
+    if (candidate_point_is_valid && atleast_one_successful_step &&
+        ParameterToleranceReached()) {
       return;
     }
 
@@ -779,14 +783,16 @@ bool TrustRegionMinimizer::FunctionToleranceReached() {
 // a candidate point, and if for some reason we are unable to evaluate it, we
 // consider it to be a point with very high cost. This allows the user to deal
 // with edge cases/constraints as part of the Manifold and CostFunction objects.
-void TrustRegionMinimizer::ComputeCandidatePointAndEvaluateCost() {
+//
+// Returns false if candidate_x_ could not be computed.
+bool TrustRegionMinimizer::ComputeCandidatePointAndEvaluateCost() {
   if (!evaluator_->Plus(x_.data(), delta_.data(), candidate_x_.data())) {
     if (is_not_silent_) {
       LOG(WARNING) << "x_plus_delta = Plus(x, delta) failed. "
                    << "Treating it as a step with infinite cost";
     }
     candidate_cost_ = std::numeric_limits<double>::max();
-    return;
+    return false;
   }
 
   if (!evaluator_->Evaluate(
@@ -797,6 +803,7 @@ void TrustRegionMinimizer::ComputeCandidatePointAndEvaluateCost() {
     }
     candidate_cost_ = std::numeric_limits<double>::max();
   }
+  return true;
 }
 
 bool TrustRegionMinimizer::IsStepSuccessful() {
diff --git a/internal/ceres/trust_region_minimizer.h b/internal/ceres/trust_region_minimizer.h
index 91f9deb..b754926 100644
--- a/internal/ceres/trust_region_minimizer.h
+++ b/internal/ceres/trust_region_minimizer.h
@@ -65,7 +65,7 @@ class CERES_NO_EXPORT TrustRegionMinimizer final : public Minimizer {
   bool ComputeTrustRegionStep();
 
   bool EvaluateGradientAndJacobian(bool new_evaluation_point);
-  void ComputeCandidatePointAndEvaluateCost();
+  bool ComputeCandidatePointAndEvaluateCost();
 
   void DoLineSearch(const Vector& x,
                     const Vector& gradient,
-- 
2.43.0


From 4ebace91c7d197afe3a2225ac8f34e38096f5d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:37 +0000
Subject: [PATCH 11/18] fix: FindPolynomialRoots returned a NaN root for a *
 x^2

---
 internal/ceres/polynomial.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/ceres/polynomial.cc b/internal/ceres/polynomial.cc
index a0596c6..ebc251c 100644
--- a/internal/ceres/polynomial.cc
+++ b/internal/ceres/polynomial.cc
@@ -158,7 +158,9 @@ void FindQuadraticPolynomialRoots(const Vector& polynomial,
 
   // Real roots.
   if (D >= 0) {
-    if (real != nullptr) {
+    // If b = c = 0, both roots are zero and the expressions below divide by
+    // zero.
+    if (real != nullptr && (b != 0 || sqrt_D != 0)) {
       // Stable quadratic roots according to BKP Horn.
       // http://people.csail.mit.edu/bkph/articles/Quadratics.pdf
       if (b >= 0) {
-- 
2.43.0


From 8ab30413fbcec2c65e89d6d6c108b42e896c98c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:05 +0000
Subject: [PATCH 12/18] fix: WolfeLineSearch discarded the best step when the
 last bracketing evaluation failed

---
 internal/ceres/line_search.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/internal/ceres/line_search.cc b/internal/ceres/line_search.cc
index 039975d..20fda1f 100644
--- a/internal/ceres/line_search.cc
+++ b/internal/ceres/line_search.cc
@@ -616,10 +616,11 @@ bool WolfeLineSearch::BracketingPhase(const FunctionSample& initial_position,
       // Ensure that bracket_low is always set to the step size amongst all
       // those tested which minimizes f() and satisfies the Armijo condition
       // when we terminate due to the 'artificial' max_num_iterations condition.
+      // As the cost never increases from one valid step to the next during
+      // bracketing, this is either the current or the previous step.
       *bracket_low =
-          current.value_is_valid && current.value < bracket_low->value
-              ? current
-              : *bracket_low;
+          current.value_is_valid && current.value < previous.value ? current
+                                                                   : previous;
       break;
     }
     // Either: f(current) is invalid; or, f(current) is valid, but does not
-- 
2.43.0


From b4f59c5ec1cd07c441a22a6cfdc597a2f8a46660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:34 +0000
Subject: [PATCH 13/18] fix: LineSearchMinimizer evaluated the returned
 starting point with the data of another point

When the line search returns to the point it started from, the last point an
EvaluationCallback was told about is a different one, but the evaluator was told
that the evaluation point has not changed.
---
 internal/ceres/line_search_minimizer.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/ceres/line_search_minimizer.cc b/internal/ceres/line_search_minimizer.cc
index 1f0b05b..280976d 100644
--- a/internal/ceres/line_search_minimizer.cc
+++ b/internal/ceres/line_search_minimizer.cc
@@ -356,7 +356,9 @@ void LineSearchMinimizer::Minimize(const Minimizer::Options& options,
       current_state.gradient = optimal_point.vector_gradient;
     } else {
       Evaluator::EvaluateOptions evaluate_options;
-      evaluate_options.new_evaluation_point = false;
+      // The optimal point is the last point the evaluator has seen, unless the
+      // line search returned to its starting point after trying other points.
+      evaluate_options.new_evaluation_point = (optimal_point.x == 0.0);
       if (!evaluator->Evaluate(evaluate_options,
                                optimal_point.vector_x.data(),
                                &(current_state.cost),
-- 
2.43.0


From 907606ab31aa359fdb18f7ef851f2ecaacb1b0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:04 +0000
Subject: [PATCH 14/18] fix: PartitionRangeForParallelFor overflows int for
 large cumulative costs

The sum of the cost limit and the cost of the preceding indices can exceed
INT_MAX even though every cumulative cost fits, in which case feasible
partitions were rejected and the whole range ended up in one segment.
---
 internal/ceres/partition_range_for_parallel_for.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/ceres/partition_range_for_parallel_for.h b/internal/ceres/partition_range_for_parallel_for.h
index 309d7a8..168e74e 100644
--- a/internal/ceres/partition_range_for_parallel_for.h
+++ b/internal/ceres/partition_range_for_parallel_for.h
@@ -33,6 +33,7 @@
 #define CERES_INTERNAL_PARTITION_RANGE_FOR_PARALLEL_FOR_H_
 
 #include <algorithm>
+#include <cstdint>
 #include <vector>
 
 namespace ceres::internal {
@@ -63,7 +64,8 @@ bool MaxPartitionCostIsFeasible(int start,
     if (partition->size() > max_num_partitions) {
       return false;
     }
-    const int target = max_partition_cost + cost_offset;
+    // Sum of two valid costs might not be representable as int
+    const int64_t target = int64_t{max_partition_cost} + cost_offset;
     const int partition_end =
         std::partition_point(
             cumulative_cost_data + partition_start,
-- 
2.43.0


From 2c9c1c18988af749659de09823bdb5d30a6246b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:22 +0000
Subject: [PATCH 15/18] fix: back substitute after an unconverged iterative
 Schur solve

With use_explicit_schur_complement the conjugate gradients solver may stop with
NO_CONVERGENCE, whose solution the trust region minimizer uses. The eliminated
variables were left at zero in that case; the implicit solver back substitutes.
---
 internal/ceres/schur_complement_solver.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/ceres/schur_complement_solver.cc b/internal/ceres/schur_complement_solver.cc
index 4a2fbba..426b3f8 100644
--- a/internal/ceres/schur_complement_solver.cc
+++ b/internal/ceres/schur_complement_solver.cc
@@ -149,7 +149,10 @@ LinearSolver::Summary SchurComplementSolver::SolveImpl(
       SolveReducedLinearSystem(per_solve_options, reduced_solution);
   event_logger.AddEvent("ReducedSolve");
 
-  if (summary.termination_type == LinearSolverTerminationType::SUCCESS) {
+  // The iterative solver may stop before it has converged. Its solution is used
+  // by the minimizer regardless, so the eliminated variables must match it.
+  if (summary.termination_type == LinearSolverTerminationType::SUCCESS ||
+      summary.termination_type == LinearSolverTerminationType::NO_CONVERGENCE) {
     eliminator_->BackSubstitute(
         BlockSparseMatrixData(*A), b, per_solve_options.D, reduced_solution, x);
     event_logger.AddEvent("BackSubstitute");
-- 
2.43.0


From 99b235a9a66ed95605e33c721e9333c1e81ed62d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:42 +0000
Subject: [PATCH 16/18] fix: refine dense solutions with the whole symmetric
 matrix

DenseCholesky takes a matrix of which only the lower triangle is filled in,
and DenseNormalCholeskySolver and BlockRandomAccessDenseMatrix fill in no
more than that. DenseIterativeRefiner multiplied with all of it, so the
residual was that of another system and refinement diverged.
---
 internal/ceres/iterative_refiner.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/ceres/iterative_refiner.cc b/internal/ceres/iterative_refiner.cc
index 54d48f3..1e30183 100644
--- a/internal/ceres/iterative_refiner.cc
+++ b/internal/ceres/iterative_refiner.cc
@@ -91,7 +91,9 @@ void DenseIterativeRefiner::Refine(const int num_cols,
   VectorRef solution(solution_ptr, num_cols);
   std::string ignored_message;
   for (int i = 0; i < max_num_iterations_; ++i) {
-    residual_ = rhs - lhs * solution;
+    // Only the half of lhs that the factorization uses is filled in: the lower
+    // triangle in column-major order, which is the upper one of lhs.
+    residual_ = rhs - lhs.selfadjointView<Eigen::Upper>() * solution;
     // solution += lhs^-1 residual
     cholesky->Solve(residual_.data(), correction_.data(), &ignored_message);
     solution += correction_;
-- 
2.43.0


From 4958e5ffbb54b49d96b228c5ea9b68f9a4947a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:12 +0000
Subject: [PATCH 17/18] fix: refine dense solutions with the matrix, not its
 factorization

EigenDenseCholesky and LAPACKDenseCholesky factorize in place, so the
residuals that RefinedDenseCholesky had computed used the Cholesky factor.
---
 internal/ceres/dense_cholesky.cc | 6 +++---
 internal/ceres/dense_cholesky.h  | 6 ++++--
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/internal/ceres/dense_cholesky.cc b/internal/ceres/dense_cholesky.cc
index 631cfbb..88c1d0d 100644
--- a/internal/ceres/dense_cholesky.cc
+++ b/internal/ceres/dense_cholesky.cc
@@ -329,7 +329,7 @@ RefinedDenseCholesky::~RefinedDenseCholesky() = default;
 
 LinearSolverTerminationType RefinedDenseCholesky::Factorize(
     const int num_cols, double* lhs, std::string* message) {
-  lhs_ = lhs;
+  lhs_ = ConstMatrixRef(lhs, num_cols, num_cols);
   num_cols_ = num_cols;
   return dense_cholesky_->Factorize(num_cols, lhs, message);
 }
@@ -337,14 +337,14 @@ LinearSolverTerminationType RefinedDenseCholesky::Factorize(
 LinearSolverTerminationType RefinedDenseCholesky::Solve(const double* rhs,
                                                         double* solution,
                                                         std::string* message) {
-  CHECK(lhs_ != nullptr);
+  CHECK_GE(num_cols_, 0);
   auto termination_type = dense_cholesky_->Solve(rhs, solution, message);
   if (termination_type != LinearSolverTerminationType::SUCCESS) {
     return termination_type;
   }
 
   iterative_refiner_->Refine(
-      num_cols_, lhs_, rhs, dense_cholesky_.get(), solution);
+      num_cols_, lhs_.data(), rhs, dense_cholesky_.get(), solution);
   return LinearSolverTerminationType::SUCCESS;
 }
 
diff --git a/internal/ceres/dense_cholesky.h b/internal/ceres/dense_cholesky.h
index 4f55c58..049571f 100644
--- a/internal/ceres/dense_cholesky.h
+++ b/internal/ceres/dense_cholesky.h
@@ -42,6 +42,7 @@
 #include "Eigen/Dense"
 #include "ceres/context_impl.h"
 #include "ceres/cuda_buffer.h"
+#include "ceres/internal/eigen.h"
 #include "ceres/linear_solver.h"
 
 #ifndef CERES_NO_CUDA
@@ -188,8 +189,9 @@ class CERES_NO_EXPORT RefinedDenseCholesky final : public DenseCholesky {
  private:
   std::unique_ptr<DenseCholesky> dense_cholesky_;
   std::unique_ptr<DenseIterativeRefiner> iterative_refiner_;
-  double* lhs_ = nullptr;
-  int num_cols_;
+  // A copy, because the factorization may overwrite the matrix it is given.
+  Matrix lhs_;
+  int num_cols_ = -1;
 };
 
 #ifndef CERES_NO_CUDA
-- 
2.43.0


From 0ee7b22ef482a99abde300acdedfd2b40e59fd3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:22 +0000
Subject: [PATCH 18/18] fix: count the entries of the Jacobian in 64 bits

The sizes of the Jacobian were multiplied in an int and accumulated in an
(unsigned) int before they were compared to INT_MAX, and the entries of the E
blocks were never compared, so a Jacobian with too many entries could be
accepted with wrong positions.
---
 internal/ceres/block_jacobian_writer.cc       | 23 ++++++++++++++-----
 .../ceres/compressed_row_jacobian_writer.cc   |  9 +++++---
 2 files changed, 23 insertions(+), 9 deletions(-)

diff --git a/internal/ceres/block_jacobian_writer.cc b/internal/ceres/block_jacobian_writer.cc
index 34cdc1b..912b5aa 100644
--- a/internal/ceres/block_jacobian_writer.cc
+++ b/internal/ceres/block_jacobian_writer.cc
@@ -31,6 +31,8 @@
 #include "ceres/block_jacobian_writer.h"
 
 #include <algorithm>
+#include <cstdint>
+#include <limits>
 #include <memory>
 #include <vector>
 
@@ -75,7 +77,10 @@ bool BuildJacobianLayout(const Program& program,
   // Iterate over all the active residual blocks and determine how many E blocks
   // are there. This will determine where the F blocks start in the jacobian
   // matrix. Also compute the number of jacobian blocks.
-  unsigned int f_block_pos = 0;
+  //
+  // The positions are accumulated in 64 bits, so that they can be compared to
+  // INT_MAX without overflowing.
+  int64_t f_block_pos = 0;
   unsigned int num_jacobian_blocks = 0;
   for (auto* residual_block : residual_blocks) {
     const int num_residuals = residual_block->NumResiduals();
@@ -88,7 +93,13 @@ bool BuildJacobianLayout(const Program& program,
         // Only count blocks for active parameters.
         num_jacobian_blocks++;
         if (parameter_block->index() < num_eliminate_blocks) {
-          f_block_pos += num_residuals * parameter_block->TangentSize();
+          f_block_pos += static_cast<int64_t>(num_residuals) *
+                         parameter_block->TangentSize();
+          if (f_block_pos > std::numeric_limits<int>::max()) {
+            LOG(ERROR)
+                << "Overflow error. Too many entries in the Jacobian matrix.";
+            return false;
+          }
         }
       }
     }
@@ -107,7 +118,7 @@ bool BuildJacobianLayout(const Program& program,
   jacobian_layout->resize(program.NumResidualBlocks());
   jacobian_layout_storage->resize(num_jacobian_blocks);
 
-  int e_block_pos = 0;
+  int64_t e_block_pos = 0;
   int* jacobian_pos = jacobian_layout_storage->data();
   std::vector<std::pair<int, int>> active_parameter_blocks;
   for (int i = 0; i < residual_blocks.size(); ++i) {
@@ -146,10 +157,10 @@ bool BuildJacobianLayout(const Program& program,
       const auto [k, j] = indices;
       ParameterBlock* parameter_block = residual_block->parameter_blocks()[j];
       const int parameter_block_index = parameter_block->index();
-      const int jacobian_block_size =
-          num_residuals * parameter_block->TangentSize();
+      const int64_t jacobian_block_size =
+          static_cast<int64_t>(num_residuals) * parameter_block->TangentSize();
       if (parameter_block_index < num_eliminate_blocks) {
-        jacobian_pos[k] = e_block_pos;
+        jacobian_pos[k] = static_cast<int>(e_block_pos);
         e_block_pos += jacobian_block_size;
       } else {
         jacobian_pos[k] = static_cast<int>(f_block_pos);
diff --git a/internal/ceres/compressed_row_jacobian_writer.cc b/internal/ceres/compressed_row_jacobian_writer.cc
index 95076b7..d5417b5 100644
--- a/internal/ceres/compressed_row_jacobian_writer.cc
+++ b/internal/ceres/compressed_row_jacobian_writer.cc
@@ -31,7 +31,9 @@
 #include "ceres/compressed_row_jacobian_writer.h"
 
 #include <algorithm>
+#include <cstdint>
 #include <iterator>
+#include <limits>
 #include <memory>
 #include <string>
 #include <utility>
@@ -97,16 +99,17 @@ std::unique_ptr<SparseMatrix> CompressedRowJacobianWriter::CreateJacobian()
 
   // Count the number of jacobian nonzeros.
   //
-  // We used an unsigned int here, so that we can compare it INT_MAX without
+  // We use a 64 bit integer here, so that we can compare it to INT_MAX without
   // triggering overflow behaviour.
-  unsigned int num_jacobian_nonzeros = total_num_effective_parameters;
+  int64_t num_jacobian_nonzeros = total_num_effective_parameters;
   for (auto* residual_block : residual_blocks) {
     const int num_residuals = residual_block->NumResiduals();
     const int num_parameter_blocks = residual_block->NumParameterBlocks();
     for (int j = 0; j < num_parameter_blocks; ++j) {
       auto parameter_block = residual_block->parameter_blocks()[j];
       if (!parameter_block->IsConstant()) {
-        num_jacobian_nonzeros += num_residuals * parameter_block->TangentSize();
+        num_jacobian_nonzeros += static_cast<int64_t>(num_residuals) *
+                                 parameter_block->TangentSize();
         if (num_jacobian_nonzeros > std::numeric_limits<int>::max()) {
           LOG(ERROR) << "Unable to create Jacobian matrix: Too many entries in "
                         "the Jacobian matrix. num_jacobian_nonzeros = "
-- 
2.43.0

