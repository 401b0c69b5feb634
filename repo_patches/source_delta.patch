From a2aa67b7ae5206159206ff5f9419706c5edce488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:35:09 +0000
Subject: [PATCH 01/12] fix: make FmpcSolver compile with a dynamic inequality
 dimension

IneqIneqDimMatrix::Identity() without sizes exists for fixed-size matrices only.
---
 nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp b/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
index 42503b1..3d2a58c 100644
--- a/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
+++ b/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
@@ -886,7 +886,8 @@ void FmpcSolver<StateDim, InputDim, IneqDim>::setupMeritFunc()
       merit_func_const += const_func.template lpNorm<1>();
       merit_deriv_const += l1NormDirectionalDeriv(const_func, coeff.C, delta_x);
       merit_deriv_const += l1NormDirectionalDeriv(const_func, coeff.D, delta_u);
-      merit_deriv_const += l1NormDirectionalDeriv(const_func, IneqIneqDimMatrix::Identity().eval(), delta_s);
+      merit_deriv_const += l1NormDirectionalDeriv(
+          const_func, IneqIneqDimMatrix::Identity(s.size(), s.size()).eval(), delta_s);
     }
   }
 
-- 
2.43.0


From de49f57b9d5e2a12bc01b0abdb3beb0c1d0e6fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:10 +0000
Subject: [PATCH 02/12] fix: do not leave unused terminal coefficients
 uninitialized in FmpcSolver

With fixed dimensions, the members of the terminal Coefficient that have no
meaning there were never written but are read by containsNaN(), so a solve
could end in ErrorInBackward depending on leftover memory contents.
---
 nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp b/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
index 3d2a58c..ee76c4e 100644
--- a/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
+++ b/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
@@ -122,6 +122,20 @@ FmpcSolver<StateDim, InputDim, IneqDim>::Coefficient::Coefficient(int state_dim,
 template<int StateDim, int InputDim, int IneqDim>
 FmpcSolver<StateDim, InputDim, IneqDim>::Coefficient::Coefficient(int state_dim)
 {
+  // These are not used in the terminal step, but containsNaN() reads them when their size is fixed
+  A.setZero();
+  B.setZero();
+  C.setZero();
+  D.setZero();
+  Lu.setZero();
+  Luu.setZero();
+  Lxu.setZero();
+  x_bar.setZero();
+  g_bar.setZero();
+  Lu_bar.setZero();
+  k.setZero();
+  K.setZero();
+
   Lx.resize(state_dim);
   Lxx.resize(state_dim, state_dim);
   Lx_bar.resize(state_dim);
-- 
2.43.0


From 60c33fc0780b9d526f08876da40f0ee8e3aedb2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:10 +0000
Subject: [PATCH 03/12] fix: check the initial variable before initializing
 complementarity variables

With init_complementary_variable, sequences of wrong length were accessed out of
bounds and inputs of wrong dimension were passed to the problem before
checkVariable() could reject them.
---
 nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.h   |  3 +++
 nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp | 16 ++++++++++++++--
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.h b/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.h
index e529562..09bdb6f 100644
--- a/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.h
+++ b/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.h
@@ -348,6 +348,9 @@ protected:
   /** \brief Check optimization variables. */
   void checkVariable() const;
 
+  /** \brief Check dimension and non-negativity of complementarity variables. */
+  void checkComplementaryVariable() const;
+
   /** \brief Process one iteration.
       \param iter current iteration
       \return result status
diff --git a/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp b/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
index ee76c4e..8261f31 100644
--- a/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
+++ b/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
@@ -182,6 +182,9 @@ typename FmpcSolver<StateDim, InputDim, IneqDim>::Status FmpcSolver<StateDim, In
   variable_ = initial_variable;
   variable_.print_level = config_.print_level;
 
+  // Check variable_
+  checkVariable();
+
   // Initialize complementarity variables
   if(config_.init_complementary_variable)
   {
@@ -201,8 +204,8 @@ typename FmpcSolver<StateDim, InputDim, IneqDim>::Status FmpcSolver<StateDim, In
     }
   }
 
-  // Check variable_
-  checkVariable();
+  // Check complementarity variables
+  checkComplementaryVariable();
 
   // Setup delta_variable_
   if(delta_variable_.horizon_steps != config_.horizon_steps)
@@ -339,6 +342,15 @@ void FmpcSolver<StateDim, InputDim, IneqDim>::checkVariable() const
                                  + ", time: " + std::to_string(t));
       }
     }
+  }
+}
+
+template<int StateDim, int InputDim, int IneqDim>
+void FmpcSolver<StateDim, InputDim, IneqDim>::checkComplementaryVariable() const
+{
+  // Check element dimension
+  for(int i = 0; i < config_.horizon_steps; i++)
+  {
     if constexpr(IneqDim == Eigen::Dynamic)
     {
       double t = current_t_ + i * problem_->dt();
-- 
2.43.0


From d771e6b6a7233f1dcd8a07ddd4f5bb92c9eb6f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:10 +0000
Subject: [PATCH 04/12] fix: support steps without inequality constraints in
 FmpcSolver

minCoeff() and maxCoeff() are undefined for empty vectors, and the average of
the complementarity products was 0/0 when no step has an inequality.
---
 nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp b/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
index 8261f31..ab7903f 100644
--- a/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
+++ b/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
@@ -410,10 +410,16 @@ typename FmpcSolver<StateDim, InputDim, IneqDim>::Status FmpcSolver<StateDim, In
     for(int i = 0; i < config_.horizon_steps; i++)
     {
       s_nu_ave += variable_.s_list[i].dot(variable_.nu_list[i]);
-      s_nu_min = std::min(s_nu_min, variable_.s_list[i].cwiseProduct(variable_.nu_list[i]).minCoeff());
+      if(variable_.s_list[i].size() > 0)
+      {
+        s_nu_min = std::min(s_nu_min, variable_.s_list[i].cwiseProduct(variable_.nu_list[i]).minCoeff());
+      }
       total_ineq_dim += static_cast<int>(variable_.s_list[i].size());
     }
-    s_nu_ave /= total_ineq_dim;
+    if(total_ineq_dim > 0)
+    {
+      s_nu_ave /= total_ineq_dim;
+    }
 
     double sigma = 0.5;
     // The following equations follow (19.20) in "Nocedal, Wright. Numerical optimization" but does not work
@@ -938,7 +944,10 @@ void FmpcSolver<StateDim, InputDim, IneqDim>::setupMeritFunc()
 
       if(i < config_.horizon_steps)
       {
-        merit_const_scale_ = std::max(merit_const_scale_, variable_.nu_list[i].cwiseAbs().maxCoeff());
+        if(variable_.nu_list[i].size() > 0)
+        {
+          merit_const_scale_ = std::max(merit_const_scale_, variable_.nu_list[i].cwiseAbs().maxCoeff());
+        }
       }
     }
   }
-- 
2.43.0


From 805c0f9f42021d650ca90227e2839ad64bc4abe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:10 +0000
Subject: [PATCH 05/12] fix: do not read the last trace data in FmpcSolver when
 there is none

With max_iter less than 1 and print_level of 3 or more, back() was called on an
empty list.
---
 nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp b/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
index ab7903f..adcb458 100644
--- a/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
+++ b/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
@@ -267,7 +267,7 @@ typename FmpcSolver<StateDim, InputDim, IneqDim>::Status FmpcSolver<StateDim, In
   if(config_.print_level >= 3)
   {
     std::cout << "[FMPC] Solve finised. status: " << static_cast<int>(status)
-              << ", iter: " << trace_data_list_.back().iter << std::endl;
+              << ", iter: " << (trace_data_list_.empty() ? 0 : trace_data_list_.back().iter) << std::endl;
   }
 
   return status;
-- 
2.43.0


From 87b8213c780df07e8e15bdbaa38113e9f0ea2d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:10 +0000
Subject: [PATCH 06/12] fix: do not let DDPSolver report success or accept a
 step on non-finite data

NaN in the derivatives can pass the Cholesky decomposition, is dropped by
std::max in the norm of the feedforward update, and then looks like a small
gradient; a candidate of negative infinite cost was accepted as improvement.
---
 nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp b/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp
index a34bc82..bf1f7ce 100644
--- a/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp
+++ b/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp
@@ -1,6 +1,7 @@
 /* Author: Masaki Murooka */
 
 #include <chrono>
+#include <cmath>
 #include <fstream>
 #include <iostream>
 
@@ -220,7 +221,8 @@ int DDPSolver<StateDim, InputDim>::procOnce(int iter)
     k_rel_norm = std::max(k_rel_norm, k_list_[i].norm() / (control_data_.u_list[i].norm() + 1.0));
   }
   trace_data.k_rel_norm = k_rel_norm;
-  if(k_rel_norm < config_.k_rel_norm_thre && lambda_ < config_.lambda_thre)
+  if(k_rel_norm < config_.k_rel_norm_thre && lambda_ < config_.lambda_thre
+     && std::isfinite(control_data_.cost_list.sum()))
   {
     if(config_.print_level >= 2)
     {
@@ -257,7 +259,8 @@ int DDPSolver<StateDim, InputDim>::procOnce(int iter)
         }
         cost_update_ratio = (cost_update_actual >= 0 ? 1 : -1);
       }
-      if(cost_update_ratio > config_.cost_update_ratio_thre)
+      if(cost_update_ratio > config_.cost_update_ratio_thre
+         && std::isfinite(candidate_control_data_.cost_list.sum()))
       {
         forward_pass_success = true;
         break;
@@ -525,6 +528,16 @@ bool DDPSolver<StateDim, InputDim>::backwardPass()
     Vxx_symmetric = 0.5 * (Vxx + Vxx.transpose());
     Vxx = Vxx_symmetric;
 
+    // Cholesky decomposition does not necessarily detect NaN or infinity
+    if(!(k.allFinite() && K.allFinite() && Vx.allFinite() && Vxx.allFinite()))
+    {
+      if(config_.print_level >= 1)
+      {
+        std::cout << "[DDP/Backward] Gain or cost-to-go contains NaN or infinity." << std::endl;
+      }
+      return false;
+    }
+
     // Save gains
     k_list_[i] = k;
     K_list_[i] = K;
-- 
2.43.0


From 0fa17667d0161b33ddf10ff4b7a9cbdcb607c139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:10 +0000
Subject: [PATCH 07/12] fix: impose the input limits on the inputs in the
 forward pass of DDPSolver

The feedback term could move the inputs out of the limits although
with_input_constraint is set.
---
 nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp b/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp
index bf1f7ce..6cd294d 100644
--- a/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp
+++ b/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp
@@ -558,10 +558,17 @@ void DDPSolver<StateDim, InputDim>::forwardPass(double alpha)
     candidate_control_data_.u_list[i] = control_data_.u_list[i] + alpha * k_list_[i]
                                         + K_list_[i] * (candidate_control_data_.x_list[i] - control_data_.x_list[i]);
 
-    // \todo Impose constraints on input
+    double t = current_t_ + i * problem_->dt();
+
+    // Impose constraints on input
+    if(config_.with_input_constraint && candidate_control_data_.u_list[i].size() > 0)
+    {
+      const auto & u_limits = input_limits_func_(t);
+      candidate_control_data_.u_list[i] =
+          candidate_control_data_.u_list[i].cwiseMax(u_limits[0]).cwiseMin(u_limits[1]).eval();
+    }
 
     // Calculate next state and cost
-    double t = current_t_ + i * problem_->dt();
     candidate_control_data_.x_list[i + 1] =
         problem_->stateEq(t, candidate_control_data_.x_list[i], candidate_control_data_.u_list[i]);
     candidate_control_data_.cost_list[i] =
-- 
2.43.0


From ea0c0bc56de9ee663ba3f2a7489e99704f55ad18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:10 +0000
Subject: [PATCH 08/12] fix: recreate DDPSolver derivatives when
 use_state_eq_second_derivative changes

With a fixed input dimension the elements of an earlier solve were kept, so the
problem was given empty tensors to fill.
---
 nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp b/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp
index 6cd294d..760d493 100644
--- a/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp
+++ b/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp
@@ -75,6 +75,10 @@ bool DDPSolver<StateDim, InputDim>::solve(double current_t,
   else
   {
     // This assumes that the dimension is fixed, but it is efficient because it preserves existing elements
+    if(!derivative_list_.empty() && static_cast<int>(derivative_list_.front().Fxx.size()) != outer_dim)
+    {
+      derivative_list_.clear();
+    }
     derivative_list_.resize(config_.horizon_steps, Derivative(problem_->stateDim(), problem_->inputDim(), outer_dim));
   }
   k_list_.resize(config_.horizon_steps);
-- 
2.43.0


From e7e9ae7511f5058fc72d898104801acf3137fc7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:10 +0000
Subject: [PATCH 09/12] fix: let CgmresSolver log again after an aborted run

open() fails on a stream that is still open, so the log files of a run following
one that was aborted by an exception stayed empty.
---
 nmpc_cgmres/src/CgmresSolver.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/nmpc_cgmres/src/CgmresSolver.cpp b/nmpc_cgmres/src/CgmresSolver.cpp
index a72e0f5..008169b 100644
--- a/nmpc_cgmres/src/CgmresSolver.cpp
+++ b/nmpc_cgmres/src/CgmresSolver.cpp
@@ -65,6 +65,14 @@ void CgmresSolver::setup()
 
 void CgmresSolver::run()
 {
+  // Files are still open if the previous run was aborted by an exception
+  for(std::ofstream * ofs : {&ofs_x_, &ofs_u_, &ofs_err_})
+  {
+    if(ofs->is_open())
+    {
+      ofs->close();
+    }
+  }
   ofs_x_.open("/tmp/cgmres_x.dat");
   ofs_u_.open("/tmp/cgmres_u.dat");
   ofs_err_.open("/tmp/cgmres_err.dat");
-- 
2.43.0


From 97ad14f4df05c1bc0c14fbe0430cb3f3c6f768e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:41 +0000
Subject: [PATCH 10/12] fix: never accept a cost increase in the line search of
 DDPSolver

When the expected update is (negative) zero, for example because all inputs are
at their limits, a cost increase gave the ratio +infinity and was accepted.
---
 nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp b/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp
index 760d493..f6d0b70 100644
--- a/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp
+++ b/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp
@@ -263,7 +263,8 @@ int DDPSolver<StateDim, InputDim>::procOnce(int iter)
         }
         cost_update_ratio = (cost_update_actual >= 0 ? 1 : -1);
       }
-      if(cost_update_ratio > config_.cost_update_ratio_thre
+      // The ratio alone does not tell a cost increase when the expected update is zero
+      if(cost_update_ratio > config_.cost_update_ratio_thre && cost_update_actual >= 0
          && std::isfinite(candidate_control_data_.cost_list.sum()))
       {
         forward_pass_success = true;
-- 
2.43.0


From 3598e11beff2f8f5fe4a14c539630d0c35685f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:49:20 +0000
Subject: [PATCH 11/12] fix: keep the current state when DDPSolver resizes the
 sequence it may refer to

---
 nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp b/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp
index f6d0b70..cb624f0 100644
--- a/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp
+++ b/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp
@@ -85,10 +85,12 @@ bool DDPSolver<StateDim, InputDim>::solve(double current_t,
   K_list_.resize(config_.horizon_steps);
 
   // Initialize state and cost sequence
+  // current_x may refer to an element of control_data_.x_list, which is invalidated by resizing
+  const StateDimVector initial_x = current_x;
   control_data_.u_list = initial_u_list;
   control_data_.x_list.resize(config_.horizon_steps + 1);
   control_data_.cost_list.resize(config_.horizon_steps + 1);
-  control_data_.x_list[0] = current_x;
+  control_data_.x_list[0] = initial_x;
   for(int i = 0; i < config_.horizon_steps; i++)
   {
     double t = current_t_ + i * problem_->dt();
-- 
2.43.0


From f02fd2094717f43f4a03ec75b9a1b7fdf73a771d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:08 +0000
Subject: [PATCH 12/12] fix: stop GMRES when the Krylov subspace is exhausted

---
 nmpc_cgmres/include/nmpc_cgmres/Gmres.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/nmpc_cgmres/include/nmpc_cgmres/Gmres.h b/nmpc_cgmres/include/nmpc_cgmres/Gmres.h
index 2c908c3..07ba4aa 100644
--- a/nmpc_cgmres/include/nmpc_cgmres/Gmres.h
+++ b/nmpc_cgmres/include/nmpc_cgmres/Gmres.h
@@ -4,6 +4,7 @@
 
 #include <functional>
 #include <iostream>
+#include <limits>
 #include <memory>
 #include <vector>
 
@@ -176,6 +177,12 @@ public:
       }
 
       err_list_.push_back(rho);
+
+      // Stop if the Krylov subspace is exhausted, i.e. only rounding errors are left in the new basis
+      if(new_basis.norm() <= std::numeric_limits<double>::epsilon() * Avk.norm())
+      {
+        break;
+      }
     }
 
     if(make_triangular_)
-- 
2.43.0

