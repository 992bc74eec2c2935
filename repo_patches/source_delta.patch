From e27c7456a49aa45f6c96cde59031260151e3e1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:06 +0000
Subject: [PATCH 01/67] fix: order the SVD worker's stop flag and restart with
 its mutex

The worker thread polled the stop flag without holding the mutex that
guards it, and initialize() rewrote shared state while a previous worker
could still be running (data races).
---
 solver/include/solver/rt_optimizer/RtHQPSolver.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/solver/include/solver/rt_optimizer/RtHQPSolver.h b/solver/include/solver/rt_optimizer/RtHQPSolver.h
index 79fc283..dcffcca 100644
--- a/solver/include/solver/rt_optimizer/RtHQPSolver.h
+++ b/solver/include/solver/rt_optimizer/RtHQPSolver.h
@@ -38,13 +38,13 @@ namespace rt_solver {
   template<int All_A_Rows, int Max_Num_Vars, int Max_B_Rows>
   void RtHQPSolver<All_A_Rows, Max_Num_Vars, Max_B_Rows>::initialize()
   {
+    stopSVD2ProblemConverter();
     is_svd_computed_ = true;
     apply_ineq_slacks_ = true;
 
     for (int rank_id=0; rank_id<num_max_ranks_; rank_id++)
       RtMatrixUtils::resize(prev_K_[rank_id], Max_Num_Vars, 0);
 
-    stopSVD2ProblemConverter();
     stop_svd2problem_converter_ = false;
     svd2problem_converter_thread_.reset(new boost::thread(boost::bind( &RtHQPSolver<
       All_A_Rows, Max_Num_Vars, Max_B_Rows>::doSVDComputations, this )) );
@@ -54,7 +54,7 @@ namespace rt_solver {
   template<int All_A_Rows, int Max_Num_Vars, int Max_B_Rows>
   void RtHQPSolver<All_A_Rows, Max_Num_Vars, Max_B_Rows>::doSVDComputations()
   {
-    while (!stop_svd2problem_converter_) {
+    while (true) {
       // wait until svd is required
       mutex_.lock();
       while (!stop_svd2problem_converter_ && is_svd_computed_) { problem2svd_converter_.wait(mutex_); }
-- 
2.43.0


From adbe0f5e4d259ee60c3d2c3bf72bdfa462c94002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:06 +0000
Subject: [PATCH 02/67] fix: do not decompose an empty matrix once no degrees
 of freedom are left

---
 solver/include/solver/rt_optimizer/RtHQPSolver.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solver/include/solver/rt_optimizer/RtHQPSolver.h b/solver/include/solver/rt_optimizer/RtHQPSolver.h
index dcffcca..df511e8 100644
--- a/solver/include/solver/rt_optimizer/RtHQPSolver.h
+++ b/solver/include/solver/rt_optimizer/RtHQPSolver.h
@@ -60,7 +60,7 @@ namespace rt_solver {
       while (!stop_svd2problem_converter_ && is_svd_computed_) { problem2svd_converter_.wait(mutex_); }
       if (stop_svd2problem_converter_) { mutex_.unlock(); break; }
 
-      if(B_Nprev_.rows() != 0) {
+      if(B_Nprev_.rows() != 0 && B_Nprev_.cols() != 0) {
         svd_B_Nprev_.compute(B_Nprev_, Eigen::ComputeFullV);
         RtMatrixUtils::computeNullspaceMap(B_Nprev_, K_, svd_B_Nprev_, eq_condition_threash_);
         prev_K_[cur_rank_] = K_;
-- 
2.43.0


From 92057107939c06c6d2e100e460ec1e09c335ded7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:42 +0000
Subject: [PATCH 03/67] fix: do not let lower ranked tasks worsen violated
 inequalities of higher ranks

The slack of a violated inequality was added after the constraint vector had
been clamped, and kept being added when a task without inequalities followed,
so each later task could violate it further.
---
 solver/include/solver/rt_optimizer/RtHQPSolver.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/solver/include/solver/rt_optimizer/RtHQPSolver.h b/solver/include/solver/rt_optimizer/RtHQPSolver.h
index df511e8..a17a63d 100644
--- a/solver/include/solver/rt_optimizer/RtHQPSolver.h
+++ b/solver/include/solver/rt_optimizer/RtHQPSolver.h
@@ -144,12 +144,12 @@ namespace rt_solver {
         if (Ahat_.cols() != zopt_.rows()) { assert(Ahat_.cols() == zopt_.rows()); }
       #endif
       ahat_ += Ahat_ * zopt_;
+      if (wopt_.rows() != 0) //previous task had inequality constraints
+        ahat_.bottomRows(wopt_.rows()) += wopt_;
+
       for (int id=0; id<ahat_.size(); id++)
         if(ahat_[id] >= -inequality_relaxation_)
           ahat_[id] = -inequality_relaxation_;
-
-      if (wopt_.rows() != 0) //previous task had inequality constraints
-        ahat_.bottomRows(wopt_.rows()) += wopt_;
     }
 
     /*
@@ -250,6 +250,8 @@ namespace rt_solver {
       } else {
         RtVectorUtils::setZero(wopt_, dim_w);
       }
+    } else {
+      RtVectorUtils::resize(wopt_, 0);
     }
 
     return qp_solver_interface_.isOptimized() || !apply_ineq_slacks_;
-- 
2.43.0


From ac8ca0ae3daec7de288d94cecad16f69361f0c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:34 +0000
Subject: [PATCH 04/67] fix: repeated equalities must not consume degrees of
 freedom

Rows already spanned by higher ranked tasks are zero only up to round-off after
projection; the relative rank test then counted them as full rank.
---
 solver/include/solver/rt_optimizer/RtHQPSolver.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/solver/include/solver/rt_optimizer/RtHQPSolver.h b/solver/include/solver/rt_optimizer/RtHQPSolver.h
index a17a63d..15142b2 100644
--- a/solver/include/solver/rt_optimizer/RtHQPSolver.h
+++ b/solver/include/solver/rt_optimizer/RtHQPSolver.h
@@ -178,6 +178,9 @@ namespace rt_solver {
     if (eq_mat.rows() != 0)
     {
       B_Nprev_ = eq_mat * Nprev_;
+      // rows already spanned by previous tasks vanish up to round-off, which must not be seen as rank
+      for (int id=0; id<B_Nprev_.rows(); id++)
+        if (B_Nprev_.row(id).norm() <= 1.e-12 * eq_mat.row(id).norm()) { B_Nprev_.row(id).setZero(); }
       RtQuadraticUtils::addFromNorm(qp_solver_interface_.objectiveQuadPart().topLeftCorner(dim_z, dim_z),
                                     qp_solver_interface_.objectiveLinPart().topRows(dim_z), B_Nprev_,
                                     eq_vec + eq_mat * xopt_);
-- 
2.43.0


From d8fcdfb11c49604907f13c57745e29b786fe3a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:39 +0000
Subject: [PATCH 05/67] fix: hierarchies with more ranks than stored nullspaces
 wrote out of bounds

---
 solver/include/solver/rt_optimizer/RtHQPSolver.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solver/include/solver/rt_optimizer/RtHQPSolver.h b/solver/include/solver/rt_optimizer/RtHQPSolver.h
index 15142b2..a166ad0 100644
--- a/solver/include/solver/rt_optimizer/RtHQPSolver.h
+++ b/solver/include/solver/rt_optimizer/RtHQPSolver.h
@@ -63,7 +63,7 @@ namespace rt_solver {
       if(B_Nprev_.rows() != 0 && B_Nprev_.cols() != 0) {
         svd_B_Nprev_.compute(B_Nprev_, Eigen::ComputeFullV);
         RtMatrixUtils::computeNullspaceMap(B_Nprev_, K_, svd_B_Nprev_, eq_condition_threash_);
-        prev_K_[cur_rank_] = K_;
+        if (cur_rank_ < num_max_ranks_) { prev_K_[cur_rank_] = K_; }
       }
       cur_rank_++;
 
-- 
2.43.0


From 8144cdc7080b3c34470b9ada20dab80a5172a1d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:01 +0000
Subject: [PATCH 06/67] fix: interior point line search reads past the end when
 there is no linear cone

---
 solver/src/solver/optimizer/IPSolver.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/solver/src/solver/optimizer/IPSolver.cpp b/solver/src/solver/optimizer/IPSolver.cpp
index 0ef1bb2..bd52e03 100644
--- a/solver/src/solver/optimizer/IPSolver.cpp
+++ b/solver/src/solver/optimizer/IPSolver.cpp
@@ -140,9 +140,8 @@ namespace solver {
     double conicres_lk, conicres_ds, conicres_dz, inv_conicres, factor1, factor2;
 
     // Linear cone
-    double rhomin = ds[0]/lambda[0];
-    double sigmamin = dz[0]/lambda[0];
-    for (int i=1; i<this->getCone().sizeLpc(); i++){
+    double rhomin = 0.0, sigmamin = 0.0;
+    for (int i=0; i<this->getCone().sizeLpc(); i++){
       if (ds[i]/lambda[i]<rhomin) { rhomin = ds[i]/lambda[i]; }
       if (dz[i]/lambda[i]<sigmamin) { sigmamin = dz[i]/lambda[i]; }
     }
-- 
2.43.0


From af9d172f47c7e67ddd9e48a579964beddd33cfed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:01 +0000
Subject: [PATCH 07/67] fix: unbounded problems reported as primal infeasible

The residual of the infeasibility certificate has to be compared with the
value of the certificate, not with the norm of a vanishing dual iterate.
---
 solver/src/solver/optimizer/IPSolver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solver/src/solver/optimizer/IPSolver.cpp b/solver/src/solver/optimizer/IPSolver.cpp
index bd52e03..04e12fe 100644
--- a/solver/src/solver/optimizer/IPSolver.cpp
+++ b/solver/src/solver/optimizer/IPSolver.cpp
@@ -207,7 +207,7 @@ namespace solver {
     this->getInfo().get(SolverDoubleParam_DualResidual) = res_.x().norm()/std::max(inires_x_+opt_.y().norm()+opt_.z().norm(),1.0) / opt_.tau();
 
     // infeasibility measures
-    this->getInfo().get(SolverDoubleParam_PrimalInfeasibility) = (hz_ + by_)/std::max(opt_.y().norm()+opt_.z().norm(),1.0) < -this->getSetting().get(SolverDoubleParam_DualityGapRelTol) ? residual_x_ / std::max(opt_.y().norm()+opt_.z().norm(),1.0) : SolverSetting::nan;
+    this->getInfo().get(SolverDoubleParam_PrimalInfeasibility) = (hz_ + by_)/std::max(opt_.y().norm()+opt_.z().norm(),1.0) < -this->getSetting().get(SolverDoubleParam_DualityGapRelTol) ? residual_x_ / -(hz_ + by_) : SolverSetting::nan;
     this->getInfo().get(SolverDoubleParam_DualInfeasibility) = cx_/std::max(opt_.x().norm(),1.0) < -this->getSetting().get(SolverDoubleParam_DualityGapRelTol) ? std::max(residual_y_/std::max(opt_.x().norm(),1.0), residual_z_/std::max(opt_.x().norm()+opt_.s().norm(),1.0)) : SolverSetting::nan;
   }
 
-- 
2.43.0


From cca659fb915d54603b565f9c68f2cb48542783d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:01 +0000
Subject: [PATCH 08/67] fix: linear constraints without variables were ignored

---
 solver/src/solver/interface/ConicProblem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solver/src/solver/interface/ConicProblem.cpp b/solver/src/solver/interface/ConicProblem.cpp
index 9919f92..f8bc827 100644
--- a/solver/src/solver/interface/ConicProblem.cpp
+++ b/solver/src/solver/interface/ConicProblem.cpp
@@ -149,8 +149,8 @@ namespace solver {
 		this->getStorage().addCoeff(Eigen::Triplet<double>(row_start+row_offset+row_id,
 			                        lineqcons_[row_id].getVar(var_id).get(SolverIntParam_ColNum),
 						            lineqcons_[row_id].getCoeff(var_id)));
-	    this->getStorage().h()[row_start+row_id] = -lineqcons_[row_id].getConstant();
 	  }
+	  this->getStorage().h()[row_start+row_id] = -lineqcons_[row_id].getConstant();
     }
     row_start += lineqcons_.size();
 
-- 
2.43.0


From d9cdf64d4e252ba08c0c328b21775f610382e1a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:01 +0000
Subject: [PATCH 09/67] fix: replacing the objective reads past the end of the
 new one

---
 solver/src/solver/interface/ConicProblem.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/solver/src/solver/interface/ConicProblem.cpp b/solver/src/solver/interface/ConicProblem.cpp
index f8bc827..7a5209a 100644
--- a/solver/src/solver/interface/ConicProblem.cpp
+++ b/solver/src/solver/interface/ConicProblem.cpp
@@ -93,6 +93,7 @@ namespace solver {
     objective_.qexpr() = qexpr.qexpr();
     objective_.coeffs() = qexpr.coeffs();
     objective_.lexpr() = qexpr.lexpr() + lexpr;
+    objective_.extraVars().clear();
     for (int i=0; i<(int)qexpr.coeffs().size(); i++)
       objective_.extraVars().push_back(this->addVar(VarType::Continuous, 0.0, 1.0, 0.5));
   }
-- 
2.43.0


From f826592f87f1e022fd618896a77d1cb992567439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:04 +0000
Subject: [PATCH 10/67] fix: linear inequalities without variables were ignored

---
 solver/src/solver/interface/ConicProblem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solver/src/solver/interface/ConicProblem.cpp b/solver/src/solver/interface/ConicProblem.cpp
index 7a5209a..513f2d6 100644
--- a/solver/src/solver/interface/ConicProblem.cpp
+++ b/solver/src/solver/interface/ConicProblem.cpp
@@ -131,8 +131,8 @@ namespace solver {
     	    this->getStorage().addCoeff(Eigen::Triplet<double>(row_start+row_id,
 			                        leqcons_[row_id].getVar(var_id).get(SolverIntParam_ColNum),
 						            leqcons_[row_id].getCoeff(var_id)), true);
-	    this->getStorage().b()[row_start+row_id] = -leqcons_[row_id].getConstant();
 	  }
+	  this->getStorage().b()[row_start+row_id] = -leqcons_[row_id].getConstant();
     }
 
     // Linear inequality constraints due to integer variables
-- 
2.43.0


From f9e722b48f5015bbeb4b9ea274f42e7369176a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:29 +0000
Subject: [PATCH 11/67] fix: infeasible problems reported as unbounded

The certificate of dual infeasibility is a direction x with Gx+s=0, Ax=0 and
c'x=-1, so its residual has to be measured relative to the decrease of the
cost. Relative to the norm of x only, almost feasible far away points of
infeasible problems passed as certificates.
---
 solver/src/solver/optimizer/IPSolver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solver/src/solver/optimizer/IPSolver.cpp b/solver/src/solver/optimizer/IPSolver.cpp
index 04e12fe..d3570e5 100644
--- a/solver/src/solver/optimizer/IPSolver.cpp
+++ b/solver/src/solver/optimizer/IPSolver.cpp
@@ -208,7 +208,7 @@ namespace solver {
 
     // infeasibility measures
     this->getInfo().get(SolverDoubleParam_PrimalInfeasibility) = (hz_ + by_)/std::max(opt_.y().norm()+opt_.z().norm(),1.0) < -this->getSetting().get(SolverDoubleParam_DualityGapRelTol) ? residual_x_ / -(hz_ + by_) : SolverSetting::nan;
-    this->getInfo().get(SolverDoubleParam_DualInfeasibility) = cx_/std::max(opt_.x().norm(),1.0) < -this->getSetting().get(SolverDoubleParam_DualityGapRelTol) ? std::max(residual_y_/std::max(opt_.x().norm(),1.0), residual_z_/std::max(opt_.x().norm()+opt_.s().norm(),1.0)) : SolverSetting::nan;
+    this->getInfo().get(SolverDoubleParam_DualInfeasibility) = cx_/std::max(opt_.x().norm(),1.0) < -this->getSetting().get(SolverDoubleParam_DualityGapRelTol) ? std::max(residual_y_, residual_z_) / -cx_ : SolverSetting::nan;
   }
 
   ExitCode InteriorPointSolver::convergenceCheck(const PrecisionConvergence& mode)
-- 
2.43.0


From 1680f6bd1a9616433ffda7f050ff07ecb1635256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:12 +0000
Subject: [PATCH 12/67] fix: iterates with a negative tau were accepted as
 optimal

When the line search stagnates tau can leave its cone; the residuals divided by
it are then negative and pass every tolerance, so unbounded problems were
reported optimal with an infeasible point. Fall back to the best iterate.
---
 solver/src/solver/optimizer/IPSolver.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/solver/src/solver/optimizer/IPSolver.cpp b/solver/src/solver/optimizer/IPSolver.cpp
index d3570e5..bfba2c9 100644
--- a/solver/src/solver/optimizer/IPSolver.cpp
+++ b/solver/src/solver/optimizer/IPSolver.cpp
@@ -303,8 +303,8 @@ namespace solver {
       updateStatistics();
       this->getPrinter().display(Msg::OptimizationProgress, this->getInfo());
 
-      // SAFEGUARD: Bad update or DualityGap became negative
-      if (this->getInfo().get(SolverIntParam_NumIter)>0 && (this->getInfo().get(SolverDoubleParam_PrimalResidual)>this->getSetting().get(SolverDoubleParam_SafeGuard)*prev_pres_ || this->getInfo().get(SolverDoubleParam_DualityGap)<0))
+      // SAFEGUARD: Bad update, or DualityGap or tau became negative
+      if (this->getInfo().get(SolverIntParam_NumIter)>0 && (opt_.tau()<=0.0 || this->getInfo().get(SolverDoubleParam_PrimalResidual)>this->getSetting().get(SolverDoubleParam_SafeGuard)*prev_pres_ || this->getInfo().get(SolverDoubleParam_DualityGap)<0))
       {
         this->getPrinter().display(Msg::SearchDirection, this->getBestInfo());
         restoreBestIterate();
-- 
2.43.0


From c1cf2270687bd34996f74d4ddcd65df639de4851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:09 +0000
Subject: [PATCH 13/67] fix: branch and bound mishandled node bounds and
 unsolved nodes

Bounds were computed from the equilibrated cost and the unscaled solution, so
nodes were compared in different units; infeasible, unbounded and unfinished
relaxations were treated as solved, and their certificates became incumbents or
aborted the search; the incumbent found by rounding the root was forgotten; and
an empty solution was loaded when nothing was found. Mixed-integer problems
were reported optimal with wrong or infeasible points.
---
 solver/include/solver/optimizer/BnBSolver.hpp |  1 +
 .../solver/optimizer/NcvxBnBSolver.hpp        |  1 +
 solver/src/solver/optimizer/BnBSolver.cpp     | 40 +++++++++++++------
 solver/src/solver/optimizer/NcvxBnBSolver.cpp | 40 +++++++++++++------
 4 files changed, 58 insertions(+), 24 deletions(-)

diff --git a/solver/include/solver/optimizer/BnBSolver.hpp b/solver/include/solver/optimizer/BnBSolver.hpp
index addae39..58054ce 100644
--- a/solver/include/solver/optimizer/BnBSolver.hpp
+++ b/solver/include/solver/optimizer/BnBSolver.hpp
@@ -57,6 +57,7 @@ namespace solver {
       InteriorPointSolver* interior_point_solver_;
 
       ExitCode opt_status_;
+      bool all_nodes_answered_;
       OptimizationVector opt_;
       std::vector<node> nodes_;
       Eigen::VectorXi binvars_ids_;
diff --git a/solver/include/solver/optimizer/NcvxBnBSolver.hpp b/solver/include/solver/optimizer/NcvxBnBSolver.hpp
index cea04cd..b9d7116 100644
--- a/solver/include/solver/optimizer/NcvxBnBSolver.hpp
+++ b/solver/include/solver/optimizer/NcvxBnBSolver.hpp
@@ -46,6 +46,7 @@ namespace solver {
       OptimizationInfo optimization_info_;
 
       ExitCode opt_status_;
+      bool all_nodes_answered_;
       OptimizationVector opt_;
       std::vector<node> nodes_;
       Eigen::VectorXi binvars_ids_;
diff --git a/solver/src/solver/optimizer/BnBSolver.cpp b/solver/src/solver/optimizer/BnBSolver.cpp
index 9080245..004a873 100644
--- a/solver/src/solver/optimizer/BnBSolver.cpp
+++ b/solver/src/solver/optimizer/BnBSolver.cpp
@@ -111,12 +111,9 @@ namespace solver {
     this->updateProblemData(binvars_mat_id_.col(node_id));
     opt_status_ = this->getSolver().optimize();
 
-    if (opt_status_ == ExitCode::Optimal || opt_status_ == ExitCode::OptimalInacc ||
-        opt_status_ == ExitCode::DualInf || opt_status_ == ExitCode::DualInfInacc ||
-        opt_status_ == ExitCode::PrimalInf || opt_status_ == ExitCode::PrimalInfInacc ||
-        opt_status_ == ExitCode::ReachMaxIters)
+    if (opt_status_ == ExitCode::Optimal || opt_status_ == ExitCode::OptimalInacc)
     {
-      nodes_[node_id].lower_bound_ = this->getSolver().getStorage().c().dot(this->getSolver().optimalVector().x());
+      nodes_[node_id].lower_bound_ = this->getSolver().getInfo().get(SolverDoubleParam_PrimalCost);
 
       bool is_integer_sol = true;
       for (int var_id=0; var_id<nbin_vars_; var_id++) {
@@ -126,7 +123,7 @@ namespace solver {
 
       if (is_integer_sol) {
         nodes_[node_id].status_ = Status::SolvedNonBranchable;
-        nodes_[node_id].upper_bound_ = this->getSolver().getStorage().c().dot(this->getSolver().optimalVector().x());
+        nodes_[node_id].upper_bound_ = this->getSolver().getInfo().get(SolverDoubleParam_PrimalCost);
       } else {
         this->selectPartitionVariable(nodes_[node_id].partition_id_, nodes_[node_id].partition_val_);
         nodes_[node_id].status_ = Status::SolvedBranchable;
@@ -135,7 +132,7 @@ namespace solver {
         opt_status_ = this->getSolver().optimize();
 
         if (opt_status_ == ExitCode::Optimal || opt_status_ == ExitCode::OptimalInacc){
-          nodes_[node_id].upper_bound_ = this->getSolver().getStorage().c().dot(this->getSolver().optimalVector().x());
+          nodes_[node_id].upper_bound_ = this->getSolver().getInfo().get(SolverDoubleParam_PrimalCost);
           is_viable_sol = true;
         }
       }
@@ -147,26 +144,45 @@ namespace solver {
 
       if (is_viable_sol) { nodes_[node_id].upper_bound_ = SolverSetting::inf; }
     }
-    else
+    else if (opt_status_ == ExitCode::DualInf || opt_status_ == ExitCode::DualInfInacc)
+    {
+      nodes_[node_id].lower_bound_ = -SolverSetting::inf;
+      nodes_[node_id].upper_bound_ = -SolverSetting::inf;
+      nodes_[node_id].status_ = Status::SolvedNonBranchable;
+      prob_upper_bound_ = -SolverSetting::inf;
+    }
+    else if (opt_status_ == ExitCode::PrimalInf || opt_status_ == ExitCode::PrimalInfInacc)
     {
       nodes_[node_id].lower_bound_ = SolverSetting::inf;
       nodes_[node_id].upper_bound_ = SolverSetting::inf;
       nodes_[node_id].status_ = Status::SolvedNonBranchable;
     }
+    else
+    {
+      // nothing known about this node: keep its parent's bound and explore it further if possible
+      nodes_[node_id].status_ = Status::SolvedNonBranchable;
+      for (int var_id=0; var_id<nbin_vars_; var_id++) {
+        if (binvars_mat_id_(var_id, node_id) == static_cast<int>(Decision::Undefined)) {
+          nodes_[node_id].status_ = Status::SolvedBranchable;
+          nodes_[node_id].partition_id_ = var_id;
+        }
+      }
+      if (nodes_[node_id].status_ == Status::SolvedNonBranchable) { all_nodes_answered_ = false; }
+    }
   }
 
   //! Convergence check in BnB routine search
   int BnBSolver::optimilityCheck(int node_id)
   {
     return (prob_upper_bound_ - prob_lower_bound_) > this->getSolver().getSetting().get(SolverDoubleParam_BnBAbsSubOptGap) &&
-            std::abs(prob_upper_bound_ / prob_lower_bound_ - 1.0) > this->getSolver().getSetting().get(SolverDoubleParam_BnBRelSubOptGap) &&
+            !(std::abs(prob_upper_bound_ / prob_lower_bound_ - 1.0) <= this->getSolver().getSetting().get(SolverDoubleParam_BnBRelSubOptGap)) &&
             node_id >= 0 && iteration_ < (this->getSolver().getSetting().get(SolverIntParam_BnBMaxIters)-1);
   }
 
   //! Generate an exit condition for the problem, either full or reduced precision
   ExitCode BnBSolver::exitcode()
   {
-    if ( iteration_ < this->getSolver().getSetting().get(SolverIntParam_BnBMaxIters)-1 ) {
+    if ( all_nodes_answered_ && iteration_ < this->getSolver().getSetting().get(SolverIntParam_BnBMaxIters)-1 ) {
       if ( std::isinf(prob_upper_bound_) ) {
         if ( prob_upper_bound_ >= 0) { return ExitCode::PrimalInf; }
         else { return ExitCode::DualInf; }
@@ -182,6 +198,7 @@ namespace solver {
   //! Initialize the root node of BnB solver
   void BnBSolver::initializeRootNode()
   {
+    all_nodes_answered_ = true;
     nodes_[0].status_ = Status::NotSolved;
     nodes_[0].lower_bound_ = -SolverSetting::inf;
     nodes_[0].upper_bound_ =  SolverSetting::inf;
@@ -199,7 +216,6 @@ namespace solver {
     initializeRootNode();
     updateNodeBounds(node_id_);
     prob_lower_bound_ = nodes_[node_id_].lower_bound_;
-    prob_upper_bound_ = nodes_[node_id_].upper_bound_;
 
     while ( optimilityCheck(node_id_) )
     {
@@ -216,7 +232,7 @@ namespace solver {
       prob_lower_bound_ = getProblemLowerBound();
       node_id_ = selectNodeToExplore();
     }
-    loadSolution();
+    if ( !std::isinf(prob_upper_bound_) ) { loadSolution(); }
 
     return exitcode();
   }
diff --git a/solver/src/solver/optimizer/NcvxBnBSolver.cpp b/solver/src/solver/optimizer/NcvxBnBSolver.cpp
index df1ecfa..86245c6 100644
--- a/solver/src/solver/optimizer/NcvxBnBSolver.cpp
+++ b/solver/src/solver/optimizer/NcvxBnBSolver.cpp
@@ -108,12 +108,9 @@ namespace solver {
     this->updateProblemData(binvars_mat_id_.col(node_id));
     opt_status_ = this->getProblem().optimize();
 
-    if (opt_status_ == ExitCode::Optimal || opt_status_ == ExitCode::OptimalInacc ||
-        opt_status_ == ExitCode::DualInf || opt_status_ == ExitCode::DualInfInacc ||
-        opt_status_ == ExitCode::PrimalInf || opt_status_ == ExitCode::PrimalInfInacc ||
-        opt_status_ == ExitCode::ReachMaxIters)
+    if (opt_status_ == ExitCode::Optimal || opt_status_ == ExitCode::OptimalInacc)
     {
-      nodes_[node_id].lower_bound_ = this->getProblem().getStorage().c().dot(this->getProblem().getSolver().optimalVector().x());
+      nodes_[node_id].lower_bound_ = this->getProblem().getSolver().getInfo().get(SolverDoubleParam_PrimalCost);
 
       bool is_integer_sol = true;
       for (int var_id=0; var_id<nbin_vars_; var_id++) {
@@ -123,7 +120,7 @@ namespace solver {
 
       if (is_integer_sol) {
         nodes_[node_id].status_ = Status::SolvedNonBranchable;
-        nodes_[node_id].upper_bound_ = this->getProblem().getStorage().c().dot(this->getProblem().getSolver().optimalVector().x());
+        nodes_[node_id].upper_bound_ = this->getProblem().getSolver().getInfo().get(SolverDoubleParam_PrimalCost);
       } else {
         this->selectPartitionVariable(nodes_[node_id].partition_id_, nodes_[node_id].partition_val_);
         nodes_[node_id].status_ = Status::SolvedBranchable;
@@ -132,7 +129,7 @@ namespace solver {
         opt_status_ = this->getProblem().optimize();
 
         if (opt_status_ == ExitCode::Optimal || opt_status_ == ExitCode::OptimalInacc){
-          nodes_[node_id].upper_bound_ = this->getProblem().getStorage().c().dot(this->getProblem().getSolver().optimalVector().x());
+          nodes_[node_id].upper_bound_ = this->getProblem().getSolver().getInfo().get(SolverDoubleParam_PrimalCost);
           is_viable_sol = true;
         }
       }
@@ -144,26 +141,45 @@ namespace solver {
 
       if (is_viable_sol) { nodes_[node_id].upper_bound_ = SolverSetting::inf; }
     }
-    else
+    else if (opt_status_ == ExitCode::DualInf || opt_status_ == ExitCode::DualInfInacc)
+    {
+      nodes_[node_id].lower_bound_ = -SolverSetting::inf;
+      nodes_[node_id].upper_bound_ = -SolverSetting::inf;
+      nodes_[node_id].status_ = Status::SolvedNonBranchable;
+      prob_upper_bound_ = -SolverSetting::inf;
+    }
+    else if (opt_status_ == ExitCode::PrimalInf || opt_status_ == ExitCode::PrimalInfInacc)
     {
       nodes_[node_id].lower_bound_ = SolverSetting::inf;
       nodes_[node_id].upper_bound_ = SolverSetting::inf;
       nodes_[node_id].status_ = Status::SolvedNonBranchable;
     }
+    else
+    {
+      // nothing known about this node: keep its parent's bound and explore it further if possible
+      nodes_[node_id].status_ = Status::SolvedNonBranchable;
+      for (int var_id=0; var_id<nbin_vars_; var_id++) {
+        if (binvars_mat_id_(var_id, node_id) == static_cast<int>(Decision::Undefined)) {
+          nodes_[node_id].status_ = Status::SolvedBranchable;
+          nodes_[node_id].partition_id_ = var_id;
+        }
+      }
+      if (nodes_[node_id].status_ == Status::SolvedNonBranchable) { all_nodes_answered_ = false; }
+    }
   }
 
   //! Convergence check in BnB routine search
   int NcvxBnBSolver::optimilityCheck(int node_id)
   {
     return (prob_upper_bound_ - prob_lower_bound_) > this->getProblem().getSetting().get(SolverDoubleParam_BnBAbsSubOptGap) &&
-            std::abs(prob_upper_bound_ / prob_lower_bound_ - 1.0) > this->getProblem().getSetting().get(SolverDoubleParam_BnBRelSubOptGap) &&
+            !(std::abs(prob_upper_bound_ / prob_lower_bound_ - 1.0) <= this->getProblem().getSetting().get(SolverDoubleParam_BnBRelSubOptGap)) &&
             node_id >= 0 && iteration_ < (this->getProblem().getSetting().get(SolverIntParam_BnBMaxIters)-1);
   }
 
   //! Generate an exit condition for the problem, either full or reduced precision
   ExitCode NcvxBnBSolver::exitcode()
   {
-    if ( iteration_ < this->getProblem().getSetting().get(SolverIntParam_BnBMaxIters)-1 ) {
+    if ( all_nodes_answered_ && iteration_ < this->getProblem().getSetting().get(SolverIntParam_BnBMaxIters)-1 ) {
       if ( std::isinf(prob_upper_bound_) ) {
         if ( prob_upper_bound_ >= 0) { return ExitCode::PrimalInf; }
         else { return ExitCode::DualInf; }
@@ -179,6 +195,7 @@ namespace solver {
   //! Initialize the root node of BnB solver
   void NcvxBnBSolver::initializeRootNode()
   {
+    all_nodes_answered_ = true;
     nodes_[0].status_ = Status::NotSolved;
     nodes_[0].lower_bound_ = -SolverSetting::inf;
     nodes_[0].upper_bound_ =  SolverSetting::inf;
@@ -196,7 +213,6 @@ namespace solver {
     initializeRootNode();
     updateNodeBounds(node_id_);
     prob_lower_bound_ = nodes_[node_id_].lower_bound_;
-    prob_upper_bound_ = nodes_[node_id_].upper_bound_;
 
     while ( optimilityCheck(node_id_) )
     {
@@ -213,7 +229,7 @@ namespace solver {
       prob_lower_bound_ = getProblemLowerBound();
       node_id_ = selectNodeToExplore();
     }
-    loadSolution();
+    if ( !std::isinf(prob_upper_bound_) ) { loadSolution(); }
 
     return exitcode();
   }
-- 
2.43.0


From 836755c80086f4c22e1560a101974d179fa6cc19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:27 +0000
Subject: [PATCH 14/67] fix: adding a linear expression to itself never
 returned

operator+= kept appending the terms it was reading.
---
 solver/src/solver/interface/Exprs.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/solver/src/solver/interface/Exprs.cpp b/solver/src/solver/interface/Exprs.cpp
index 8d167f3..d72fd27 100644
--- a/solver/src/solver/interface/Exprs.cpp
+++ b/solver/src/solver/interface/Exprs.cpp
@@ -65,8 +65,9 @@ namespace solver {
   }
 
   LinExpr& LinExpr::operator+=(const LinExpr& rhs) {
+    const size_t num_terms = rhs.size(); // rhs may be this expression itself
     this->getConstant() += rhs.getConstant();
-    for (size_t i=0; i<rhs.size(); i++) {
+    for (size_t i=0; i<num_terms; i++) {
     	  this->vars_.push_back(rhs.vars_[i]);
       this->coeffs_.push_back(rhs.coeffs_[i]);
     }
-- 
2.43.0


From 03c6b8d9518f7c3a06ca82b5e363b34e8010e2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:04 +0000
Subject: [PATCH 15/67] fix: backtracking line search accepted values that are
 not numbers

A function value that is not a number passed the sufficient decrease test:
iterates left the domain of the function for good, and without an iteration
limit the optimization never ended.
---
 solver/src/solver/optimizer/LbfgsSolver.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/solver/src/solver/optimizer/LbfgsSolver.cpp b/solver/src/solver/optimizer/LbfgsSolver.cpp
index 925cc4a..56ba3df 100644
--- a/solver/src/solver/optimizer/LbfgsSolver.cpp
+++ b/solver/src/solver/optimizer/LbfgsSolver.cpp
@@ -520,7 +520,8 @@ namespace solver {
 
       ++count;
 
-      if (*f > finit + *stp * dgtest) {
+      /* A value that is not a number is no decrease either. */
+      if (!(*f <= finit + *stp * dgtest)) {
         width = dec;
       } else {
         /* The sufficient decrease condition (Armijo condition). */
-- 
2.43.0


From 1011aa00bdaa5a9147e734c18e38155a81206726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:15 +0000
Subject: [PATCH 16/67] fix: lbfgs reported the value of a rejected point

---
 solver/src/solver/optimizer/LbfgsSolver.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/solver/src/solver/optimizer/LbfgsSolver.cpp b/solver/src/solver/optimizer/LbfgsSolver.cpp
index 56ba3df..ba9156b 100644
--- a/solver/src/solver/optimizer/LbfgsSolver.cpp
+++ b/solver/src/solver/optimizer/LbfgsSolver.cpp
@@ -203,7 +203,7 @@ namespace solver {
     iteration_data_t *lm = NULL, *it = NULL;
     double ys, yy;
     double xnorm, gnorm, beta;
-    double fx = 0.;
+    double fx = 0., fxp = 0.;
     double rate = 0.;
     line_search_proc linesearch = line_search_morethuente;
 
@@ -335,6 +335,7 @@ namespace solver {
       /* Store the current position and gradient vectors. */
       veccpy(xp, x, n);
       veccpy(gp, g, n);
+      fxp = fx;
 
       /* Search for an optimal step. */
       ls = linesearch(n, x, &fx, g, d, &step, xp, gp, w, &cd, &param);
@@ -342,6 +343,7 @@ namespace solver {
         /* Revert to the previous point. */
         veccpy(x, xp, n);
         veccpy(g, gp, n);
+        fx = fxp;
         ret = ls;
         goto lbfgs_exit;
       }
-- 
2.43.0


From 1097bf827e298d3d39cd4f95a71ef73a054e2a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:26 +0000
Subject: [PATCH 17/67] fix: copies of LbfgsSolver optimized the problem of the
 original

---
 solver/src/solver/optimizer/LbfgsSolver.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/solver/src/solver/optimizer/LbfgsSolver.cpp b/solver/src/solver/optimizer/LbfgsSolver.cpp
index ba9156b..f5b7660 100644
--- a/solver/src/solver/optimizer/LbfgsSolver.cpp
+++ b/solver/src/solver/optimizer/LbfgsSolver.cpp
@@ -1048,8 +1048,9 @@ namespace solver {
 	if (initialized_)
 	{
 	  nlproblem_->getStartingPoint(nvars_, nlproblem_->optimalVector().data());
+      LbfgsSolver* object_in_charge = this; // user_info_ of a copy refers to the original object
       opt_status_ = lbfgs(nvars_, nlproblem_->optimalVector().data(), &nlproblem_->optimalValue(),
-    		              LbfgsSolver::delegate_evaluate, LbfgsSolver::delegate_progress, user_info_, &opt_params_);
+    		              LbfgsSolver::delegate_evaluate, LbfgsSolver::delegate_progress, &object_in_charge, &opt_params_);
 	}
   }
 
-- 
2.43.0


From 775775bc7d1726a0a40e1ef698aa561ff424e40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:12 +0000
Subject: [PATCH 18/67] fix: variable blocks could not be initialized from
 bound vectors

---
 solver/src/solver/interface/OptVar.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/solver/src/solver/interface/OptVar.cpp b/solver/src/solver/interface/OptVar.cpp
index 70a9a53..8464150 100644
--- a/solver/src/solver/interface/OptVar.cpp
+++ b/solver/src/solver/interface/OptVar.cpp
@@ -25,8 +25,8 @@ namespace solver {
 	assert(rows == lBnd.rows());
 	assert(rows == uBnd.rows());
 	type_ = type;  rows_ = rows;  cols_ = cols;
-    lBndMat_.resize(rows, cols);  lBndMat_.setZero();  lBndMat_.colwise() = lBnd.block(0,0,rows_,1);
-    uBndMat_.resize(rows, cols);  uBndMat_.setZero();  uBndMat_.colwise() = uBnd.block(0,0,rows_,1);
+    lBndMat_.resize(rows, cols);  lBndMat_.setZero();  lBndMat_.colwise() = lBnd.head(rows_);
+    uBndMat_.resize(rows, cols);  uBndMat_.setZero();  uBndMat_.colwise() = uBnd.head(rows_);
     guessMat_.resize(rows, cols); guessMat_.setZero();
     indexPosition_ = startIndexInOptVec;  startIndexInOptVec += rows*cols;
   }
@@ -70,8 +70,8 @@ namespace solver {
 	assert(rows == guess.rows());   assert(cols == guess.cols());
 	guessValueInitialized_ = true;
     type_ = type;  rows_ = rows;  cols_ = cols;
-    lBndMat_.resize(rows, cols);  lBndMat_.setZero(); lBndMat_.colwise() = lBnd.block(0,0,rows_,1);
-    uBndMat_.resize(rows, cols);  uBndMat_.setZero(); uBndMat_.colwise() = uBnd.block(0,0,rows_,1);
+    lBndMat_.resize(rows, cols);  lBndMat_.setZero(); lBndMat_.colwise() = lBnd.head(rows_);
+    uBndMat_.resize(rows, cols);  uBndMat_.setZero(); uBndMat_.colwise() = uBnd.head(rows_);
     guessMat_.resize(rows, cols); guessMat_ = guess.block(0, 0, rows, cols);;
     indexPosition_ = startIndexInOptVec;  startIndexInOptVec += rows*cols;
   }
-- 
2.43.0


From d5ded282f68fe50e58f686d6ade3881b1ef42d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:29 +0000
Subject: [PATCH 19/67] fix: lbfgs keeps the better point when the line search
 fails

Reverting to the previous point discarded a better trial point, whose value
used to be reported with the point that was kept.
---
 solver/src/solver/optimizer/LbfgsSolver.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/solver/src/solver/optimizer/LbfgsSolver.cpp b/solver/src/solver/optimizer/LbfgsSolver.cpp
index f5b7660..81ef769 100644
--- a/solver/src/solver/optimizer/LbfgsSolver.cpp
+++ b/solver/src/solver/optimizer/LbfgsSolver.cpp
@@ -340,10 +340,12 @@ namespace solver {
       /* Search for an optimal step. */
       ls = linesearch(n, x, &fx, g, d, &step, xp, gp, w, &cd, &param);
       if (ls < 0) {
-        /* Revert to the previous point. */
-        veccpy(x, xp, n);
-        veccpy(g, gp, n);
-        fx = fxp;
+        /* Keep the last point if it is better, otherwise revert to the previous one. */
+        if (!(fx < fxp)) {
+          veccpy(x, xp, n);
+          veccpy(g, gp, n);
+          fx = fxp;
+        }
         ret = ls;
         goto lbfgs_exit;
       }
-- 
2.43.0


From bf3b4fbe4d04fcb5bab24eee96be0e44307798c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:05 +0000
Subject: [PATCH 20/67] fix: planned motion was stored one time step late and
 past the end of the sequence

---
 momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp b/momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp
index e150484..ab17ce1 100644
--- a/momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp
+++ b/momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp
@@ -625,17 +625,16 @@ namespace momentumopt {
   void DynamicsOptimizer::storeSolution()
   {
 	com_.getGuessValue(mat_guess_);
-  dynamicsSequence().dynamicsState(0).centerOfMass() = Eigen::Vector3d(mat_guess_.block<3,1>(0,0));
     for (int time_id=0; time_id<this->getSetting().get(PlannerIntParam_NumTimesteps); time_id++)
-      dynamicsSequence().dynamicsState(time_id+1).centerOfMass() = Eigen::Vector3d(mat_guess_.block<3,1>(0,time_id));
+      dynamicsSequence().dynamicsState(time_id).centerOfMass() = Eigen::Vector3d(mat_guess_.block<3,1>(0,time_id));
 
 	lmom_.getGuessValue(mat_guess_);
     for (int time_id=0; time_id<this->getSetting().get(PlannerIntParam_NumTimesteps); time_id++)
-      dynamicsSequence().dynamicsState(time_id+1).linearMomentum() = Eigen::Vector3d(mat_guess_.block<3,1>(0,time_id));
+      dynamicsSequence().dynamicsState(time_id).linearMomentum() = Eigen::Vector3d(mat_guess_.block<3,1>(0,time_id));
 
 	amom_.getGuessValue(mat_guess_);
     for (int time_id=0; time_id<this->getSetting().get(PlannerIntParam_NumTimesteps); time_id++)
-      dynamicsSequence().dynamicsState(time_id+1).angularMomentum() = Eigen::Vector3d(mat_guess_.block<3,1>(0,time_id));
+      dynamicsSequence().dynamicsState(time_id).angularMomentum() = Eigen::Vector3d(mat_guess_.block<3,1>(0,time_id));
 
     if (this->getSetting().heuristic() == Heuristic::TimeOptimization) {
   	  dt_.getGuessValue(mat_guess_);
-- 
2.43.0


From d03cd74103af63f65a6b45d62fb94216215df537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:05 +0000
Subject: [PATCH 21/67] fix: contact properties of end-effectors without
 contact were read

---
 momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp b/momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp
index ab17ce1..4381dc9 100644
--- a/momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp
+++ b/momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp
@@ -296,8 +296,8 @@ namespace momentumopt {
       // friction cone constraints
       for (int time_id=0; time_id<this->getSetting().get(PlannerIntParam_NumTimesteps); time_id++) {
         for (int eff_id=0; eff_id<this->getSetting().get(PlannerIntParam_NumActiveEndeffectors); eff_id++) {
-          if (this->contactType(time_id, eff_id) != ContactType::FullContact) {
-            if (dynamicsSequence().dynamicsState(time_id).endeffectorActivation(eff_id)) {
+          if (dynamicsSequence().dynamicsState(time_id).endeffectorActivation(eff_id)) {
+            if (this->contactType(time_id, eff_id) != ContactType::FullContact) {
               Eigen::Matrix3d eff_rotation = this->contactRotation(time_id, eff_id);
               if (this->getSetting().get(PlannerBoolParam_IsFrictionConeLinear)) {  // using a linear representation
                 Eigen::Matrix<double,4,3> rotated_cone_matrix_ = cone_matrix_*eff_rotation.transpose();
@@ -748,6 +748,7 @@ namespace momentumopt {
   double DynamicsOptimizer::contactLocation(int time_id, int eff_id, int axis_id) const
   {
     int contact_id = dynamicsSequence().dynamicsState(time_id).endeffectorContactId(eff_id);
+    if (contact_id < 0) { return ini_state_.endeffectorPosition(eff_id)[axis_id]; }
     return contact_plan_->contactSequence().endeffectorContacts(eff_id)[contact_id].contactPosition()[axis_id];
   }
 
-- 
2.43.0


From cdd7825edb1259927e2ed71718224251ccb79848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:05 +0000
Subject: [PATCH 22/67] fix: angular momentum used the time steps of the
 previous iteration

---
 momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp b/momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp
index 4381dc9..9e8466b 100644
--- a/momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp
+++ b/momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp
@@ -575,7 +575,9 @@ namespace momentumopt {
       	  frc.y() = this->getSetting().get(PlannerDoubleParam_MassTimesGravity)*vars_[frc_world_[eff_id].id(1,dynamicsSequence().dynamicsState(time_id).endeffectorActivationId(eff_id))].get(SolverDoubleParam_X);
       	  frc.z() = this->getSetting().get(PlannerDoubleParam_MassTimesGravity)*vars_[frc_world_[eff_id].id(2,dynamicsSequence().dynamicsState(time_id).endeffectorActivationId(eff_id))].get(SolverDoubleParam_X);
       	  trq     = rz * vars_[trq_local_[eff_id].id(0,dynamicsSequence().dynamicsState(time_id).endeffectorActivationId(eff_id))].get(SolverDoubleParam_X);
-      	  angmom.col(time_id).head(3) += dynamicsSequence().dynamicsState(time_id).time()*(len.cross(frc)+trq);
+      	  double dtime = dynamicsSequence().dynamicsState(time_id).time();
+      	  if (this->getSetting().heuristic() == Heuristic::TimeOptimization) { dtime = vars_[dt_.id(0,time_id)].get(SolverDoubleParam_X); }
+      	  angmom.col(time_id).head(3) += dtime*(len.cross(frc)+trq);
         }
       }
     }
-- 
2.43.0


From 57b71a8e276e602eeb6d182857100f7b8c1d1070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:05 +0000
Subject: [PATCH 23/67] fix: time optimization ignored the external force

---
 momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp b/momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp
index 9e8466b..22a00b6 100644
--- a/momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp
+++ b/momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp
@@ -391,6 +391,7 @@ namespace momentumopt {
             lin_cons_ = LinExpr(this->getSetting().get(PlannerDoubleParam_RobotMass)*this->getSetting().get(PlannerVectorParam_GravityVector)[axis_id]) - LinExpr(vars_[lmomd_.id(axis_id,time_id)]);
             for (int eff_id=0; eff_id<this->getSetting().get(PlannerIntParam_NumActiveEndeffectors); eff_id++)
               if (dynamicsSequence().dynamicsState(time_id).endeffectorActivation(eff_id)) { lin_cons_ += LinExpr(vars_[frc_world_[eff_id].id(axis_id,dynamicsSequence().dynamicsState(time_id).endeffectorActivationId(eff_id))])*this->getSetting().get(PlannerDoubleParam_MassTimesGravity); }
+            if (time_id==0) { lin_cons_ += LinExpr(this->getSetting().get(PlannerDoubleParam_MassTimesGravity)*this->getSetting().get(PlannerVectorParam_ExternalForce)[axis_id]); }
             model_.addLinConstr(lin_cons_, "=", 0.0);
           }
 
@@ -538,6 +539,7 @@ namespace momentumopt {
         }
 
         linmom.col(time_id) += this->getSetting().get(PlannerDoubleParam_RobotMass)*this->getSetting().get(PlannerVectorParam_GravityVector)*vars_[dt_.id(0,time_id)].get(SolverDoubleParam_X);
+        if (time_id==0) { linmom.col(time_id) += this->getSetting().get(PlannerDoubleParam_MassTimesGravity)*this->getSetting().get(PlannerVectorParam_ExternalForce)*vars_[dt_.id(0,time_id)].get(SolverDoubleParam_X); }
         for (int eff_id=0; eff_id<this->getSetting().get(PlannerIntParam_NumActiveEndeffectors); eff_id++) {
           if (dynamicsSequence().dynamicsState(time_id).endeffectorActivation(eff_id)) {
           	frc.x() = this->getSetting().get(PlannerDoubleParam_MassTimesGravity)*vars_[frc_world_[eff_id].id(0,dynamicsSequence().dynamicsState(time_id).endeffectorActivationId(eff_id))].get(SolverDoubleParam_X);
-- 
2.43.0


From fe55e5d46f27766aac50219a8a4acfede3d8615a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:05 +0000
Subject: [PATCH 24/67] fix: contacts and forces of a previous plan stayed in a
 reused dynamics sequence

---
 .../src/momentumopt/cntopt/ContactPlanInterface.cpp   | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/momentumopt/src/momentumopt/cntopt/ContactPlanInterface.cpp b/momentumopt/src/momentumopt/cntopt/ContactPlanInterface.cpp
index 2914989..1445c4b 100644
--- a/momentumopt/src/momentumopt/cntopt/ContactPlanInterface.cpp
+++ b/momentumopt/src/momentumopt/cntopt/ContactPlanInterface.cpp
@@ -21,6 +21,17 @@ namespace momentumopt {
 	// configuration of end-effectors during contact
     dynamics_sequence.activeEndeffectorSteps().setZero();
     for (int eff_id=0; eff_id<Problem::n_endeffs_; eff_id++) {
+      // forget contacts and contact forces of a previously filled sequence
+      for (int time_id=0; time_id<dynamics_sequence.size(); time_id++) {
+        dynamics_sequence.dynamicsState(time_id).endeffectorActivation(eff_id) = false;
+        dynamics_sequence.dynamicsState(time_id).endeffectorContactId(eff_id) = -1;
+        dynamics_sequence.dynamicsState(time_id).endeffectorActivationId(eff_id) = 0;
+        dynamics_sequence.dynamicsState(time_id).endeffectorCoP(eff_id).setZero();
+        dynamics_sequence.dynamicsState(time_id).endeffectorForce(eff_id).setZero();
+        dynamics_sequence.dynamicsState(time_id).endeffectorTorque(eff_id).setZero();
+        dynamics_sequence.dynamicsState(time_id).endeffectorTorqueAtContactPoint(eff_id).setZero();
+      }
+
       int counter = 0;
       int ini_id = 0, end_id = contact_sequence_.endeffectorContacts(eff_id).size();
       for (int cnt_id=ini_id; cnt_id<end_id; cnt_id++) {
-- 
2.43.0


From df5df7ccd2abee928f20b31c3aa5614a086a8e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:05 +0000
Subject: [PATCH 25/67] fix: saving a plan aborted when the kinematics had
 another number of joints

---
 momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp b/momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp
index 22a00b6..c2419ac 100644
--- a/momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp
+++ b/momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp
@@ -703,7 +703,7 @@ namespace momentumopt {
         for (int time_id=0; time_id<this->getSetting().get(PlannerIntParam_NumTimesteps); time_id++) { mat_guess_.col(time_id) = kin_sequence.kinematicsState(time_id).angularMomentum(); } qcqp_cfg["dynopt_params"]["ang_mom_ref"] = mat_guess_;
 
         // building sequences of joint velocities and accelerations
-        mat_guess_.resize(this->getSetting().get(PlannerIntParam_NumExtendedActiveDofs), this->getSetting().get(PlannerIntParam_NumTimesteps));    mat_guess_.setZero();
+        mat_guess_.resize(kin_sequence.kinematicsState(0).robotVelocity().generalizedJointVelocities().size(), this->getSetting().get(PlannerIntParam_NumTimesteps));    mat_guess_.setZero();
         for (int time_id=0; time_id<this->getSetting().get(PlannerIntParam_NumTimesteps); time_id++) { mat_guess_.col(time_id) = kin_sequence.kinematicsState(time_id).robotVelocity().generalizedJointVelocities();  } qcqp_cfg["dynopt_params"]["jnt_vel"] = mat_guess_;
         for (int time_id=0; time_id<this->getSetting().get(PlannerIntParam_NumTimesteps); time_id++) { mat_guess_.col(time_id) = kin_sequence.kinematicsState(time_id).robotAcceleration().generalizedJointAccelerations();  } qcqp_cfg["dynopt_params"]["jnt_acc"] = mat_guess_;
 
-- 
2.43.0


From 45d1f6f480a9e146b3b550e1fac31b00f03f594f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:05 +0000
Subject: [PATCH 26/67] fix: number of time steps lost one step to rounding of
 horizon over step

---
 momentumopt/src/momentumopt/setting/PlannerSetting.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/momentumopt/src/momentumopt/setting/PlannerSetting.cpp b/momentumopt/src/momentumopt/setting/PlannerSetting.cpp
index dd7386a..8eba360 100644
--- a/momentumopt/src/momentumopt/setting/PlannerSetting.cpp
+++ b/momentumopt/src/momentumopt/setting/PlannerSetting.cpp
@@ -221,7 +221,7 @@ namespace momentumopt {
       num_act_dofs_ = active_dofs_.size();
       mass_times_gravity_ = robot_mass_ * gravity_;
       gravity_vector_ = Eigen::Vector3d(0., 0., -gravity_);
-      num_timesteps_ = std::floor(time_horizon_/time_step_);
+      num_timesteps_ = std::floor(time_horizon_/time_step_ + 1.e-6); // 0.3/0.1 is slightly less than 3
       num_extended_act_dofs_ = extended_active_dofs_.size();
     }
     catch (std::runtime_error& e)
-- 
2.43.0


From 365477ae290b9791c9075a2690129fc1921fa607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:14 +0000
Subject: [PATCH 27/67] fix: velocity and acceleration of interpolated
 trajectories were not numbers at time zero

---
 momentumopt/src/momentumopt/utilities/TrajectoryGenerator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/momentumopt/src/momentumopt/utilities/TrajectoryGenerator.cpp b/momentumopt/src/momentumopt/utilities/TrajectoryGenerator.cpp
index db578a4..d4aa34c 100644
--- a/momentumopt/src/momentumopt/utilities/TrajectoryGenerator.cpp
+++ b/momentumopt/src/momentumopt/utilities/TrajectoryGenerator.cpp
@@ -59,8 +59,8 @@ namespace momentumopt
     position = velocity = acceleration = 0.0;
     for (int i=0; i<cons_size_; i++) {
       position += regression_coeffs_(i)*std::pow(query_time, double(i));
-      velocity += regression_coeffs_(i)*std::pow(query_time, i-1.0)*double(i);
-      acceleration += regression_coeffs_(i)*std::pow(query_time, i-2.0)*double(i)*double(i-1.0);
+      if (i>0) velocity += regression_coeffs_(i)*std::pow(query_time, i-1.0)*double(i);
+      if (i>1) acceleration += regression_coeffs_(i)*std::pow(query_time, i-2.0)*double(i)*double(i-1.0);
     }
   }
 
-- 
2.43.0


From c32e25b3630fd18488d264d0daf72e3bb8e4969b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:14 +0000
Subject: [PATCH 28/67] fix: interpolated trajectories lost their accuracy with
 growing time

---
 .../src/momentumopt/utilities/TrajectoryGenerator.cpp     | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/momentumopt/src/momentumopt/utilities/TrajectoryGenerator.cpp b/momentumopt/src/momentumopt/utilities/TrajectoryGenerator.cpp
index d4aa34c..a41f231 100644
--- a/momentumopt/src/momentumopt/utilities/TrajectoryGenerator.cpp
+++ b/momentumopt/src/momentumopt/utilities/TrajectoryGenerator.cpp
@@ -27,7 +27,7 @@ namespace momentumopt
 
 	int row_start = 0;
 	for (int row=0; row<pos_des.rows(); row++) {
-	  double time = pos_des(row,0);
+	  double time = pos_des(row,0) - time_span_[0];
 	  regression_vector_(row_start+row) = pos_des(row,1);
 	  for (int col=0; col<cons_size_; col++)
 		regression_matrix_(row_start+row,col) = std::pow(time,double(col));
@@ -35,7 +35,7 @@ namespace momentumopt
 
 	row_start += pos_des.rows();
 	for (int row=0; row<vel_des.rows(); row++) {
-	  double time = vel_des(row,0);
+	  double time = vel_des(row,0) - time_span_[0];
 	  regression_vector_(row_start+row) = vel_des(row,1);
 	  for (int col=1; col<cons_size_; col++)
 		regression_matrix_(row_start+row,col) = col*std::pow(time,col-1.0);
@@ -43,7 +43,7 @@ namespace momentumopt
 
 	row_start += vel_des.rows();
 	for (int row=0; row<acc_des.rows(); row++) {
-	  double time = acc_des(row,0);
+	  double time = acc_des(row,0) - time_span_[0];
 	  regression_vector_(row_start+row) = acc_des(row,1);
 	  for (int col=2; col<cons_size_; col++)
 		regression_matrix_(row_start+row,col) = col*(col-1)*std::pow(time,col-2.0);
@@ -54,7 +54,7 @@ namespace momentumopt
 
   void Interpolator::interpolate(const double time, double& position, double& velocity, double& acceleration)
   {
-    double query_time = std::min(std::max(time, time_span_[0]), time_span_[1]);
+    double query_time = std::min(std::max(time, time_span_[0]), time_span_[1]) - time_span_[0];
 
     position = velocity = acceleration = 0.0;
     for (int i=0; i<cons_size_; i++) {
-- 
2.43.0


From 2fb720de9cd663c91d3b7b3a34b68ed3162663cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:14 +0000
Subject: [PATCH 29/67] fix: velocities of earlier swing motions stayed in
 contacts of a reused dynamics sequence

---
 momentumopt/src/momentumopt/cntopt/ContactPlanInterface.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/momentumopt/src/momentumopt/cntopt/ContactPlanInterface.cpp b/momentumopt/src/momentumopt/cntopt/ContactPlanInterface.cpp
index 1445c4b..1c7a223 100644
--- a/momentumopt/src/momentumopt/cntopt/ContactPlanInterface.cpp
+++ b/momentumopt/src/momentumopt/cntopt/ContactPlanInterface.cpp
@@ -46,6 +46,8 @@ namespace momentumopt {
               dynamics_sequence.dynamicsState(time_id).endeffectorActivationId(eff_id) = counter++;
               dynamics_sequence.dynamicsState(time_id).endeffectorPosition(eff_id) = contact_sequence_.endeffectorContacts(eff_id)[cnt_id].contactPosition();
               dynamics_sequence.dynamicsState(time_id).endeffectorOrientation(eff_id) = contact_sequence_.endeffectorContacts(eff_id)[cnt_id].contactOrientation();
+              dynamics_sequence.dynamicsState(time_id).endeffectorVelocity(eff_id).setZero();
+              dynamics_sequence.dynamicsState(time_id).endeffectorAcceleration(eff_id).setZero();
             }
           }
         }
-- 
2.43.0


From a0d8e32815280be0dc1396af75b452ce9c7843f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:14 +0000
Subject: [PATCH 30/67] fix: swing motions read past the end of the horizon and
 used uninitialized viapoints

---
 .../cntopt/ContactPlanInterface.hpp           |  2 -
 .../cntopt/ContactPlanInterface.cpp           | 98 +++++++------------
 2 files changed, 36 insertions(+), 64 deletions(-)

diff --git a/momentumopt/include/momentumopt/cntopt/ContactPlanInterface.hpp b/momentumopt/include/momentumopt/cntopt/ContactPlanInterface.hpp
index a6fcba8..39cf038 100644
--- a/momentumopt/include/momentumopt/cntopt/ContactPlanInterface.hpp
+++ b/momentumopt/include/momentumopt/cntopt/ContactPlanInterface.hpp
@@ -52,8 +52,6 @@ namespace momentumopt {
 
     private:
       double mapIdToContactTime(const DynamicsSequence& dyn_sequence, int map_id);
-      int findMakeContactId(const DynamicsSequence& dyn_seq, const int search_start_id, int eff_id);
-      int findBreakContactId(const DynamicsSequence& dyn_seq, const int search_start_id, int eff_id);
       void findActiveViapoints(Eigen::Vector3d& viapoint_position, int eff_id, int cnt_id);
       void generateFlightPhase(DynamicsSequence& dyn_seq, int start_id, int end_id, int eff_id,
                                const Eigen::Quaternion<double>& qini, const Eigen::Quaternion<double>& qend);
diff --git a/momentumopt/src/momentumopt/cntopt/ContactPlanInterface.cpp b/momentumopt/src/momentumopt/cntopt/ContactPlanInterface.cpp
index 1c7a223..0121fc9 100644
--- a/momentumopt/src/momentumopt/cntopt/ContactPlanInterface.cpp
+++ b/momentumopt/src/momentumopt/cntopt/ContactPlanInterface.cpp
@@ -61,42 +61,46 @@ namespace momentumopt {
   {
     if (this->getSetting().get(PlannerBoolParam_LoadKinematics))
     {
-      Eigen::Vector3d viapoint_position;
+      const int num_steps = this->getSetting().get(PlannerIntParam_NumTimesteps);
       for (int eff_id=0; eff_id<Problem::n_endeffs_; eff_id++) {
         if (this->contactSequence().numEndeffectorContacts(eff_id)>0) {
-          int ini_id = 0, end_id = 0;
-
-          // configuration of end-effectors first flight phase, when not in contact
-          if (!ini_state.endeffectorActivation(eff_id)) {
-            ini_id = 0;
-            end_id = findMakeContactId(dynamics_sequence, ini_id, eff_id);
-            this->findActiveViapoints(viapoint_position, eff_id, -1);
-            sw_traj_.initialize(this->mapIdToContactTime(dynamics_sequence, ini_id+1), ini_state.endeffectorPosition(eff_id),
-                                this->mapIdToContactTime(dynamics_sequence, end_id+1), contact_sequence_.endeffectorContacts(eff_id)[0].contactPosition(),
-                                viapoint_position);
-            this->generateFlightPhase(dynamics_sequence, ini_id, end_id, eff_id, ini_state.endeffectorOrientation(eff_id), contact_sequence_.endeffectorContacts(eff_id)[0].contactOrientation());
-          }
+          const std::vector<ContactState>& contacts = this->contactSequence().endeffectorContacts(eff_id);
+
+          // configuration of end-effectors during flight phases, when not in contact
+          for (int ini_id=0; ini_id<num_steps; ini_id++) {
+            if (dynamics_sequence.dynamicsState(ini_id).endeffectorActivation(eff_id)) { continue; }
+            int end_id = ini_id;
+            while (end_id+1<num_steps && !dynamics_sequence.dynamicsState(end_id+1).endeffectorActivation(eff_id)) { end_id++; }
+
+            // first flight phases start at the initial configuration, others at the contact that breaks
+            int break_cnt_id = -1;
+            Eigen::Vector3d ini_position = ini_state.endeffectorPosition(eff_id);
+            Eigen::Quaternion<double> ini_orientation = ini_state.endeffectorOrientation(eff_id);
+            if (ini_id>0) {
+              break_cnt_id = dynamics_sequence.dynamicsState(ini_id-1).endeffectorContactId(eff_id);
+              ini_position = contacts[break_cnt_id].contactPosition();
+              ini_orientation = contacts[break_cnt_id].contactOrientation();
+            }
 
-          // configuration of end-effectors during flight phases
-          for (int cnt_id=0; cnt_id<contact_sequence_.numEndeffectorContacts(eff_id)-1; cnt_id++) {
-            ini_id = findBreakContactId(dynamics_sequence, end_id, eff_id);
-            end_id = findMakeContactId(dynamics_sequence, ini_id, eff_id);
-            this->findActiveViapoints(viapoint_position, eff_id, cnt_id);
-            sw_traj_.initialize(this->mapIdToContactTime(dynamics_sequence, ini_id+1), contact_sequence_.endeffectorContacts(eff_id)[cnt_id].contactPosition(),
-                                this->mapIdToContactTime(dynamics_sequence, end_id+1), contact_sequence_.endeffectorContacts(eff_id)[cnt_id+1].contactPosition(),
-                                viapoint_position);
-            this->generateFlightPhase(dynamics_sequence, ini_id, end_id, eff_id, contact_sequence_.endeffectorContacts(eff_id)[cnt_id].contactOrientation(), contact_sequence_.endeffectorContacts(eff_id)[cnt_id+1].contactOrientation());
-          }
+            // last flight phases end at the displaced initial configuration, others at the contact that is made
+            Eigen::Vector3d end_position = ini_state.endeffectorPosition(eff_id)+this->getSetting().get(PlannerVectorParam_CenterOfMassMotion);
+            Eigen::Quaternion<double> end_orientation = ini_state.endeffectorOrientation(eff_id);
+            if (end_id+1<num_steps) {
+              int make_cnt_id = dynamics_sequence.dynamicsState(end_id+1).endeffectorContactId(eff_id);
+              end_position = contacts[make_cnt_id].contactPosition();
+              end_orientation = contacts[make_cnt_id].contactOrientation();
+            }
+
+            // flight phases of a single step are in motion between their neighbors
+            int ini_time_id = ini_id+1, end_time_id = end_id+1;
+            if (ini_id==end_id) { ini_time_id--;  if (end_id+1<num_steps) { end_time_id++; } }
 
-          // configuration of end-effectors last flight phase, when not in contact
-          if (!dynamics_sequence.dynamicsState(this->getSetting().get(PlannerIntParam_NumTimesteps)-1).endeffectorActivation(eff_id)) {
-            ini_id = findBreakContactId(dynamics_sequence, end_id, eff_id);
-            end_id = this->getSetting().get(PlannerIntParam_NumTimesteps)-1;
-            this->findActiveViapoints(viapoint_position, eff_id, contact_sequence_.numEndeffectorContacts(eff_id)-1);
-            sw_traj_.initialize(this->mapIdToContactTime(dynamics_sequence, ini_id+1), contact_sequence_.endeffectorContacts(eff_id).back().contactPosition(),
-                                this->mapIdToContactTime(dynamics_sequence, end_id+1), ini_state.endeffectorPosition(eff_id)+this->getSetting().get(PlannerVectorParam_CenterOfMassMotion),
-                                viapoint_position);
-            this->generateFlightPhase(dynamics_sequence, ini_id, end_id, eff_id, contact_sequence_.endeffectorContacts(eff_id).back().contactOrientation(), ini_state.endeffectorOrientation(eff_id));
+            Eigen::Vector3d viapoint_position = 0.5*(ini_position+end_position);
+            this->findActiveViapoints(viapoint_position, eff_id, break_cnt_id);
+            sw_traj_.initialize(this->mapIdToContactTime(dynamics_sequence, ini_time_id), ini_position,
+                                this->mapIdToContactTime(dynamics_sequence, end_time_id), end_position, viapoint_position);
+            this->generateFlightPhase(dynamics_sequence, ini_id, end_id, eff_id, ini_orientation, end_orientation);
+            ini_id = end_id;
           }
         }
       }
@@ -111,36 +115,6 @@ namespace momentumopt {
     return mapped_time;
   }
 
-  int ContactPlanInterface::findMakeContactId(const DynamicsSequence& dyn_sequence, const int search_start_id, int eff_id)
-  {
-	int make_cnt_id = 0, search_id = search_start_id;
-  	while (true) {
-  	  if (dyn_sequence.dynamicsState(search_id).endeffectorActivation(eff_id)==false &&
-  		  dyn_sequence.dynamicsState(search_id+1).endeffectorActivation(eff_id)==true )
-  	  {
-  		make_cnt_id = search_id;
-  		break;
-  	  }
-      search_id++;
-  	}
-  	return make_cnt_id;
-  }
-
-  int ContactPlanInterface::findBreakContactId(const DynamicsSequence& dyn_sequence, const int search_start_id, int eff_id)
-  {
-	int break_cnt_id = 0, start_id = search_start_id;
-  	while (true) {
-  	  if (dyn_sequence.dynamicsState(start_id  ).endeffectorActivation(eff_id)==true  &&
-  		  dyn_sequence.dynamicsState(start_id+1).endeffectorActivation(eff_id)==false )
-  	  {
-  		break_cnt_id = start_id+1;
-  		break;
-  	  }
-  	start_id++;
-  	}
-  	return break_cnt_id;
-  }
-
   void ContactPlanInterface::findActiveViapoints(Eigen::Vector3d& viapoint_position, int eff_id, int cnt_id)
   {
     for (int via_id=0; via_id<this->viapointSequence().numEndeffectorViapoints(eff_id); via_id++)
-- 
2.43.0


From 0e4852f5b2afba548133f21d3d7b077eb8aef8db Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:21:25 +0000
Subject: [PATCH 31/67] fix: control limits were ignored in the value function
 of constrained controllers

The quadratic value function was built with the unconstrained step and gains, so limited problems converged to suboptimal controls.
---
 solver_lqr/src/solver_lqr/BackwardPass.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/solver_lqr/src/solver_lqr/BackwardPass.cpp b/solver_lqr/src/solver_lqr/BackwardPass.cpp
index 01608c6..a8c9b2c 100644
--- a/solver_lqr/src/solver_lqr/BackwardPass.cpp
+++ b/solver_lqr/src/solver_lqr/BackwardPass.cpp
@@ -84,8 +84,11 @@ namespace solverlqr
       control_seq_.control(time).feedback() = L;
       control_seq_.control(time).feedforward() = l;
 
-      if (this->getLqrSetting().get(SolverLqrBoolParam_HasControlLimits))
+      if (this->getLqrSetting().get(SolverLqrBoolParam_HasControlLimits)) {
         this->findConstrainedControls(time, llt_.matrixL(), g);
+        l = control_seq_.control(time).feedforward();
+        L = control_seq_.control(time).feedback();
+      }
 
       // Computing quadratic approximation of the value function
       Eigen::MatrixXd Sxxn(xdim_, xdim_);
-- 
2.43.0


From 48f18f37535373ff8780e604d3bd8b256dc5e577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:46 +0000
Subject: [PATCH 32/67] fix: constrained controls were computed with twice the
 curvature of the cost

The value function is expanded with half the Hessian, as in the unconstrained step, so limits that do not bind halved every step.
---
 solver_lqr/src/solver_lqr/BackwardPass.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solver_lqr/src/solver_lqr/BackwardPass.cpp b/solver_lqr/src/solver_lqr/BackwardPass.cpp
index a8c9b2c..74721d4 100644
--- a/solver_lqr/src/solver_lqr/BackwardPass.cpp
+++ b/solver_lqr/src/solver_lqr/BackwardPass.cpp
@@ -123,7 +123,7 @@ namespace solverlqr
       lin_expr_ = 0.0;
       for (int row_id=0; row_id<udim_; row_id++)
         lin_expr_ += chol_hessian(row_id,col_id)*vars_[row_id];
-      quad_expr_.addQuaTerm(1.0, lin_expr_);
+      quad_expr_.addQuaTerm(0.5, lin_expr_);
       quad_expr_.addLinTerm(gradient[col_id]*vars_[col_id]);
     }
     model_.setObjective(quad_expr_, 0.0);
-- 
2.43.0


From 4966c43d2cd9bc8e103b1a474854fd1df1ef6f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:46 +0000
Subject: [PATCH 33/67] fix: solvers and problems initialized again kept
 derivatives, sizes and states of earlier problems

A solver initialized for a second problem differentiated the first one; problems initialized again kept their old states.
---
 solver_lqr/src/solver_lqr/BackwardPass.cpp      | 1 +
 solver_lqr/src/solver_lqr/FiniteDifferences.cpp | 8 +++++++-
 solver_lqr/src/solver_lqr/OcpDescription.cpp    | 1 +
 3 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/solver_lqr/src/solver_lqr/BackwardPass.cpp b/solver_lqr/src/solver_lqr/BackwardPass.cpp
index 74721d4..7ebf867 100644
--- a/solver_lqr/src/solver_lqr/BackwardPass.cpp
+++ b/solver_lqr/src/solver_lqr/BackwardPass.cpp
@@ -32,6 +32,7 @@ namespace solverlqr
     QxuR_.resize(xdim_, udim_);  QxuR_.setZero();
     QuuR_.resize(udim_, udim_);  QuuR_.setZero();
 
+    Vx_.clear();  Vxh_.clear();  Vxx_.clear();  Vxxh_.clear();  Vxhxh_.clear();
     for (int time_id=0; time_id<=tdim_; time_id++) {
       Vx_.push_back(Eigen::VectorXd::Zero(xdim_));
       Vxh_.push_back(Eigen::VectorXd::Zero(xdim_));
diff --git a/solver_lqr/src/solver_lqr/FiniteDifferences.cpp b/solver_lqr/src/solver_lqr/FiniteDifferences.cpp
index c670e41..d014d00 100644
--- a/solver_lqr/src/solver_lqr/FiniteDifferences.cpp
+++ b/solver_lqr/src/solver_lqr/FiniteDifferences.cpp
@@ -15,7 +15,9 @@ namespace solverlqr
 		  bool compute_objective_first_derivatives, bool compute_dynamics_first_derivatives,
 		  bool compute_objective_second_derivatives, bool compute_dynamics_second_derivatives)
   {
-	if (!is_initialized_) {
+	// a previous initialization only remains valid for the same problem and dimensions
+	if (!is_initialized_ || ocp_ != ocp_description || tdim_ != ocp_description->tdim() ||
+	    xdim_ != ocp_description->xdim() || udim_ != ocp_description->udim()) {
 	  is_initialized_ = true;
 	  ocp_ = ocp_description;
 	  compute_dynamics_first_derivatives_ = compute_dynamics_first_derivatives;
@@ -28,6 +30,10 @@ namespace solverlqr
 	  udim_ = ocp_->udim();
 
       // resizing storages
+	  fx_seq_.clear();   fu_seq_.clear();
+	  cx_seq_.clear();   cu_seq_.clear();
+	  fxx_seq_.clear();  fxu_seq_.clear();  fuu_seq_.clear();
+	  cxx_seq_.clear();  cxu_seq_.clear();  cuu_seq_.clear();
 	  std::vector<Eigen::MatrixXd> fxx, fxu, fuu;
 	  for (int id=0; id<xdim_; id++) { fxx.push_back(Eigen::MatrixXd::Zero(xdim_, xdim_)); }
 	  for (int id=0; id<udim_; id++) { fxu.push_back(Eigen::MatrixXd::Zero(xdim_, xdim_)); }
diff --git a/solver_lqr/src/solver_lqr/OcpDescription.cpp b/solver_lqr/src/solver_lqr/OcpDescription.cpp
index 05e3444..489f29d 100644
--- a/solver_lqr/src/solver_lqr/OcpDescription.cpp
+++ b/solver_lqr/src/solver_lqr/OcpDescription.cpp
@@ -66,6 +66,7 @@ namespace solverlqr
   // StateSequence functions
   void StateSequence::resize(int tdim, int xdim)
   {
+	stateseq_.clear();
 	StateBase state(xdim);
 	for (int time=0; time<tdim; time++)
 	  stateseq_.push_back(state);
-- 
2.43.0


From a058b7213212126eea5ebacb952c024f36c17794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:46 +0000
Subject: [PATCH 34/67] fix: no feedback gains were returned when the initial
 controls were optimal

The solver stops on the gradient before any step is accepted, so the gains it computed were dropped.
---
 solver_lqr/src/solver_lqr/SolverLqr.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/solver_lqr/src/solver_lqr/SolverLqr.cpp b/solver_lqr/src/solver_lqr/SolverLqr.cpp
index d85e516..798753a 100644
--- a/solver_lqr/src/solver_lqr/SolverLqr.cpp
+++ b/solver_lqr/src/solver_lqr/SolverLqr.cpp
@@ -57,6 +57,7 @@ namespace solverlqr {
 
     // Initialization of configuration variables
     devs_flag_ = true;
+    bool step_accepted = false;
     this->getLqrInfo().get(SolverLqrDoubleParam_ExpectedCost) = 0.0;
 
     // Begin algorithm iterations
@@ -93,6 +94,10 @@ namespace solverlqr {
       this->getLqrInfo().get(SolverLqrDoubleParam_ControlGradient) = ControlSequence::controlSequenceGradientNorm(this->getBackPass().controlSeq(), this->getOcp().controlSeq());
       if (this->getLqrInfo().get(SolverLqrDoubleParam_ControlGradient) < this->getLqrSetting().get(SolverLqrDoubleParam_ControlGradientTolerance)) {
         this->getPrinter().display(MsgLqr::SUCC_gradient, this->getLqrInfo());
+        // the initial controls were optimal already, their feedback is still missing
+        if (backpass_flag_ && !step_accepted)
+          for (int time_id=0; time_id<this->getOcp().tdim(); time_id++)
+            this->getOcp().controlSeq().control(time_id).feedback() = this->getBackPass().controlSeq().control(time_id).feedback();
         break;
       }
 
@@ -129,6 +134,7 @@ namespace solverlqr {
 
         // Accept changes
         devs_flag_ = true;
+        step_accepted = true;
         this->getLqrInfo().get(SolverLqrDoubleParam_Cost) = this->getForwPass().newCost();
         this->getOcp().stateSeq() = this->getForwPass().stateSeq();
         this->getOcp().controlSeq() = this->getForwPass().controlSeq();
-- 
2.43.0


From 6783350e0e147a15b4b9543a11f810e80bad8eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:48 +0000
Subject: [PATCH 35/67] fix: number of LQR time steps lost one step to rounding
 of horizon over step

The planner rounds the same way, and a feedback controller needs as many steps as the plan it tracks.
---
 solver_lqr/src/solver_lqr/SolverLqrSetting.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solver_lqr/src/solver_lqr/SolverLqrSetting.cpp b/solver_lqr/src/solver_lqr/SolverLqrSetting.cpp
index 3ecbd32..2a73975 100644
--- a/solver_lqr/src/solver_lqr/SolverLqrSetting.cpp
+++ b/solver_lqr/src/solver_lqr/SolverLqrSetting.cpp
@@ -53,7 +53,7 @@ namespace solverlqr {
       state_dimension_ = stgs_vars["state_dimension"].as<int>();
       control_dimension_ = stgs_vars["control_dimension"].as<int>();
       initial_state_ = stgs_vars["initial_state"].as<Eigen::VectorXd>();
-      time_dimension_ = std::floor(time_horizon_/time_step_);
+      time_dimension_ = std::floor(time_horizon_/time_step_ + 1.e-6); // 0.3/0.1 is slightly less than 3
 
       has_control_limits_ = stgs_vars["has_control_limits"].as<bool>();
       if (has_control_limits_) {
-- 
2.43.0


From ac390795b2bafcaec423a4a35181ddfe806dabce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:48 +0000
Subject: [PATCH 36/67] fix: trajectories whose states are not numbers did not
 count as diverged

---
 solver_lqr/src/solver_lqr/ForwardPass.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solver_lqr/src/solver_lqr/ForwardPass.cpp b/solver_lqr/src/solver_lqr/ForwardPass.cpp
index ca4a5ab..099a80c 100644
--- a/solver_lqr/src/solver_lqr/ForwardPass.cpp
+++ b/solver_lqr/src/solver_lqr/ForwardPass.cpp
@@ -47,7 +47,7 @@ namespace solverlqr {
 
       // Divergence check
       for (int id=0; id<new_state_seq_.state(time_id+1).stateVector().size(); id++)
-        if (std::abs(new_state_seq_.state(time_id+1).stateVector()[id]) > this->getLqrSetting().get(SolverLqrDoubleParam_DivergenceLimitCheck)) {
+        if (!(std::abs(new_state_seq_.state(time_id+1).stateVector()[id]) <= this->getLqrSetting().get(SolverLqrDoubleParam_DivergenceLimitCheck))) {
           has_diverged_  = true;
           break;
         }
-- 
2.43.0


From c5251ca8415b6727d67101accf1b56a7cec4d508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:25 +0000
Subject: [PATCH 37/67] fix: feedback gains were those around the trajectory
 before the last step

---
 solver_lqr/src/solver_lqr/SolverLqr.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/solver_lqr/src/solver_lqr/SolverLqr.cpp b/solver_lqr/src/solver_lqr/SolverLqr.cpp
index 798753a..9db5c5c 100644
--- a/solver_lqr/src/solver_lqr/SolverLqr.cpp
+++ b/solver_lqr/src/solver_lqr/SolverLqr.cpp
@@ -57,7 +57,6 @@ namespace solverlqr {
 
     // Initialization of configuration variables
     devs_flag_ = true;
-    bool step_accepted = false;
     this->getLqrInfo().get(SolverLqrDoubleParam_ExpectedCost) = 0.0;
 
     // Begin algorithm iterations
@@ -94,8 +93,8 @@ namespace solverlqr {
       this->getLqrInfo().get(SolverLqrDoubleParam_ControlGradient) = ControlSequence::controlSequenceGradientNorm(this->getBackPass().controlSeq(), this->getOcp().controlSeq());
       if (this->getLqrInfo().get(SolverLqrDoubleParam_ControlGradient) < this->getLqrSetting().get(SolverLqrDoubleParam_ControlGradientTolerance)) {
         this->getPrinter().display(MsgLqr::SUCC_gradient, this->getLqrInfo());
-        // the initial controls were optimal already, their feedback is still missing
-        if (backpass_flag_ && !step_accepted)
+        // the controls are optimal, their feedback is that of the last backward pass
+        if (backpass_flag_)
           for (int time_id=0; time_id<this->getOcp().tdim(); time_id++)
             this->getOcp().controlSeq().control(time_id).feedback() = this->getBackPass().controlSeq().control(time_id).feedback();
         break;
@@ -134,7 +133,6 @@ namespace solverlqr {
 
         // Accept changes
         devs_flag_ = true;
-        step_accepted = true;
         this->getLqrInfo().get(SolverLqrDoubleParam_Cost) = this->getForwPass().newCost();
         this->getOcp().stateSeq() = this->getForwPass().stateSeq();
         this->getOcp().controlSeq() = this->getForwPass().controlSeq();
-- 
2.43.0


From 8a18a5f9951173e7e95d4fa9b49d5887ea644ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:25 +0000
Subject: [PATCH 38/67] fix: objective of the momentum feedback read past the
 end of the plan

---
 momentumopt/src/momentumopt/dynopt/DynamicsFeedback.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/momentumopt/src/momentumopt/dynopt/DynamicsFeedback.cpp b/momentumopt/src/momentumopt/dynopt/DynamicsFeedback.cpp
index f3c7f90..501b1b4 100644
--- a/momentumopt/src/momentumopt/dynopt/DynamicsFeedback.cpp
+++ b/momentumopt/src/momentumopt/dynopt/DynamicsFeedback.cpp
@@ -65,7 +65,7 @@ namespace momentumopt {
 	}
 
 	double objective = 0.0;
-    for (int eff_id=0; eff_id<this->getSetting().get(PlannerIntParam_NumActiveEndeffectors); eff_id++)
+    for (int eff_id=0; !is_final_timestep && eff_id<this->getSetting().get(PlannerIntParam_NumActiveEndeffectors); eff_id++)
       if (this->dynamicsSequence().dynamicsState(time_id).endeffectorActivation(eff_id))
         objective += control.feedforward().segment<3>(3*eff_id).dot( control_cost_*(control.feedforward().segment<3>(3*eff_id)) );
 
-- 
2.43.0


From 06674b59918e387fc7f32d985f0ee76ea2f77327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:25 +0000
Subject: [PATCH 39/67] fix: momentum feedback started from gains and states of
 an earlier plan

---
 momentumopt/src/momentumopt/dynopt/DynamicsFeedback.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/momentumopt/src/momentumopt/dynopt/DynamicsFeedback.cpp b/momentumopt/src/momentumopt/dynopt/DynamicsFeedback.cpp
index 501b1b4..ec82e09 100644
--- a/momentumopt/src/momentumopt/dynopt/DynamicsFeedback.cpp
+++ b/momentumopt/src/momentumopt/dynopt/DynamicsFeedback.cpp
@@ -29,6 +29,7 @@ namespace momentumopt {
 
     for (int time_id=0; time_id<this->dynamicsSequence().size(); time_id++) {
       this->controlSeq().control(time_id).feedforward().setZero();
+      this->controlSeq().control(time_id).feedback().setZero();
       for (int eff_id=0; eff_id<this->getSetting().get(PlannerIntParam_NumActiveEndeffectors); eff_id++)
         if (this->dynamicsSequence().dynamicsState(time_id).endeffectorActivation(eff_id))
           this->controlSeq().control(time_id).feedforward().segment<3>(3*eff_id) =  this->getSetting().get(PlannerDoubleParam_MassTimesGravity)*this->dynamicsSequence().dynamicsState(time_id).endeffectorForce(eff_id);
-- 
2.43.0


From d86e56384d2c6941794d47bfdf5483997aaaa13b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:59 +0000
Subject: [PATCH 40/67] fix: derivatives of the centroidal dynamics had the
 opposite sign

---
 momentumopt/python/momentumopt/kinoptpy/lqr_gain_manifold.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/momentumopt/python/momentumopt/kinoptpy/lqr_gain_manifold.py b/momentumopt/python/momentumopt/kinoptpy/lqr_gain_manifold.py
index a570e15..48a7cfd 100644
--- a/momentumopt/python/momentumopt/kinoptpy/lqr_gain_manifold.py
+++ b/momentumopt/python/momentumopt/kinoptpy/lqr_gain_manifold.py
@@ -229,14 +229,14 @@ class CentroidalLqr:
         for i in range(self.nx): 
             dx[i] = self.eps 
             fp = self.integrate_step(t, self.increment_x(x,dx), u)
-            fx[:,i] = self.diff_x(fp, f0)
+            fx[:,i] = self.diff_x(f0, fp)
             dx[i] = 0. 
         fx /= self.eps 
         du = np.zeros(self.m)
         for i in range(self.m): 
             du[i] = self.eps 
             fp = self.integrate_step(t, x, u+du)
-            fu[:,i] = self.diff_x(fp, f0)
+            fu[:,i] = self.diff_x(f0, fp)
             du[i] = 0.
         fu /= self.eps 
         return fx, fu  
-- 
2.43.0


From ebac08f7e4f7d20aa33e6ed16df3f0112e8b0b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:59 +0000
Subject: [PATCH 41/67] fix: curvature of the tracking cost drifted away from
 the point it was computed at

---
 momentumopt/python/momentumopt/kinoptpy/lqr_gain_manifold.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/momentumopt/python/momentumopt/kinoptpy/lqr_gain_manifold.py b/momentumopt/python/momentumopt/kinoptpy/lqr_gain_manifold.py
index 48a7cfd..b463ef3 100644
--- a/momentumopt/python/momentumopt/kinoptpy/lqr_gain_manifold.py
+++ b/momentumopt/python/momentumopt/kinoptpy/lqr_gain_manifold.py
@@ -292,7 +292,7 @@ class CentroidalLqr:
                 spp = self.cost(t, self.increment_x(x,dx1), u)
                 dx1[col] -= 2*self.eps 
                 spm = self.cost(t, self.increment_x(x,dx1), u)
-                dx1[col] -= self.eps 
+                dx1[col] += self.eps 
                 # 
                 dx2[col] += self.eps
                 smp = self.cost(t, self.increment_x(x,dx2), u)
-- 
2.43.0


From 81d8ffca872495a363b8764cdc0f7afeacd92ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:00 +0000
Subject: [PATCH 42/67] fix: six settings of the second order inverse
 kinematics could not be changed

---
 momentumopt/src/momentumopt/setting/PlannerSetting.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/momentumopt/src/momentumopt/setting/PlannerSetting.cpp b/momentumopt/src/momentumopt/setting/PlannerSetting.cpp
index 8eba360..37ce242 100644
--- a/momentumopt/src/momentumopt/setting/PlannerSetting.cpp
+++ b/momentumopt/src/momentumopt/setting/PlannerSetting.cpp
@@ -585,6 +585,12 @@ namespace momentumopt {
       case PlannerDoubleParam_WeightEndEffTracking_Second : { return w_endeff_tracking_second_; }
       case PlannerDoubleParam_PGainEndEffTracking_Second : { return p_endeff_tracking_second_; }
       case PlannerDoubleParam_PGainComTracking_Second : { return p_com_tracking_second_; }
+      case PlannerDoubleParam_WeightJointReg_Second : { return w_joint_regularization_second_; }
+      case PlannerDoubleParam_DGainEndEffTracking_Second : { return d_endeff_tracking_second_; }
+      case PlannerDoubleParam_PGainBaseOrientationTracking_Second : { return p_orient_tracking_second_; }
+      case PlannerDoubleParam_DGainBaseOrientationTracking_Second : { return d_orient_tracking_second_; }
+      case PlannerDoubleParam_PGainJointRegularization_Second : { return p_joint_regularization_second_; }
+      case PlannerDoubleParam_DGainJointRegularization_Second : { return d_joint_regularization_second_; }
 
       // Not handled parameters
       default: { throw std::runtime_error("PlannerSetting::set PlannerDoubleParam invalid"); break; }
-- 
2.43.0


From 8660675c018dd0360e9ed0749f8a65c78df21ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:00 +0000
Subject: [PATCH 43/67] fix: setEffTorque of the Python interface moved the
 end-effector instead

---
 momentumopt/srcpy/momentumopt/dynopt/PyDynamics.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/momentumopt/srcpy/momentumopt/dynopt/PyDynamics.cpp b/momentumopt/srcpy/momentumopt/dynopt/PyDynamics.cpp
index 9cad0c6..8990be2 100644
--- a/momentumopt/srcpy/momentumopt/dynopt/PyDynamics.cpp
+++ b/momentumopt/srcpy/momentumopt/dynopt/PyDynamics.cpp
@@ -26,7 +26,7 @@ static void setEffForce(DynamicsState& self, const int effId, const Eigen::Vecto
   self.endeffectorForce(effId) = force;
 }
 static void setEffTorque(DynamicsState& self, const int effId, const Eigen::Vector3d& torque){
-  self.endeffectorPosition(effId) = torque;
+  self.endeffectorTorque(effId) = torque;
 }
 static void setEffActivation(DynamicsState& self, const int effId, const bool activation){
   self.endeffectorActivation(effId) = activation;
-- 
2.43.0


From 960888990823e7ebae1385037493bb45cb1bcc88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:22 +0000
Subject: [PATCH 44/67] fix: the Python module could not be imported when built
 with a current pybind11

---
 momentumopt/srcpy/momentumopt/cntopt/PyContacts.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/momentumopt/srcpy/momentumopt/cntopt/PyContacts.cpp b/momentumopt/srcpy/momentumopt/cntopt/PyContacts.cpp
index 7b6960d..6dfc080 100644
--- a/momentumopt/srcpy/momentumopt/cntopt/PyContacts.cpp
+++ b/momentumopt/srcpy/momentumopt/cntopt/PyContacts.cpp
@@ -30,13 +30,15 @@ void init_contacts(py::module &m)
     .value("FullContact", ContactType::FullContact)
     .export_values();
 
-  py::enum_<Problem::EffId>(m, "EffId")
+  py::enum_<Problem::EffId> eff_id(m, "EffId");
+  eff_id
     .value("right_foot", Problem::EffId::id_right_foot)
     .value("left_foot", Problem::EffId::id_left_foot)
     .value("right_hand", Problem::EffId::id_right_hand)
     .value("left_hand", Problem::EffId::id_left_hand)
-    .export_values()
-    .def("value",   [](const Problem::EffId& id) { return static_cast<int>(id); });
+    .export_values();
+  // pybind11 defines a property of this name from version 2.5 on, which def() refuses to replace
+  eff_id.attr("value") = py::cpp_function([](const Problem::EffId& id) { return static_cast<int>(id); }, py::name("value"), py::is_method(eff_id));
  
   // binding of contacts state
   py::class_<ContactState>(m, "ContactState")
-- 
2.43.0


From a0f32089ffe71101e9111981f7ae1c3587a82783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:30 +0000
Subject: [PATCH 45/67] fix: swing trajectories late in a plan missed their end
 points

The polynomials were fitted in powers of the absolute time step, which
leaves no accuracy for steps in the hundreds.
---
 .../python/momentumopt/kinoptpy/min_jerk_traj.py       | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/momentumopt/python/momentumopt/kinoptpy/min_jerk_traj.py b/momentumopt/python/momentumopt/kinoptpy/min_jerk_traj.py
index 31b40e4..c7fc793 100644
--- a/momentumopt/python/momentumopt/kinoptpy/min_jerk_traj.py
+++ b/momentumopt/python/momentumopt/kinoptpy/min_jerk_traj.py
@@ -15,6 +15,7 @@ class Polynomial:
 
     def __init__(self, coeffs=None):
         self.fitted = False
+        self.x_offset = 0. # The coefficients are with respect to x - x_offset.
         self.coeffs = coeffs
         if not coeffs is None:
             self.order = self.coeffs.shape[0] - 1
@@ -50,7 +51,7 @@ class Polynomial:
     def eval(self, x):
         if not self.fitted:
             raise ValueError("Polynomial has not been fitted yet.")
-        return np.sum(np.power(x, self.coeffs[:, 1]) * self.coeffs[:, 0])
+        return np.sum(np.power(x - self.x_offset, self.coeffs[:, 1]) * self.coeffs[:, 0])
 
     def deval(self, x):
         if not self.fitted:
@@ -62,7 +63,7 @@ class Polynomial:
             return 0.
         else:
             coeffs = self.differentiate()
-            return np.sum(np.power(x, coeffs[:, 1]) * coeffs[:, 0])
+            return np.sum(np.power(x - self.x_offset, coeffs[:, 1]) * coeffs[:, 0])
 
     def set_constraints(self, x_values, y_values, derivative_orders):
         for i in range(len(x_values)):
@@ -148,8 +149,11 @@ def constant_poly(y_const):
 
 
 def poly_points(t, y_from, y_to, via=None):
-    constraints = create_constraints(t, [y_from, y_to], via=via)
+    # Fit relative to the start of the time window: for late windows the powers
+    # of the absolute time are too large for an accurate fit.
+    constraints = create_constraints([0., t[1] - t[0]], [y_from, y_to], via=via)
     poly = Polynomial()
+    poly.x_offset = t[0]
     poly.set_constraints(constraints[:, 0], constraints[:, 1], constraints[:, 2])
     poly.fit()
     return poly
-- 
2.43.0


From 0f28443d12e9f6f13d5a5c6d0f89f6635b5ad79e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:30 +0000
Subject: [PATCH 46/67] fix: swing to a contact that lasts to the end of the
 plan was left out

An endeffector that is in contact all the time, never, or not at the
start of the plan was not handled either.
---
 .../kinoptpy/momentum_kinematics_optimizer.py | 27 ++++++++++---------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/momentumopt/python/momentumopt/kinoptpy/momentum_kinematics_optimizer.py b/momentumopt/python/momentumopt/kinoptpy/momentum_kinematics_optimizer.py
index a8309fe..501a92c 100644
--- a/momentumopt/python/momentumopt/kinoptpy/momentum_kinematics_optimizer.py
+++ b/momentumopt/python/momentumopt/kinoptpy/momentum_kinematics_optimizer.py
@@ -45,21 +45,22 @@ class EndeffectorTrajectoryGenerator(object):
 
     def get_contact_plan_from_dyn_optimizer(self, mom_kin_optimizer):
         contact_plan = {}
+        dynamics_states = mom_kin_optimizer.dynamic_sequence.dynamics_states
+        last_it = mom_kin_optimizer.num_time_steps - 1
         for i, eff in enumerate(mom_kin_optimizer.eff_names):
             contact_plan[eff] = []
-            start_time = 0.
-            count = 1
-            for it in range(mom_kin_optimizer.num_time_steps-1):
-                current_contact_activation = mom_kin_optimizer.dynamic_sequence.dynamics_states[it].effActivation(i)
-                last_contact_activation = mom_kin_optimizer.dynamic_sequence.dynamics_states[it+1].effActivation(i)
-                if not current_contact_activation == last_contact_activation:
-                    if (count%2 == 0):
-                        start_time = it+1
-                    elif (count%2 == 1 or it == mom_kin_optimizer.num_time_steps-1):
-                        end_time = it
-                        plan = [start_time, end_time, mom_kin_optimizer.dynamic_sequence.dynamics_states[it].eff(i)]
-                        contact_plan[eff].append(plan)
-                    count += 1
+            start_time = None
+            for it in range(mom_kin_optimizer.num_time_steps):
+                if not dynamics_states[it].effActivation(i):
+                    continue
+                if start_time is None:
+                    start_time = it
+                if it == last_it or not dynamics_states[it+1].effActivation(i):
+                    contact_plan[eff].append([start_time, it, dynamics_states[it].eff(i)])
+                    start_time = None
+            # An endeffector that is never in contact stays where it is.
+            if not contact_plan[eff]:
+                contact_plan[eff].append([0, last_it, dynamics_states[0].eff(i)])
         return contact_plan
 
 
-- 
2.43.0


From 5302f144b4844f6876616d88b19a1107eb180e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:30 +0000
Subject: [PATCH 47/67] fix: second order inverse kinematics lost a millisecond
 per step for some time steps

dt/0.001 can be just below the whole number, for example for 0.043 s.
---
 momentumopt/python/momentumopt/kinoptpy/second_order_ik.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/momentumopt/python/momentumopt/kinoptpy/second_order_ik.py b/momentumopt/python/momentumopt/kinoptpy/second_order_ik.py
index b3fae41..12634bf 100644
--- a/momentumopt/python/momentumopt/kinoptpy/second_order_ik.py
+++ b/momentumopt/python/momentumopt/kinoptpy/second_order_ik.py
@@ -195,7 +195,7 @@ class SecondOrderInverseKinematics(object):
         dq_kin = np.zeros([num_time_steps,dq_init.shape[0]])
         ddq_kin = np.zeros_like(dq_kin)
 
-        inner_steps = int(dt/0.001)
+        inner_steps = int(round(dt/0.001))
         inner_dt = 0.001
         time = np.linspace(0., (num_time_steps-1)*dt, num_time_steps)
         splined_com_ref = CubicSpline(time, com_ref)
-- 
2.43.0


From 1d3dc585479f9296c25397002f0d3052ef71277c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:20 +0000
Subject: [PATCH 48/67] fix: motions that start in flight could not be computed

The momentum kept during flight was not defined before the first contact,
and it was written into the stored momentum of the dynamics.
---
 .../momentumopt/kinoptpy/momentum_kinematics_optimizer.py   | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/momentumopt/python/momentumopt/kinoptpy/momentum_kinematics_optimizer.py b/momentumopt/python/momentumopt/kinoptpy/momentum_kinematics_optimizer.py
index 501a92c..99e4de7 100644
--- a/momentumopt/python/momentumopt/kinoptpy/momentum_kinematics_optimizer.py
+++ b/momentumopt/python/momentumopt/kinoptpy/momentum_kinematics_optimizer.py
@@ -376,6 +376,10 @@ class MomentumKinematicsOptimizer(object):
                 self.inv_kin.forward_robot(q, dq)
                 self.fill_kinematic_result(it, q, dq)
         else:
+            # momentum to be used if the motion starts with a flight phase
+            mom_ref_flight = np.hstack((self.lmom_dyn[0], self.amom_dyn[0]))
+            lmom_ref = self.lmom_dyn[0].copy()
+
             for it in range(self.num_time_steps):
                 quad_goal = se3.Quaternion(se3.rpy.rpyToMatrix(np.matrix(self.base_des[:,it]).T))
                 quad_q = se3.Quaternion(float(q[6]), float(q[3]), float(q[4]), float(q[5]))
@@ -393,7 +397,7 @@ class MomentumKinematicsOptimizer(object):
                     amom_ref = mom_ref_flight[3:6]
                     lmom_ref[2] -= self.planner_setting.get(PlannerDoubleParam_RobotWeight) * self.dt
                 else:
-                    lmom_ref = self.lmom_dyn[it]
+                    lmom_ref = self.lmom_dyn[it].copy()
                     amom_ref = (self.reg_orientation * se3.log((quad_goal * quad_q.inverse()).matrix()).T + self.amom_dyn[it]).reshape(-1)
 
                 joint_regularization_ref = self.reg_joint_position * (self.joint_des[:,it] - q[7 : ])
-- 
2.43.0


From a0e01487c4a95013df0d9a4c08690a6dbcd77250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:37 +0000
Subject: [PATCH 49/67] fix: end-effector velocities of a motion belonged to
 the posture before

The stored end-effector velocities were computed from the Jacobian of the
previous posture (first order), or of the initial posture (second order).
---
 .../momentumopt/kinoptpy/momentum_kinematics_optimizer.py       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/momentumopt/python/momentumopt/kinoptpy/momentum_kinematics_optimizer.py b/momentumopt/python/momentumopt/kinoptpy/momentum_kinematics_optimizer.py
index 99e4de7..43ed7e9 100644
--- a/momentumopt/python/momentumopt/kinoptpy/momentum_kinematics_optimizer.py
+++ b/momentumopt/python/momentumopt/kinoptpy/momentum_kinematics_optimizer.py
@@ -252,7 +252,7 @@ class MomentumKinematicsOptimizer(object):
 
         # The endeffector informations as well.
         self.motion_eff['trajectory'][it] = framesPos(self.inv_kin.endeff_ids)
-        self.motion_eff['velocity'][it] = self.inv_kin.J[6:(self.inv_kin.ne + 2) * 3].dot(dq).T
+        self.motion_eff['velocity'][it] = framesVel(self.inv_kin.endeff_ids)
 
         self.motion_eff['trajectory_wrt_base'][it] = \
             self.motion_eff['trajectory'][it] - framesPos(self.hip_ids)
-- 
2.43.0


From f5c79363de38ef1336bdaa68ae41fb59fbbfc7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:51 +0000
Subject: [PATCH 50/67] fix: second order inverse kinematics used the momentum
 of an older state

The momentum in the robot data is not computed by update_kinematics: the
feedback on the momentum and the drift of the angular momentum used the
value of the last stored time step.
---
 momentumopt/python/momentumopt/kinoptpy/second_order_ik.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/momentumopt/python/momentumopt/kinoptpy/second_order_ik.py b/momentumopt/python/momentumopt/kinoptpy/second_order_ik.py
index 12634bf..a48df35 100644
--- a/momentumopt/python/momentumopt/kinoptpy/second_order_ik.py
+++ b/momentumopt/python/momentumopt/kinoptpy/second_order_ik.py
@@ -118,6 +118,8 @@ class SecondOrderInverseKinematics(object):
         self.robot.computeJointJacobians(q)
         self.robot.framesForwardKinematics(q)
         pin.computeJointJacobiansTimeVariation(self.robot.model, self.robot.data, q, dq)
+        # the momentum is used below and by the variation of the centroidal map
+        pin.computeCentroidalMomentum(self.robot.model, self.robot.data, q, dq)
         pin.computeCentroidalMapTimeVariation(self.robot.model, self.robot.data, q, dq)
 
         # update the op space Jacobian
-- 
2.43.0


From 97ffddce59d7393f475ff17cdafce815695ddcd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:22 +0000
Subject: [PATCH 51/67] fix: joint velocity file of quadruped held end-effector
 velocities

---
 momentumopt/python/momentumopt/kinoptpy/create_data_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/momentumopt/python/momentumopt/kinoptpy/create_data_file.py b/momentumopt/python/momentumopt/kinoptpy/create_data_file.py
index 49bcc7a..5537abf 100644
--- a/momentumopt/python/momentumopt/kinoptpy/create_data_file.py
+++ b/momentumopt/python/momentumopt/kinoptpy/create_data_file.py
@@ -177,7 +177,7 @@ def create_qp_files(time_vector, optimized_motion_eff, optimized_sequence, optim
 
         print("saving trajectories....")
         np.savetxt("quadruped_positions.dat", desired_joint_positions)
-        np.savetxt("quadruped_velocities.dat", des_velocities_final)
+        np.savetxt("quadruped_velocities.dat", desired_joint_velocities)
         np.savetxt("quadruped_positions_eff.dat", des_positions_final)
         np.savetxt("quadruped_velocities_eff.dat", des_velocities_final)
         np.savetxt("quadruped_com.dat", des_com)
-- 
2.43.0


From 4f18fbcb20f3b6d47b0a8b5cfb77e9e25169ece3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:48 +0000
Subject: [PATCH 52/67] fix: kinematics optimizer: map optimized dofs to the
 active dofs of the robot

With a set of active dofs other than the first ones, the posture stage used the
jacobian columns, reference positions, limits and constraints of other joints, the
trajectory stage the default positions of other joints, and both stored velocities
(the trajectory stage also accelerations) at other joints.
---
 .../kinopt/KinematicsOptimizer.cpp            | 32 +++++++++----------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/momentumopt/src/momentumopt/kinopt/KinematicsOptimizer.cpp b/momentumopt/src/momentumopt/kinopt/KinematicsOptimizer.cpp
index 6bc7739..4ee9f1c 100644
--- a/momentumopt/src/momentumopt/kinopt/KinematicsOptimizer.cpp
+++ b/momentumopt/src/momentumopt/kinopt/KinematicsOptimizer.cpp
@@ -149,7 +149,7 @@ namespace momentumopt {
 
           // penalty on joint default posture
           for (int dof_id=0; dof_id<this->getSetting().get(PlannerIntParam_NumActiveDofs); dof_id++)
-            quadobj.addQuaTerm(this->getSetting().get(PlannerVectorParam_WeightKinematicDefaultJointPositions)[dof_id], this->getSetting().get(PlannerVectorParam_KinematicDefaultJointPositions)[dof_id] - vars_[jnt_q_.id(6+dof_id,time_id)]);
+            quadobj.addQuaTerm(this->getSetting().get(PlannerVectorParam_WeightKinematicDefaultJointPositions)[dof_id], this->getSetting().get(PlannerVectorParam_KinematicDefaultJointPositions)[this->getSetting().get(PlannerIntVectorParam_ActiveDofs)[dof_id]] - vars_[jnt_q_.id(6+dof_id,time_id)]);
 
           // penalty on joint velocities and accelerations
           for (int dof_id=0; dof_id<this->getSetting().get(PlannerIntParam_NumExtendedActiveDofs); dof_id++) {
@@ -261,13 +261,13 @@ namespace momentumopt {
         // integrate current generalized velocities
         for (int time_id=0; time_id<this->getSetting().get(PlannerIntParam_NumTimesteps); time_id++) {
           for (int jnt_id=0; jnt_id<this->getSetting().get(PlannerIntParam_NumExtendedActiveDofs); jnt_id++)
-            this->kinematicsSequence().kinematicsState(time_id).robotVelocity().generalizedJointVelocities()[jnt_id] = vars_[jnt_qd_.id(jnt_id,time_id)].get(SolverDoubleParam_X);
+            this->kinematicsSequence().kinematicsState(time_id).robotVelocity().generalizedJointVelocities()[this->getSetting().get(PlannerIntVectorParam_ExtendedActiveDofs)[jnt_id]] = vars_[jnt_qd_.id(jnt_id,time_id)].get(SolverDoubleParam_X);
 
           this->kinematicsSequence().kinematicsState(time_id) = kin_interface_->integratePosture(this->kinematicsSequence().kinematicsState(time_id), this->getSetting().get(PlannerDoubleParam_KinIntegrationStep));
           if (time_id==0) { this->kinematicsSequence().kinematicsState(time_id) = kin_interface_->differentiatePostures(*ini_state_, this->kinematicsSequence().kinematicsState(time_id), dyn_sequence.dynamicsState(time_id).time()); }
           else            { this->kinematicsSequence().kinematicsState(time_id) = kin_interface_->differentiatePostures(this->kinematicsSequence().kinematicsState(time_id-1), this->kinematicsSequence().kinematicsState(time_id), dyn_sequence.dynamicsState(time_id).time()); }
           for (int jnt_id=0; jnt_id<this->getSetting().get(PlannerIntParam_NumExtendedActiveDofs); jnt_id++)
-            this->kinematicsSequence().kinematicsState(time_id).robotAcceleration().generalizedJointAccelerations()[jnt_id] = vars_[total_qdd_.id(jnt_id,time_id)].get(SolverDoubleParam_X);
+            this->kinematicsSequence().kinematicsState(time_id).robotAcceleration().generalizedJointAccelerations()[this->getSetting().get(PlannerIntVectorParam_ExtendedActiveDofs)[jnt_id]] = vars_[total_qdd_.id(jnt_id,time_id)].get(SolverDoubleParam_X);
         }
       }
       catch(...)
@@ -345,28 +345,28 @@ namespace momentumopt {
           // center of mass tracking
           lin_cons_ = -desired_com_velocity_[axis_id];
           for (int jnt_id=0; jnt_id<this->getSetting().get(PlannerIntParam_NumExtendedActiveDofs); jnt_id++)
-            lin_cons_ += kin_interface_->centerOfMassJacobian()(axis_id,jnt_id)*vars_[jnt_qd_.id(jnt_id,0)];
+            lin_cons_ += kin_interface_->centerOfMassJacobian()(axis_id,this->getSetting().get(PlannerIntVectorParam_ExtendedActiveDofs)[jnt_id])*vars_[jnt_qd_.id(jnt_id,0)];
           quadobj.addQuaTerm(this->getSetting().get(PlannerVectorParam_WeightKinematicTrackingCenterOfMass)[axis_id], lin_cons_);
 
           // linear momentum tracking
           lin_cons_ = -desired_lmom_velocity_[axis_id];
           for (int jnt_id=0; jnt_id<this->getSetting().get(PlannerIntParam_NumExtendedActiveDofs); jnt_id++)
-            lin_cons_ += kin_interface_->centroidalMomentumMatrix()(axis_id,jnt_id)*vars_[jnt_qdd_.id(jnt_id,0)]
-                       + kin_interface_->centroidalMomentumMatrixVariation()(axis_id,jnt_id)*vars_[total_qd_.id(jnt_id,0)];
+            lin_cons_ += kin_interface_->centroidalMomentumMatrix()(axis_id,this->getSetting().get(PlannerIntVectorParam_ExtendedActiveDofs)[jnt_id])*vars_[jnt_qdd_.id(jnt_id,0)]
+                       + kin_interface_->centroidalMomentumMatrixVariation()(axis_id,this->getSetting().get(PlannerIntVectorParam_ExtendedActiveDofs)[jnt_id])*vars_[total_qd_.id(jnt_id,0)];
           quadobj.addQuaTerm(this->getSetting().get(PlannerVectorParam_WeightKinematicTrackingLinearMomentum)[axis_id], lin_cons_);
 
           // angular momentum tracking
           lin_cons_ = -desired_amom_velocity_[axis_id];
           for (int jnt_id=0; jnt_id<this->getSetting().get(PlannerIntParam_NumExtendedActiveDofs); jnt_id++)
-            lin_cons_ += kin_interface_->centroidalMomentumMatrix()(3+axis_id,jnt_id)*vars_[jnt_qdd_.id(jnt_id,0)]
-                       + kin_interface_->centroidalMomentumMatrixVariation()(3+axis_id,jnt_id)*vars_[total_qd_.id(jnt_id,0)];
+            lin_cons_ += kin_interface_->centroidalMomentumMatrix()(3+axis_id,this->getSetting().get(PlannerIntVectorParam_ExtendedActiveDofs)[jnt_id])*vars_[jnt_qdd_.id(jnt_id,0)]
+                       + kin_interface_->centroidalMomentumMatrixVariation()(3+axis_id,this->getSetting().get(PlannerIntVectorParam_ExtendedActiveDofs)[jnt_id])*vars_[total_qd_.id(jnt_id,0)];
           quadobj.addQuaTerm(this->getSetting().get(PlannerVectorParam_WeightKinematicTrackingAngularMomentum)[axis_id], lin_cons_);
 
           // end-effector motion tracking
           for (int eff_id=0; eff_id<this->getSetting().get(PlannerIntParam_NumActiveEndeffectors); eff_id++) {
             lin_cons_ = -desired_eff_velocity_[eff_id][axis_id];
             for (int jnt_id=0; jnt_id<this->getSetting().get(PlannerIntParam_NumExtendedActiveDofs); jnt_id++)
-              lin_cons_ += kin_interface_->endeffectorJacobians()[eff_id](axis_id,jnt_id)*vars_[jnt_qd_.id(jnt_id,0)];
+              lin_cons_ += kin_interface_->endeffectorJacobians()[eff_id](axis_id,this->getSetting().get(PlannerIntVectorParam_ExtendedActiveDofs)[jnt_id])*vars_[jnt_qd_.id(jnt_id,0)];
             if (desired_state.endeffectorActivation(eff_id)) {
               quadobj.addQuaTerm(this->getSetting().get(PlannerVectorParam_WeightKinematicTrackingEndeffectorPosition)[axis_id], lin_cons_);
             } else {
@@ -387,7 +387,7 @@ namespace momentumopt {
 
         // penalty over default posture
         for (int jnt_id=0; jnt_id<this->getSetting().get(PlannerIntParam_NumActiveDofs); jnt_id++) {
-          quadobj.addQuaTerm(this->getSetting().get(PlannerVectorParam_WeightKinematicDefaultJointPositions)[jnt_id], vars_[jnt_q_.id(jnt_id,0)] - this->getSetting().get(PlannerVectorParam_KinematicDefaultJointPositions)[jnt_id]);
+          quadobj.addQuaTerm(this->getSetting().get(PlannerVectorParam_WeightKinematicDefaultJointPositions)[jnt_id], vars_[jnt_q_.id(jnt_id,0)] - this->getSetting().get(PlannerVectorParam_KinematicDefaultJointPositions)[this->getSetting().get(PlannerIntVectorParam_ActiveDofs)[jnt_id]]);
         }
 
         model_.setObjective(quadobj, 0.0);
@@ -398,7 +398,7 @@ namespace momentumopt {
 
         // integration of velocities using the accelerations
         for (int dof_id=0; dof_id<this->getSetting().get(PlannerIntParam_NumExtendedActiveDofs); dof_id++) {
-          lin_cons_ = -vars_[total_qd_.id(dof_id,0)] + current_state.robotVelocity().generalizedJointVelocities()[dof_id] + vars_[jnt_qdd_.id(dof_id,0)]*this->getSetting().get(PlannerDoubleParam_KinIntegrationStep);
+          lin_cons_ = -vars_[total_qd_.id(dof_id,0)] + current_state.robotVelocity().generalizedJointVelocities()[this->getSetting().get(PlannerIntVectorParam_ExtendedActiveDofs)[dof_id]] + vars_[jnt_qdd_.id(dof_id,0)]*this->getSetting().get(PlannerDoubleParam_KinIntegrationStep);
           //model_.addLinConstr(lin_cons_, "=", 0.0);
         }
 
@@ -406,17 +406,17 @@ namespace momentumopt {
         for (int con_id=0; con_id<num_constraints; con_id++) {
           lin_cons_ = -kin_interface_->constraintsVector()[con_id];
           for (int jnt_id=0; jnt_id<this->getSetting().get(PlannerIntParam_NumExtendedActiveDofs); jnt_id++)
-            lin_cons_ += kin_interface_->constraintsMatrix().row(con_id)[jnt_id]*vars_[jnt_qd_.id(jnt_id,0)];
+            lin_cons_ += kin_interface_->constraintsMatrix().row(con_id)[this->getSetting().get(PlannerIntVectorParam_ExtendedActiveDofs)[jnt_id]]*vars_[jnt_qd_.id(jnt_id,0)];
           model_.addLinConstr(vars_[slack_vars_.id(con_id,0)], ">", 0.0);
           model_.addLinConstr(lin_cons_, "<", vars_[slack_vars_.id(con_id,0)]);
         }
 
         // integrating joint positions and adding joint limits
         for (int jnt_id=0; jnt_id<this->getSetting().get(PlannerIntParam_NumActiveDofs); jnt_id++) {
-          lin_cons_ = -vars_[jnt_q_.id(jnt_id,0)] + current_state.robotPosture().jointPositions()[jnt_id] + this->getSetting().get(PlannerDoubleParam_KinIntegrationStep)*vars_[jnt_qd_.id(6+jnt_id,0)];
+          lin_cons_ = -vars_[jnt_q_.id(jnt_id,0)] + current_state.robotPosture().jointPositions()[this->getSetting().get(PlannerIntVectorParam_ActiveDofs)[jnt_id]] + this->getSetting().get(PlannerDoubleParam_KinIntegrationStep)*vars_[jnt_qd_.id(6+jnt_id,0)];
           model_.addLinConstr(lin_cons_, "=", 0.0);
-          model_.addLinConstr(vars_[jnt_q_.id(jnt_id,0)], ">", this->getSetting().get(PlannerVectorParam_MinJointAngles)[jnt_id]);
-          model_.addLinConstr(vars_[jnt_q_.id(jnt_id,0)], "<", this->getSetting().get(PlannerVectorParam_MaxJointAngles)[jnt_id]);
+          model_.addLinConstr(vars_[jnt_q_.id(jnt_id,0)], ">", this->getSetting().get(PlannerVectorParam_MinJointAngles)[this->getSetting().get(PlannerIntVectorParam_ActiveDofs)[jnt_id]]);
+          model_.addLinConstr(vars_[jnt_q_.id(jnt_id,0)], "<", this->getSetting().get(PlannerVectorParam_MaxJointAngles)[this->getSetting().get(PlannerIntVectorParam_ActiveDofs)[jnt_id]]);
         }
 
         // bodies non-penetration constraints// Write problem in standard conic form and solve it
@@ -436,7 +436,7 @@ namespace momentumopt {
 
         // storing solution
         for (int jnt_id=0; jnt_id<this->getSetting().get(PlannerIntParam_NumExtendedActiveDofs); jnt_id++)
-          current_state.robotVelocity().generalizedJointVelocities()[jnt_id] = vars_[jnt_qd_.id(jnt_id,0)].get(SolverDoubleParam_X);
+          current_state.robotVelocity().generalizedJointVelocities()[this->getSetting().get(PlannerIntVectorParam_ExtendedActiveDofs)[jnt_id]] = vars_[jnt_qd_.id(jnt_id,0)].get(SolverDoubleParam_X);
 
         // integrate current step velocities and update total velocities
         current_state = kin_interface_->integratePosture(current_state, this->getSetting().get(PlannerDoubleParam_KinIntegrationStep));
-- 
2.43.0


From 572c729510f100f2d263575709a8893252163e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:48 +0000
Subject: [PATCH 53/67] fix: kinematics optimizer: return center of mass,
 momenta and end-effectors of the optimized motion

The returned states kept the values of the postures before the last integration (or
of the posture stage), which the dynamics optimizer then used as its references.
---
 momentumopt/src/momentumopt/kinopt/KinematicsOptimizer.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/momentumopt/src/momentumopt/kinopt/KinematicsOptimizer.cpp b/momentumopt/src/momentumopt/kinopt/KinematicsOptimizer.cpp
index 4ee9f1c..e77d73a 100644
--- a/momentumopt/src/momentumopt/kinopt/KinematicsOptimizer.cpp
+++ b/momentumopt/src/momentumopt/kinopt/KinematicsOptimizer.cpp
@@ -58,6 +58,11 @@ namespace momentumopt {
 
     // time-horizon motion optimization
     this->optimizeTrajectory(ini_state, dyn_sequence);
+
+    // center of mass, momenta and end-effectors of the optimized motion
+    for (int time_id=0; time_id<this->getSetting().get(PlannerIntParam_NumTimesteps); time_id++)
+      this->kinematicsSequence().kinematicsState(time_id) = kin_interface_->updateJacobiansAndState(this->kinematicsSequence().kinematicsState(time_id), this->getSetting().get(PlannerDoubleParam_KinIntegrationStep));
+
     if (this->getSetting().get(PlannerBoolParam_DisplayMotion)) { this->displayMotion(dyn_sequence); }
 
     if (this->getSetting().get(PlannerBoolParam_StoreData)) { this->storeSolution(ini_state, dyn_sequence); }
-- 
2.43.0


From ef4de849313d6f24665605442076e695bc5ff202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:48 +0000
Subject: [PATCH 54/67] fix: kinematics optimizer: no deletion of states that
 were never created

The destructor of an optimizer that was never initialized deleted indeterminate
pointers; initializing again lost the first states.
---
 momentumopt/include/momentumopt/kinopt/KinematicsOptimizer.hpp | 2 +-
 momentumopt/src/momentumopt/kinopt/KinematicsOptimizer.cpp     | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/momentumopt/include/momentumopt/kinopt/KinematicsOptimizer.hpp b/momentumopt/include/momentumopt/kinopt/KinematicsOptimizer.hpp
index 73fb1dd..b67c6c8 100644
--- a/momentumopt/include/momentumopt/kinopt/KinematicsOptimizer.hpp
+++ b/momentumopt/include/momentumopt/kinopt/KinematicsOptimizer.hpp
@@ -32,7 +32,7 @@ namespace momentumopt {
 
     public:
 	  /*! default class constructor and destructor */
-	  KinematicsOptimizer(){}
+	  KinematicsOptimizer() : ini_state_(nullptr), current_state_(nullptr) {}
       ~KinematicsOptimizer();
 
       /**
diff --git a/momentumopt/src/momentumopt/kinopt/KinematicsOptimizer.cpp b/momentumopt/src/momentumopt/kinopt/KinematicsOptimizer.cpp
index e77d73a..09f76b4 100644
--- a/momentumopt/src/momentumopt/kinopt/KinematicsOptimizer.cpp
+++ b/momentumopt/src/momentumopt/kinopt/KinematicsOptimizer.cpp
@@ -28,6 +28,8 @@ namespace momentumopt {
     planner_setting_ = &planner_setting;
     kin_interface_->internalInitialization(planner_setting);
 
+    delete ini_state_;
+    delete current_state_;
     ini_state_ = new KinematicsState(this->getSetting().get(PlannerIntParam_NumDofs));
     current_state_ = new KinematicsState(this->getSetting().get(PlannerIntParam_NumDofs));
 
-- 
2.43.0


From 9d9c904489bf339c284399324bf814681ae66fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:23 +0000
Subject: [PATCH 55/67] fix: orientation utilities: angular velocities are
 those of the rotation, results are unit quaternions

The rotation vector rates of the current orientation were used as a rotation,
so that velocities were wrong unless both had the same axis.
---
 .../momentumopt/utilities/OrientationUtils.cpp   | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/momentumopt/src/momentumopt/utilities/OrientationUtils.cpp b/momentumopt/src/momentumopt/utilities/OrientationUtils.cpp
index 2d704b5..e4f0370 100644
--- a/momentumopt/src/momentumopt/utilities/OrientationUtils.cpp
+++ b/momentumopt/src/momentumopt/utilities/OrientationUtils.cpp
@@ -116,11 +116,9 @@ namespace momentumopt {
     Eigen::Quaternion<double> q_current = current_orientation;    q_current.normalize();
     if (q_current.dot(q_desired) < 0.0) { q_current.w() *= -1.0; q_current.vec() *= -1.0; }
 
-    Eigen::Quaternion<double> delta_quaternion = q_desired*q_current.inverse();
-    Eigen::Vector3d delta_rotation = logarithmicMap(delta_quaternion);
-    Eigen::Vector3d current_rotation = logarithmicMap(q_current);
-
-    return toAngularVelocity(current_rotation, delta_rotation/time_step, in_body_coordinates);
+    // constant angular velocity of the rotation that leads from the current to the desired orientation
+    if (!in_body_coordinates) { return logarithmicMap(q_desired*q_current.inverse()) / time_step; }
+    else                      { return logarithmicMap(q_current.inverse()*q_desired) / time_step; }
   }
 
   // integration of current orientation given an angular velocity and a time interval
@@ -129,13 +127,9 @@ namespace momentumopt {
                                                      const double& time_step, bool in_body_coordinates)
   {
     Eigen::Quaternion<double> q_current = current_orientation;    q_current.normalize();
-    if (q_current.w() < 0.0) { q_current.w() *= -1.0; q_current.vec() *= -1.0; }
-
-    Eigen::Vector3d current_rotation = logarithmicMap(q_current);
-    Eigen::Vector3d current_rotation_rate = fromAngularVelocity(current_rotation, angular_velocity, in_body_coordinates);
 
-    // return exponentialMap(current_rotation + current_rotation_rate*time_step);
-    return exponentialMap(current_rotation_rate*time_step) * current_orientation;
+    if (!in_body_coordinates) { return exponentialMap(angular_velocity*time_step) * q_current; }
+    else                      { return q_current * exponentialMap(angular_velocity*time_step); }
   }
 
   // error in the orientation between current and desired orientation
-- 
2.43.0


From e4185e71eca7276378e6c1bce65311b8b6135ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:23 +0000
Subject: [PATCH 56/67] fix: terrain region: rotation of regions without a
 right angle at the second vertex

---
 momentumopt/src/momentumopt/cntopt/TerrainDescription.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/momentumopt/src/momentumopt/cntopt/TerrainDescription.cpp b/momentumopt/src/momentumopt/cntopt/TerrainDescription.cpp
index 7f651d2..dc1eed2 100644
--- a/momentumopt/src/momentumopt/cntopt/TerrainDescription.cpp
+++ b/momentumopt/src/momentumopt/cntopt/TerrainDescription.cpp
@@ -49,8 +49,8 @@ namespace momentumopt {
     aux2 = ccwvertices.row(1) - ccwvertices.row(2);
     normal = aux1.cross(aux2);
     rotation_.row(0) = aux1 / aux1.norm();
-    rotation_.row(1) = aux2 / aux2.norm();
     rotation_.row(2) = normal / normal.norm();
+    rotation_.row(1) = rotation_.row(2).cross(rotation_.row(0));
   }
 
   std::string TerrainRegion::toString() const
-- 
2.43.0


From 6b7ca9b547a5bcdf68816eb91777223e67a0e479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:01 +0000
Subject: [PATCH 57/67] fix: robot wrapper: placements of frames are those of
 the configuration set last

---
 momentumopt/python/momentumopt/robots/blmc_robot_wrapper.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/momentumopt/python/momentumopt/robots/blmc_robot_wrapper.py b/momentumopt/python/momentumopt/robots/blmc_robot_wrapper.py
index 0d765cf..1d03a5d 100644
--- a/momentumopt/python/momentumopt/robots/blmc_robot_wrapper.py
+++ b/momentumopt/python/momentumopt/robots/blmc_robot_wrapper.py
@@ -25,7 +25,7 @@ class BasicRobotWrapper(object):
 
     def set_configuration(self, q):
         self.q = q
-        pinocchio.forwardKinematics(self.model, self.data, self.q)
+        pinocchio.framesForwardKinematics(self.model, self.data, self.q)
 
     def set_velocity(self, dq):
         self.dq = dq
@@ -34,10 +34,8 @@ class BasicRobotWrapper(object):
         self.ddq = ddq
 
     def update_configuration(self, delta_q):
-        self.q = pinocchio.integrate(self.model, self.q, delta_q)
+        self.set_configuration(pinocchio.integrate(self.model, self.q, delta_q))
 
-        # pinocchio.forwardKinematics(self.model, self.data, self.q)
-        # pinocchio.framesKinematics(self.model, self.data)
     def get_difference(self, q_1, q_2):
         return pinocchio.difference(self.model, q_1, q_2)
 
-- 
2.43.0


From ce0578cd0d0c52fca11b023f8af48fe714f9df3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:01 +0000
Subject: [PATCH 58/67] fix: robot wrapper: compute the centroidal momentum
 matrix and its derivative

centroidalMomentum computes the momentum only, the matrices were never set.
---
 momentumopt/python/momentumopt/robots/blmc_robot_wrapper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/momentumopt/python/momentumopt/robots/blmc_robot_wrapper.py b/momentumopt/python/momentumopt/robots/blmc_robot_wrapper.py
index 1d03a5d..e84d818 100644
--- a/momentumopt/python/momentumopt/robots/blmc_robot_wrapper.py
+++ b/momentumopt/python/momentumopt/robots/blmc_robot_wrapper.py
@@ -86,7 +86,7 @@ class BasicRobotWrapper(object):
 
     def get_centroidal_momentum(self):
         def eval_centroidal_momentum():
-            self.robot.centroidalMomentum(self.q, self.dq)
+            pinocchio.ccrba(self.model, self.data, self.q, self.dq)
             centroidal_momentum_matrix = self.data.Ag
             return centroidal_momentum_matrix
 
@@ -94,7 +94,7 @@ class BasicRobotWrapper(object):
 
     def get_d_centroidal_momentum(self):
         def eval_d_centroidal_momentum():
-            self.robot.centroidalMomentum(self.q, self.dq)
+            pinocchio.dccrba(self.model, self.data, self.q, self.dq)
             d_centroidal_momentum_matrix = self.data.dAg
             return d_centroidal_momentum_matrix
 
-- 
2.43.0


From b6d4dbd99efdafa5aeb62fed0a91a6d3eb7385fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:01 +0000
Subject: [PATCH 59/67] fix: robot wrapper: jacobians at a given configuration
 used the current one, that of the com was missing

---
 .../momentumopt/robots/blmc_robot_wrapper.py  | 23 ++++++++++++-------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/momentumopt/python/momentumopt/robots/blmc_robot_wrapper.py b/momentumopt/python/momentumopt/robots/blmc_robot_wrapper.py
index e84d818..33dbd96 100644
--- a/momentumopt/python/momentumopt/robots/blmc_robot_wrapper.py
+++ b/momentumopt/python/momentumopt/robots/blmc_robot_wrapper.py
@@ -39,12 +39,17 @@ class BasicRobotWrapper(object):
     def get_difference(self, q_1, q_2):
         return pinocchio.difference(self.model, q_1, q_2)
 
-    def get_world_oriented_frame_jacobian(self, index):
-        self.robot.forwardKinematics(self.q, self.dq)
-        self.robot.computeJointJacobians(self.q)
-        self.robot.framesForwardKinematics(self.q)
-        jac = pinocchio.getFrameJacobian(self.model, self.data, index, pinocchio.ReferenceFrame.LOCAL)
-        world_R_joint = pinocchio.SE3(self.data.oMf[index].rotation, zero(3))
+    def get_world_oriented_frame_jacobian(self, index, q=None):
+        # A configuration other than the current one leaves the data alone.
+        data = self.data
+        if q is None:
+            q = self.q
+        else:
+            data = self.model.createData()
+        pinocchio.computeJointJacobians(self.model, data, q)
+        pinocchio.framesForwardKinematics(self.model, data, q)
+        jac = pinocchio.getFrameJacobian(self.model, data, index, pinocchio.ReferenceFrame.LOCAL)
+        world_R_joint = pinocchio.SE3(data.oMf[index].rotation, zero(3))
         return world_R_joint.action.dot(jac)
 
     def get_jacobian(self, name, dofs=None, internal=True):
@@ -76,11 +81,13 @@ class BasicRobotWrapper(object):
                 return eval_jac_internal
         else:
             if name == "COM":
-                return self.Jcom
+                def eval_jac_com_at_q(q):
+                    return pinocchio.jacobianCenterOfMass(self.model, self.model.createData(), q)
+                return eval_jac_com_at_q
             else:
                 index = self.model.getFrameId(name)
                 def eval_jac_at_q(q):
-                    return self.get_world_oriented_frame_jacobian(index)[range_, :]
+                    return self.get_world_oriented_frame_jacobian(index, q)[range_, :]
                     # return pinocchio.frameJacobian(self.model, self.data, q, index, pinocchio.ReferenceFrame.LOCAL)[range_, :]
                 return eval_jac_at_q
 
-- 
2.43.0


From 6a6cd1257dc65197ea8a9d62b788ada2553f342b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:01 +0000
Subject: [PATCH 60/67] fix: robot wrapper: initial posture of robots with
 three joints per leg

---
 momentumopt/python/momentumopt/robots/blmc_robot_wrapper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/momentumopt/python/momentumopt/robots/blmc_robot_wrapper.py b/momentumopt/python/momentumopt/robots/blmc_robot_wrapper.py
index 33dbd96..5b58bef 100644
--- a/momentumopt/python/momentumopt/robots/blmc_robot_wrapper.py
+++ b/momentumopt/python/momentumopt/robots/blmc_robot_wrapper.py
@@ -254,7 +254,7 @@ class Quadruped12Wrapper(BasicRobotWrapper):
         angle = np.deg2rad(60.0)
         q_dummy = np.zeros(self.num_ctrl_joints)
         q_dummy[2::3] = angle
-        q_dummy[1:3] = -0.5 * angle
+        q_dummy[1::3] = -0.5 * angle
 
         self.q[7:] = q_dummy
 
@@ -302,7 +302,7 @@ class BipedWrapper(BasicRobotWrapper):
         angle = np.deg2rad(60.0)
         q_dummy = np.zeros(self.num_ctrl_joints)
         q_dummy[2::3] = angle
-        q_dummy[1:3] = -0.5 * angle
+        q_dummy[1::3] = -0.5 * angle
 
         self.q[7:] = q_dummy
 
-- 
2.43.0


From d1fd6be6f535894cb0d14f39d2ddba812e7ebf0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:52 +0000
Subject: [PATCH 61/67] fix: rt matrices: removing zero rows of a matrix could
 not be used and left out its first row

---
 solver/include/solver/rt_optimizer/RtMatrix.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/solver/include/solver/rt_optimizer/RtMatrix.hpp b/solver/include/solver/rt_optimizer/RtMatrix.hpp
index 44f5f07..38bcfea 100644
--- a/solver/include/solver/rt_optimizer/RtMatrix.hpp
+++ b/solver/include/solver/rt_optimizer/RtMatrix.hpp
@@ -93,7 +93,7 @@ namespace rt_solver {
         squared_norms = mat.rowwise().squaredNorm();
         const double normed_threash = squared_norms.size() * threshold * threshold;
         int num_valids = 0;
-        for (int row_id=1; row_id<squared_norms.size(); row_id++)
+        for (int row_id=0; row_id<squared_norms.size(); row_id++)
           if(squared_norms[row_id] > normed_threash)
             ++num_valids;
 
@@ -102,7 +102,7 @@ namespace rt_solver {
         else
         {
           typename RtMatrix<MaxRows, MaxCols>::d selector_mat;
-          createSelectorMat(selector_mat, squared_norms, num_valids, normed_threash); // create selector matrix to prune zero rows
+          createSelectorMat<MaxRows, MaxCols>(selector_mat, squared_norms, num_valids, normed_threash); // create selector matrix to prune zero rows
           mat = selector_mat * mat;
         }
       }
@@ -265,8 +265,8 @@ namespace rt_solver {
       static inline double conditionNumberFromSvd(const Eigen::JacobiSVD<Mat, QRPreconditioner>& mat_svd)
       { return mat_svd.singularValues()[0]/mat_svd.singularValues()[mat_svd.singularValues().size()-1]; }
 
-      static const double remove_zero_thresh_;
-      static const double mat_condition_thresh_;
+      static constexpr double remove_zero_thresh_ = 1.e-12;
+      static constexpr double mat_condition_thresh_ = 1.e8;
 
   };
 
-- 
2.43.0


From 9248599dfac7be26e12af78a13f7dbf19e6d8391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:52 +0000
Subject: [PATCH 62/67] fix: rt matrices: inverse singular values of matrices
 without full rank

---
 solver/include/solver/rt_optimizer/RtMatrix.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/solver/include/solver/rt_optimizer/RtMatrix.hpp b/solver/include/solver/rt_optimizer/RtMatrix.hpp
index 38bcfea..d9e861b 100644
--- a/solver/include/solver/rt_optimizer/RtMatrix.hpp
+++ b/solver/include/solver/rt_optimizer/RtMatrix.hpp
@@ -281,8 +281,8 @@ namespace rt_solver {
     int id;
     for (id=0; id<mat_svd.singularValues().size(); id++)
       if (mat_svd.singularValues()[id]>min_sing_val) { sigma_pinv_vec[id] = 1.0/mat_svd.singularValues()[id]; }
-      else                                           { sigma_pinv_vec[id] = 0.0; break; }
-    sigma_pinv_vec.segment(id+1, sigma_pinv_vec.size()-id);
+      else                                           { break; }
+    sigma_pinv_vec.tail(sigma_pinv_vec.size()-id).setZero();
   }
 
   template<int _mat_rows, int _mat_cols, int _mat_align, int max_mat_rows, int max_mat_cols, typename nullDer>
-- 
2.43.0


From 4ac9d313d2a57495a0047733e073b845e82b4c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:24 +0000
Subject: [PATCH 63/67] fix: rt matrices: removing zero rows of matrices with
 more rows than columns exceeded the storage

---
 solver/include/solver/rt_optimizer/RtMatrix.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/solver/include/solver/rt_optimizer/RtMatrix.hpp b/solver/include/solver/rt_optimizer/RtMatrix.hpp
index d9e861b..c3a0b76 100644
--- a/solver/include/solver/rt_optimizer/RtMatrix.hpp
+++ b/solver/include/solver/rt_optimizer/RtMatrix.hpp
@@ -101,8 +101,8 @@ namespace rt_solver {
         else if (num_valids == 0) { RtMatrixUtils::resize(mat, 0, mat.cols()); }
         else
         {
-          typename RtMatrix<MaxRows, MaxCols>::d selector_mat;
-          createSelectorMat<MaxRows, MaxCols>(selector_mat, squared_norms, num_valids, normed_threash); // create selector matrix to prune zero rows
+          typename RtMatrix<MaxRows, MaxRows>::d selector_mat;
+          createSelectorMat<MaxRows, MaxRows>(selector_mat, squared_norms, num_valids, normed_threash); // create selector matrix to prune zero rows
           mat = selector_mat * mat;
         }
       }
@@ -492,8 +492,8 @@ namespace rt_solver {
           RtVectorUtils::resize(vec, 0);
           RtMatrixUtils::resize(mat, 0, mat.cols());
         } else {
-          typename RtMatrix<MaxRows, MaxCols>::d selector_mat;
-          RtMatrixUtils::createSelectorMat<MaxRows, MaxCols>(selector_mat, squared_norms, num_valids, normed_thresh);
+          typename RtMatrix<MaxRows, MaxRows>::d selector_mat;
+          RtMatrixUtils::createSelectorMat<MaxRows, MaxRows>(selector_mat, squared_norms, num_valids, normed_thresh);
           mat = selector_mat * mat;
           vec = selector_mat * vec;
         }
-- 
2.43.0


From e12057c133dca7b4fe2aff6d05c432c7481166b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:41 +0000
Subject: [PATCH 64/67] fix: conic solver: a model with binaries and heuristic
 constraints read uninitialised cone sizes on its first solve

---
 solver/include/solver/interface/Cone.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/solver/include/solver/interface/Cone.hpp b/solver/include/solver/interface/Cone.hpp
index 04ab1ba..b35cf42 100644
--- a/solver/include/solver/interface/Cone.hpp
+++ b/solver/include/solver/interface/Cone.hpp
@@ -88,7 +88,8 @@ namespace solver {
   {
     public:
 	  // Cone class
-	  Cone(){}
+	  Cone() : nvars_(0), neq_(0), nineq_(0), nsoc_(0), ssoc_(0), extssoc_(0), lpconestart_(0), soconestart_(0), sizecone_(0),
+	    extsizecone_(0), sizeconstraints_(0), sizeproblem_(0), extsizeproblem_(0) {}
 	  ~Cone(){}
 
 	  // Setting up problem
-- 
2.43.0


From 8201c93d05912953545d8e56947cebc8d0c8da04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:03:23 +0000
Subject: [PATCH 65/67] fix: DynamicsState.effOrientation can be read from
 Python (as x, y, z, w)

---
 momentumopt/srcpy/momentumopt/dynopt/PyDynamics.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/momentumopt/srcpy/momentumopt/dynopt/PyDynamics.cpp b/momentumopt/srcpy/momentumopt/dynopt/PyDynamics.cpp
index 8990be2..efc60f0 100644
--- a/momentumopt/srcpy/momentumopt/dynopt/PyDynamics.cpp
+++ b/momentumopt/srcpy/momentumopt/dynopt/PyDynamics.cpp
@@ -58,7 +58,7 @@ void init_dynamics(py::module &m)
     .def("effPosition", (const Eigen::Vector3d& (DynamicsState::*)(int) const) &DynamicsState::endeffectorPosition)
     .def("effVelocity", (const Eigen::Vector3d& (DynamicsState::*)(int) const) &DynamicsState::endeffectorVelocity)
     .def("effAcceleration", (const Eigen::Vector3d& (DynamicsState::*)(int) const) &DynamicsState::endeffectorAcceleration)
-    .def("effOrientation", (const Eigen::Quaternion<double>& (DynamicsState::*)(int) const) &DynamicsState::endeffectorOrientation)
+    .def("effOrientation", [](const DynamicsState &dyn_state, int eff_id) { return Eigen::Vector4d(dyn_state.endeffectorOrientation(eff_id).coeffs()); })
     .def("effActivation", (bool (DynamicsState::*)(int) const) &DynamicsState::endeffectorActivation)
 
     .def("setEffPosition", &setEffPosition, py::arg("EffId"), py::arg("position"))
-- 
2.43.0


From 054730ead882d3615b63ccff82dc75bcd874d6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:03:23 +0000
Subject: [PATCH 66/67] fix: integer vector settings can be read and set from
 Python

---
 momentumopt/srcpy/momentumopt/setting/PySetting.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/momentumopt/srcpy/momentumopt/setting/PySetting.cpp b/momentumopt/srcpy/momentumopt/setting/PySetting.cpp
index 83f80ea..9109b98 100644
--- a/momentumopt/srcpy/momentumopt/setting/PySetting.cpp
+++ b/momentumopt/srcpy/momentumopt/setting/PySetting.cpp
@@ -34,6 +34,9 @@ static void setCVectorParam(PlannerSetting& self,const PlannerCVectorParam& para
 static void setVectorParam(PlannerSetting& self,const PlannerVectorParam& param, const Eigen::Ref<const Eigen::VectorXd> value){
   self.get(param) = value;
 }
+static void setIntVectorParam(PlannerSetting& self,const PlannerIntVectorParam& param, const Eigen::Ref<const Eigen::VectorXi> value){
+  self.get(param) = value;
+}
 
 void init_setting(py::module &m)
 {
@@ -53,12 +56,14 @@ void init_setting(py::module &m)
 	.def("get", (const std::string& (PlannerSetting::*)(PlannerStringParam) const) &PlannerSetting::get)
   .def("get", (const std::vector<Eigen::VectorXd>& (PlannerSetting::*)(PlannerCVectorParam) const) &PlannerSetting::get)
 	.def("get", (const Eigen::Ref<const Eigen::VectorXd> (PlannerSetting::*)(PlannerVectorParam) const) &PlannerSetting::get)
+  .def("get", (const Eigen::Ref<const Eigen::VectorXi> (PlannerSetting::*)(PlannerIntVectorParam) const) &PlannerSetting::get)
   .def("set", &setIntParam, py::arg("IntParameter"), py::arg("value"))
   .def("set", &setBoolParam, py::arg("BoolParameter"), py::arg("value"))
   .def("set", &setDoubleParam, py::arg("DoubleParameter"), py::arg("value"))
   .def("set", &setStringParam, py::arg("StringParameter"), py::arg("value"))
   .def("set", &setCVectorParam, py::arg("CVectorParameter"), py::arg("value"))
-  .def("set", &setVectorParam, py::arg("VectorParameter"), py::arg("value"));
+  .def("set", &setVectorParam, py::arg("VectorParameter"), py::arg("value"))
+  .def("set", &setIntVectorParam, py::arg("IntVectorParameter"), py::arg("value"));
 }
 
 
-- 
2.43.0


From b01c57146672954e4960b03ea0c657081a2973bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:28:09 +0000
Subject: [PATCH 67/67] fix: assigning a control sequence to itself or from an
 empty one

Assigning a sequence to itself resized it first and so set all its
controls to zero; assigning an empty sequence read its first control.
---
 solver_lqr/src/solver_lqr/OcpDescription.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/solver_lqr/src/solver_lqr/OcpDescription.cpp b/solver_lqr/src/solver_lqr/OcpDescription.cpp
index 489f29d..1328e53 100644
--- a/solver_lqr/src/solver_lqr/OcpDescription.cpp
+++ b/solver_lqr/src/solver_lqr/OcpDescription.cpp
@@ -97,9 +97,7 @@ namespace solverlqr
 
   ControlSequence& ControlSequence::operator= (const ControlSequence& rhs)
   {
-	this->resize(rhs.size(), rhs.control(0).feedback().cols(), rhs.control(0).feedback().rows());
-	for (int time=0; time<rhs.size(); time++)
-      this->control(time) = rhs.control(time);
+	controlseq_ = rhs.controlseq_;
     return *this;
   }
 
-- 
2.43.0

