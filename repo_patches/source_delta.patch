From 108279ddc705a4cd777ece1ba47821d2bde14e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:04 +0000
Subject: [PATCH 01/52] fix: PriDec HessianApprox accepts every documented
 verbosity level

set_verbosity of the Hessian approximation asserted 0..3 while the solver passes
its own verbosity_level (documented range 0..12), so that levels above 3 aborted.
---
 src/Optimization/hiopAlgPrimalDecomp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Optimization/hiopAlgPrimalDecomp.cpp b/src/Optimization/hiopAlgPrimalDecomp.cpp
index 9b3eea8..d74e220 100644
--- a/src/Optimization/hiopAlgPrimalDecomp.cpp
+++ b/src/Optimization/hiopAlgPrimalDecomp.cpp
@@ -530,7 +530,7 @@ compute_base(const double val)
 
 void hiopAlgPrimalDecomposition::HessianApprox::set_verbosity(const int i)
 {
-  assert(i<=3 && i>=0);
+  assert(i<=12 && i>=0);
   ver_ = i;
 }
 
-- 
2.43.0


From f7e5f8e9f2f8990dd698edf09172df9b4cab6798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:04 +0000
Subject: [PATCH 02/52] fix: PriDec end-signal buffers outlive the non-blocking
 transfer

post_recv_end_signal/post_send_end_signal passed the address of a local variable
to MPI_Irecv/MPI_Isend and returned while the request was pending.
---
 src/Optimization/hiopAlgPrimalDecomp.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/Optimization/hiopAlgPrimalDecomp.cpp b/src/Optimization/hiopAlgPrimalDecomp.cpp
index d74e220..bdc9d9d 100644
--- a/src/Optimization/hiopAlgPrimalDecomp.cpp
+++ b/src/Optimization/hiopAlgPrimalDecomp.cpp
@@ -104,16 +104,16 @@ namespace hiop
     void post_recv_end_signal(int tag, int rank_from, MPI_Comm comm)
     {
       assert(request_ == MPI_REQUEST_NULL);
-      int recv_sign = 0;
-      int ierr = MPI_Irecv(&recv_sign, 1, MPI_INT, rank_from, tag, comm, &request_);
+      signal_ = 0;
+      int ierr = MPI_Irecv(&signal_, 1, MPI_INT, rank_from, tag, comm, &request_);
       assert(MPI_SUCCESS == ierr);
     }
     // only sende signal (that computation is finished), no actual functional information
     void post_send_end_signal(int tag, int rank_to, MPI_Comm comm)
     {
       assert(request_ == MPI_REQUEST_NULL);
-      int send_sign = 0;
-      int ierr = MPI_Isend(&send_sign, 1, MPI_INT, rank_to, tag, comm, &request_);
+      signal_ = 0;
+      int ierr = MPI_Isend(&signal_, 1, MPI_INT, rank_to, tag, comm, &request_);
       assert(MPI_SUCCESS == ierr);
     }
 
@@ -143,6 +143,7 @@ namespace hiop
   private:
     int n_;
     hiopVector* buffer;
+    int signal_ = 0; // outlives the non-blocking transfer of the end signal
   };
 
   /** This struct is used to post receive and request for contingency
-- 
2.43.0


From f121c275c07172aad17a8db8b8114be707c6628e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:04 +0000
Subject: [PATCH 03/52] fix: PriDec workers complete their last send before
 releasing its buffer

The last non-blocking send of every outer iteration was never waited for; its
buffer was deleted and the request leaked.
---
 src/Optimization/hiopAlgPrimalDecomp.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Optimization/hiopAlgPrimalDecomp.cpp b/src/Optimization/hiopAlgPrimalDecomp.cpp
index bdc9d9d..319331f 100644
--- a/src/Optimization/hiopAlgPrimalDecomp.cpp
+++ b/src/Optimization/hiopAlgPrimalDecomp.cpp
@@ -1118,6 +1118,7 @@ void hiopAlgPrimalDecomposition::set_local_accum(const std::string local_accum)
             // ierr = MPI_Irecv(&cont_idx[0], 1, MPI_INT, rank_master, 1, comm_world_, &request_[0]);
           }
         }
+        rec_prob[my_rank_]->wait(); // Ensure the last send has completed before its buffer is released.
       }
 
       if(my_rank_==0) {
@@ -1623,6 +1624,7 @@ void hiopAlgPrimalDecomposition::set_local_accum(const std::string local_accum)
 
           }
         }
+        rec_prob[my_rank_]->wait(); // Ensure the last send has completed before its buffer is released.
         //rval = rec_val;
         //grad_r->copyFrom(grad_acc_vec);
       }
-- 
2.43.0


From 52b0c1aeb323e847fe6366976256a58bb1a909cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:04 +0000
Subject: [PATCH 04/52] fix: PriDec honours the order of coupling indices when
 all variables are coupled

With nc==n the coupling index array was ignored when extracting the coupled
variables, whereas the recourse approximation and the step size use it.
---
 src/Optimization/hiopAlgPrimalDecomp.cpp | 50 ++++--------------------
 1 file changed, 7 insertions(+), 43 deletions(-)

diff --git a/src/Optimization/hiopAlgPrimalDecomp.cpp b/src/Optimization/hiopAlgPrimalDecomp.cpp
index 319331f..fc2359e 100644
--- a/src/Optimization/hiopAlgPrimalDecomp.cpp
+++ b/src/Optimization/hiopAlgPrimalDecomp.cpp
@@ -1025,12 +1025,7 @@ void hiopAlgPrimalDecomposition::set_local_accum(const std::string local_accum)
         grad_acc->setToZero();
         double aux=0.;
 
-        if(nc_<n_) {
-          x0->copy_from_indexes(*x_, *xc_idx_);
-        } else {
-          assert(nc_==n_);
-          x0->copyFromStarting(0, *x_);
-        }
+        x0->copy_from_indexes(*x_, *xc_idx_);
         for(int ri=0; ri<static_cast<int>(cont_idx.size()); ri++) {
           aux = 0.;
           int idx_temp = cont_idx[ri];
@@ -1077,12 +1072,7 @@ void hiopAlgPrimalDecomposition::set_local_accum(const std::string local_accum)
             grad_acc->setToZero();
 
             double aux=0.;
-            if(nc_<n_) {
-              x0->copy_from_indexes(*x_, *xc_idx_);
-            } else {
-              assert(nc_==n_);
-              x0->copyFromStarting(0, *x_);
-            }
+            x0->copy_from_indexes(*x_, *xc_idx_);
             for(int ri=0; ri<static_cast<int>(cont_idx.size()); ri++) {
               aux = 0.;
               int idx_temp = cont_idx[ri];
@@ -1143,12 +1133,7 @@ void hiopAlgPrimalDecomposition::set_local_accum(const std::string local_accum)
 
         hess_appx->setToConstant(1.0);
 
-        if(nc_<n_) {
-          x0->copy_from_indexes(*x_, *xc_idx_);
-        } else {
-          assert(nc_==n_);
-          x0->copyFromStarting(0, *x_);
-        }
+        x0->copy_from_indexes(*x_, *xc_idx_);
 
         if(it==0) {
           hess_appx_2->initialize(rval, *x0, *grad_r);
@@ -1518,12 +1503,7 @@ void hiopAlgPrimalDecomposition::set_local_accum(const std::string local_accum)
         
         double aux=0.;
 
-        if(nc_<n_) {
-          x0->copy_from_indexes(*x_, *xc_idx_);
-        } else {
-          assert(nc_==n_);
-          x0->copyFromStarting(0, *x_);
-        }
+        x0->copy_from_indexes(*x_, *xc_idx_);
         for(int ri=0; ri<static_cast<int>(cont_idx.size()); ri++) {
           aux = 0.;
           int idx_temp = cont_idx[ri];
@@ -1579,12 +1559,7 @@ void hiopAlgPrimalDecomposition::set_local_accum(const std::string local_accum)
             //grad_acc->setToZero();
 
             double aux=0.;
-            if(nc_<n_) {
-              x0->copy_from_indexes(*x_, *xc_idx_);
-            } else {
-              assert(nc_==n_);
-              x0->copyFromStarting(0, *x_);
-            }
+            x0->copy_from_indexes(*x_, *xc_idx_);
             for(int ri=0; ri<static_cast<int>(cont_idx.size()); ri++) {
               aux = 0.;
               int idx_temp = cont_idx[ri];
@@ -1667,12 +1642,7 @@ void hiopAlgPrimalDecomposition::set_local_accum(const std::string local_accum)
         
         hess_appx->setToConstant(1.0);
 
-        if(nc_<n_) {
-          x0->copy_from_indexes(*x_, *xc_idx_);
-        } else {
-          assert(nc_==n_);
-          x0->copyFromStarting(0, *x_);
-        }
+        x0->copy_from_indexes(*x_, *xc_idx_);
 
         if(it==0) {
           hess_appx_2->initialize(rval, *x0, *grad_r);
@@ -1870,13 +1840,7 @@ hiopSolveStatus hiopAlgPrimalDecomposition::run_single()
     }
     // The number of contigencies should be larger than the number of processors, which is 1
     // idx is the next contingency to be sent out from the master
-    if(nc_<n_) {
-      //printf("xc_idx %d ",xc_idx_[0]);
-      x0->copy_from_indexes(*x_, *xc_idx_);
-    } else {
-      assert(nc_==n_);
-      x0->copyFromStarting(0, *x_);
-    }
+    x0->copy_from_indexes(*x_, *xc_idx_);
     for(int i=0; i< static_cast<int>(S_);i++) {
       int idx_temp = cont_idx[i];
       double aux=0.;
-- 
2.43.0


From 9983a30dda10840853ec5f23c2898037bac55b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:56 +0000
Subject: [PATCH 05/52] fix: report constraints and multipliers to the user
 unscaled

The solution and iterate callbacks and getDualSolutions multiplied the multipliers
by the objective scaling instead of dividing, left the constraint rows scaled, or
returned uninitialised buffers.
---
 src/Optimization/hiopNlpFormulation.cpp | 160 ++++++++++++------------
 src/Optimization/hiopNlpFormulation.hpp |   6 +
 2 files changed, 86 insertions(+), 80 deletions(-)

diff --git a/src/Optimization/hiopNlpFormulation.cpp b/src/Optimization/hiopNlpFormulation.cpp
index 5204681..4b202a9 100644
--- a/src/Optimization/hiopNlpFormulation.cpp
+++ b/src/Optimization/hiopNlpFormulation.cpp
@@ -64,6 +64,7 @@
 
 #include <stdlib.h>     /* exit, EXIT_FAILURE */
 #include <cassert>
+#include <memory>
 
 using namespace std;
 namespace hiop
@@ -1035,45 +1036,61 @@ bool hiopNlpFormulation::eval_Jac_c_d(hiopVector& x, bool new_x, hiopMatrix& Jac
 void hiopNlpFormulation::
 get_dual_solutions(const hiopIterate& it, double* zl_a, double* zu_a, double* lambda_a)
 {
-  if(nullptr==nlp_scaling_) {
-    const hiopVector& zl = *it.get_zl();
-    const hiopVector& zu = *it.get_zu();
-    zl.copyTo(zl_a);
-    zu.copyTo(zu_a);
-    
-    if(cons_lambdas_ == nullptr) {
-      cons_lambdas_ = this->alloc_dual_vec();
-    }
-    cons_lambdas_->copy_from_two_vec_w_pattern(*it.get_yc(), *cons_eq_mapping_, *it.get_yd(), *cons_ineq_mapping_);
-    cons_lambdas_->copyTo(lambda_a);  
-  } else {
-    const double obj_scale_ext_to_hiop = this->get_obj_scale();
-    if(temp_x_ == nullptr) {
-      temp_x_ = this->alloc_primal_vec();
-    }
-    temp_x_->copyFrom(*it.get_zl());
-    temp_x_->scale(obj_scale_ext_to_hiop);
-    temp_x_->copyTo(zl_a);
-    temp_x_->copyFrom(*it.get_zu());
-    temp_x_->scale(obj_scale_ext_to_hiop);
-    temp_x_->copyTo(zu_a);
-
-    if(temp_eq_ == nullptr) {
-      temp_eq_ = this->alloc_dual_eq_vec();
-    }
-    if(temp_ineq_ == nullptr) {
-      temp_ineq_ = this->alloc_dual_ineq_vec();
-    }
-    if(cons_lambdas_ == nullptr) {
-      cons_lambdas_ = this->alloc_dual_vec();
-    }
-    temp_eq_   = nlp_transformations_.apply_to_cons_eq(*temp_eq_, n_cons_eq_);
-    temp_ineq_ = nlp_transformations_.apply_to_cons_ineq(*temp_ineq_, n_cons_ineq_);
-    cons_lambdas_->copy_from_two_vec_w_pattern(*temp_eq_, *cons_eq_mapping_, *temp_ineq_, *cons_ineq_mapping_);
-    cons_lambdas_->scale(obj_scale_ext_to_hiop);
-    cons_lambdas_->copyTo(lambda_a);
+  const double obj_scale = this->get_obj_scale();
+  if(temp_x_ == nullptr) {
+    temp_x_ = this->alloc_primal_vec();
+  }
+  temp_x_->copyFrom(*it.get_zl());
+  temp_x_->scale(1./obj_scale);
+  temp_x_->copyTo(zl_a);
+  temp_x_->copyFrom(*it.get_zu());
+  temp_x_->scale(1./obj_scale);
+  temp_x_->copyTo(zu_a);
+
+  update_user_lambdas(*it.get_yc(), *it.get_yd());
+  cons_lambdas_->copyTo(lambda_a);
+}
+
+void hiopNlpFormulation::update_user_lambdas(const hiopVector& y_c, const hiopVector& y_d)
+{
+  if(cons_lambdas_ == nullptr) {
+    cons_lambdas_ = this->alloc_dual_vec();
+  }
+  if(temp_eq_ == nullptr) {
+    temp_eq_ = this->alloc_dual_eq_vec();
+  }
+  if(temp_ineq_ == nullptr) {
+    temp_ineq_ = this->alloc_dual_ineq_vec();
+  }
+  // y_unscaled = y_scale*y_scaled/obj_scale
+  temp_eq_->copyFrom(y_c);
+  temp_ineq_->copyFrom(y_d);
+  if(nlp_scaling_) {
+    nlp_transformations_.apply_to_cons_eq(*temp_eq_, n_cons_eq_);
+    nlp_transformations_.apply_to_cons_ineq(*temp_ineq_, n_cons_ineq_);
   }
+  cons_lambdas_->copy_from_two_vec_w_pattern(*temp_eq_, *cons_eq_mapping_, *temp_ineq_, *cons_ineq_mapping_);
+  cons_lambdas_->scale(1./this->get_obj_scale());
+}
 
+void hiopNlpFormulation::update_user_cons_body(const hiopVector& c, const hiopVector& d)
+{
+  if(cons_body_ == nullptr) {
+    cons_body_ = this->alloc_dual_vec();
+  }
+  if(temp_eq_ == nullptr) {
+    temp_eq_ = this->alloc_dual_eq_vec();
+  }
+  if(temp_ineq_ == nullptr) {
+    temp_ineq_ = this->alloc_dual_ineq_vec();
+  }
+  temp_eq_->copyFrom(c);
+  temp_ineq_->copyFrom(d);
+  if(nlp_scaling_) {
+    nlp_transformations_.apply_inv_to_cons_eq(*temp_eq_, n_cons_eq_);
+    nlp_transformations_.apply_inv_to_cons_ineq(*temp_ineq_, n_cons_ineq_);
+  }
+  cons_body_->copy_from_two_vec_w_pattern(*temp_eq_, *cons_eq_mapping_, *temp_ineq_, *cons_ineq_mapping_);
 }
 
 void hiopNlpFormulation::user_callback_solution(hiopSolveStatus status,
@@ -1091,32 +1108,17 @@ void hiopNlpFormulation::user_callback_solution(hiopSolveStatus status,
   assert(y_d.get_size() == n_cons_ineq_);
 
   const double obj_scale_ext_to_hiop = this->get_obj_scale();
-  if(cons_lambdas_ == nullptr) {
-    cons_lambdas_ = this->alloc_dual_vec();
-  }
-  if(nlp_scaling_) {
-    // return unscaled values. 
-    // it's safe to modify these values since this function is called in the end
-    // y_unscaled = y_scale*y_scaled/obj_scale, z_unscaled = z_scaled/obj_scale
-    y_c = *(nlp_transformations_.apply_to_cons_eq(y_c, n_cons_eq_));
-    y_d = *(nlp_transformations_.apply_to_cons_ineq(y_d, n_cons_ineq_));
-    y_c.scale(obj_scale_ext_to_hiop);
-    y_d.scale(obj_scale_ext_to_hiop);
-    z_L.scale(obj_scale_ext_to_hiop);
-    z_U.scale(obj_scale_ext_to_hiop);
-  }
-  cons_lambdas_->copy_from_two_vec_w_pattern(y_c, *cons_eq_mapping_, y_d, *cons_ineq_mapping_);
-
-  //concatenate 'c' and 'd' into user's constraint body
-  if(cons_body_ == nullptr) {
-    cons_body_ = cons_lambdas_->alloc_clone();
-  }
-  if(nlp_scaling_) {
-    // return unscaled values 
-    c = *(nlp_transformations_.apply_inv_to_cons_eq(c, n_cons_eq_));
-    d = *(nlp_transformations_.apply_inv_to_cons_ineq(d, n_cons_ineq_));
-  }
-  cons_body_->copy_from_two_vec_w_pattern(c, *cons_eq_mapping_, d, *cons_ineq_mapping_);
+
+  // the user gets unscaled values, in the order of the user's constraints
+  update_user_lambdas(y_c, y_d);
+  update_user_cons_body(c, d);
+
+  // z_unscaled = z_scaled/obj_scale; the iterate is left untouched since it is used after this call
+  // (for example by get_dual_solutions)
+  std::unique_ptr<hiopVector> zl_user(z_L.new_copy());
+  std::unique_ptr<hiopVector> zu_user(z_U.new_copy());
+  zl_user->scale(1./obj_scale_ext_to_hiop);
+  zu_user->scale(1./obj_scale_ext_to_hiop);
 
   //! todo -> test this when fixed variables are removed -> the internal
   //! zl and zu may have different sizes than what user expects since HiOp removes
@@ -1134,8 +1136,8 @@ void hiopNlpFormulation::user_callback_solution(hiopSolveStatus status,
     hiopVectorPar cons_lambdas_host(n_cons_);
 
     x.copy_to_vectorpar(x_host);
-    z_L.copy_to_vectorpar(zl_host);
-    z_U.copy_to_vectorpar(zu_host);
+    zl_user->copy_to_vectorpar(zl_host);
+    zu_user->copy_to_vectorpar(zu_host);
     cons_body_->copy_to_vectorpar(cons_body_host);
     cons_lambdas_->copy_to_vectorpar(cons_lambdas_host);
 
@@ -1152,8 +1154,8 @@ void hiopNlpFormulation::user_callback_solution(hiopSolveStatus status,
     interface_base.solution_callback(status,
                                     (int)n_vars_,
                                     x.local_data_const(),
-                                    z_L.local_data_const(),
-                                    z_U.local_data_const(),
+                                    zl_user->local_data_const(),
+                                    zu_user->local_data_const(),
                                     (int)n_cons_,
                                     cons_body_->local_data_const(),
                                     cons_lambdas_->local_data_const(),
@@ -1187,16 +1189,14 @@ bool hiopNlpFormulation::user_callback_iterate(int iter,
   assert(y_c.get_size() == n_cons_eq_);
   assert(y_d.get_size() == n_cons_ineq_);
 
-  if(cons_lambdas_ == NULL) {
-    cons_lambdas_ = this->alloc_dual_vec();
-  }
-  cons_lambdas_->copy_from_two_vec_w_pattern(y_c, *cons_eq_mapping_, y_d, *cons_ineq_mapping_);
+  // the user gets unscaled values, in the order of the user's constraints
+  update_user_lambdas(y_c, y_d);
+  update_user_cons_body(c, d);
 
-  //concatenate 'c' and 'd' into user's constrainty body
-  if(cons_body_ == NULL) {
-    cons_body_ = cons_lambdas_->alloc_clone();
-  }
-  cons_body_->copy_from_two_vec_w_pattern(c, *cons_eq_mapping_, d, *cons_ineq_mapping_);
+  std::unique_ptr<hiopVector> zl_user(z_L.new_copy());
+  std::unique_ptr<hiopVector> zu_user(z_U.new_copy());
+  zl_user->scale(1./this->get_obj_scale());
+  zu_user->scale(1./this->get_obj_scale());
 
   //! todo -> test this when fixed variables are removed -> the internal
   //! zl and zu may have different sizes than what user expects since HiOp removes
@@ -1217,10 +1217,10 @@ bool hiopNlpFormulation::user_callback_iterate(int iter,
     s.copy_to_vectorpar(s_host);
     
     hiopVectorPar zl_host(n_vars_, vec_distrib_, comm_);
-    z_L.copy_to_vectorpar(zl_host);
+    zl_user->copy_to_vectorpar(zl_host);
     
     hiopVectorPar zu_host(n_vars_, vec_distrib_, comm_);
-    z_U.copy_to_vectorpar(zu_host);
+    zu_user->copy_to_vectorpar(zu_host);
     
     hiopVectorPar cons_body_host(n_cons_, vec_distrib_, comm_);
     cons_body_->copy_to_vectorpar(cons_body_host);
@@ -1253,8 +1253,8 @@ bool hiopNlpFormulation::user_callback_iterate(int iter,
                                            logbar_obj_value,
                                            (int)n_vars_,
                                            x.local_data_const(),
-                                           z_L.local_data_const(),
-                                           z_U.local_data_const(),
+                                           zl_user->local_data_const(),
+                                           zu_user->local_data_const(),
                                            (int)n_cons_ineq_,
                                            s.local_data_const(),
                                            (int)n_cons_,
diff --git a/src/Optimization/hiopNlpFormulation.hpp b/src/Optimization/hiopNlpFormulation.hpp
index ed522f4..2c6d30c 100644
--- a/src/Optimization/hiopNlpFormulation.hpp
+++ b/src/Optimization/hiopNlpFormulation.hpp
@@ -313,6 +313,12 @@ protected:
                               size_type& nfixed_vars);
   /* Preprocess constraints in a form supported the NLP formulation. */
   virtual bool process_constraints();
+
+  /// Updates `cons_lambdas_` with the (unscaled) multipliers of the user's constraints. The arguments are not changed.
+  void update_user_lambdas(const hiopVector& y_c, const hiopVector& y_d);
+
+  /// Updates `cons_body_` with the (unscaled) body of the user's constraints. The arguments are not changed.
+  void update_user_cons_body(const hiopVector& c, const hiopVector& d);
 protected:
 #ifdef HIOP_USE_MPI
   MPI_Comm comm_;
-- 
2.43.0


From af85a4647597ed43459e7778203de0567440e015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:17 +0000
Subject: [PATCH 06/52] fix: report removed fixed variables to the user in the
 user's dimensions

---
 src/Optimization/hiopNlpFormulation.cpp | 108 +++++++++++++-----------
 src/Optimization/hiopNlpFormulation.hpp |   6 +-
 src/Optimization/hiopNlpTransforms.hpp  |  54 ++++++++++++
 3 files changed, 118 insertions(+), 50 deletions(-)

diff --git a/src/Optimization/hiopNlpFormulation.cpp b/src/Optimization/hiopNlpFormulation.cpp
index 4b202a9..19dc29d 100644
--- a/src/Optimization/hiopNlpFormulation.cpp
+++ b/src/Optimization/hiopNlpFormulation.cpp
@@ -284,7 +284,9 @@ bool hiopNlpFormulation::finalizeInitialization()
       
 
 #ifdef HIOP_USE_MPI
-      fixedVarsRemover->setFSVectorDistrib(vec_distrib_,num_ranks_);
+      if(vec_distrib_ != nullptr) {
+        fixedVarsRemover->setFSVectorDistrib(vec_distrib_,num_ranks_);
+      }
       fixedVarsRemover->setMPIComm(comm_);
 #endif
       bret = fixedVarsRemover->setupDecisionVectorPart(); 
@@ -292,9 +294,11 @@ bool hiopNlpFormulation::finalizeInitialization()
     
       n_vars_ = fixedVarsRemover->rs_n();
 #ifdef HIOP_USE_MPI
-      index_type* vec_distrib_rs = fixedVarsRemover->allocRSVectorDistrib();
-      delete[] vec_distrib_;
-      vec_distrib_ = vec_distrib_rs;
+      if(vec_distrib_ != nullptr) {
+        index_type* vec_distrib_rs = fixedVarsRemover->allocRSVectorDistrib();
+        delete[] vec_distrib_;
+        vec_distrib_ = vec_distrib_rs;
+      }
 #endif
     
       hiopVector* xl_rs;
@@ -789,8 +793,11 @@ bool hiopNlpFormulation::get_starting_point(hiopVector& x0_for_hiop,
                   yc0_for_hiop.get_size() + yd0_for_hiop.get_size());
 
   hiopVector* x0_for_user = nlp_transformations_.apply_inv_to_x(x0_for_hiop, true);
-  double* zL0_for_user = zL0_for_hiop.local_data();
-  double* zU0_for_user = zU0_for_hiop.local_data();
+  // the user's space of variables includes the variables removed internally
+  std::unique_ptr<hiopVector> zL0_user_vec(new_user_bounds_duals(zL0_for_hiop));
+  std::unique_ptr<hiopVector> zU0_user_vec(new_user_bounds_duals(zU0_for_hiop));
+  double* zL0_for_user = zL0_user_vec->local_data();
+  double* zU0_for_user = zU0_user_vec->local_data();
   double* lambda_for_user = lambdas->local_data();
   double* d_for_user = d0.local_data();
   
@@ -810,6 +817,8 @@ bool hiopNlpFormulation::get_starting_point(hiopVector& x0_for_hiop,
     assert(n_cons_eq_+n_cons_ineq_ == n_cons_);
     
     //copy back 
+    nlp_transformations_.apply_to_bounds_duals(*zL0_user_vec, zL0_for_hiop);
+    nlp_transformations_.apply_to_bounds_duals(*zU0_user_vec, zU0_for_hiop);
     lambdas->copy_to_two_vec_w_pattern(yc0_for_hiop, *cons_eq_mapping_, yd0_for_hiop, *cons_ineq_mapping_);
   }
   if(!bret) {
@@ -840,8 +849,11 @@ bool hiopNlpFormulation::get_warmstart_point(hiopVector& x0_for_hiop,
                                                                   yc0_for_hiop.get_size() + yd0_for_hiop.get_size());
   
   hiopVector* x0_for_user = nlp_transformations_.apply_inv_to_x(x0_for_hiop, true);
-  double* zL0_for_user = zL0_for_hiop.local_data();
-  double* zU0_for_user = zU0_for_hiop.local_data();
+  // the user's space of variables includes the variables removed internally
+  std::unique_ptr<hiopVector> zL0_user_vec(new_user_bounds_duals(zL0_for_hiop));
+  std::unique_ptr<hiopVector> zU0_user_vec(new_user_bounds_duals(zU0_for_hiop));
+  double* zL0_for_user = zL0_user_vec->local_data();
+  double* zU0_for_user = zU0_user_vec->local_data();
   double* lambda_for_user = lambdas->local_data();
   double* d_for_user = d0.local_data();
   double* vl_for_user = vl0.local_data();
@@ -862,6 +874,8 @@ bool hiopNlpFormulation::get_warmstart_point(hiopVector& x0_for_hiop,
     assert(n_cons_eq_+n_cons_ineq_ == n_cons_);
     
     //copy back 
+    nlp_transformations_.apply_to_bounds_duals(*zL0_user_vec, zL0_for_hiop);
+    nlp_transformations_.apply_to_bounds_duals(*zU0_user_vec, zU0_for_hiop);
     lambdas->copy_to_two_vec_w_pattern(yc0_for_hiop, *cons_eq_mapping_, yd0_for_hiop, *cons_ineq_mapping_);
   }
   
@@ -1036,21 +1050,22 @@ bool hiopNlpFormulation::eval_Jac_c_d(hiopVector& x, bool new_x, hiopMatrix& Jac
 void hiopNlpFormulation::
 get_dual_solutions(const hiopIterate& it, double* zl_a, double* zu_a, double* lambda_a)
 {
-  const double obj_scale = this->get_obj_scale();
-  if(temp_x_ == nullptr) {
-    temp_x_ = this->alloc_primal_vec();
-  }
-  temp_x_->copyFrom(*it.get_zl());
-  temp_x_->scale(1./obj_scale);
-  temp_x_->copyTo(zl_a);
-  temp_x_->copyFrom(*it.get_zu());
-  temp_x_->scale(1./obj_scale);
-  temp_x_->copyTo(zu_a);
+  std::unique_ptr<hiopVector> zl_user(new_user_bounds_duals(*it.get_zl()));
+  std::unique_ptr<hiopVector> zu_user(new_user_bounds_duals(*it.get_zu()));
+  zl_user->copyTo(zl_a);
+  zu_user->copyTo(zu_a);
 
   update_user_lambdas(*it.get_yc(), *it.get_yd());
   cons_lambdas_->copyTo(lambda_a);
 }
 
+hiopVector* hiopNlpFormulation::new_user_bounds_duals(const hiopVector& z)
+{
+  std::unique_ptr<hiopVector> z_copy(z.new_copy());
+  // z_unscaled = z_scaled/obj_scale
+  return nlp_transformations_.apply_inv_to_bounds_duals(*z_copy)->new_copy();
+}
+
 void hiopNlpFormulation::update_user_lambdas(const hiopVector& y_c, const hiopVector& y_d)
 {
   if(cons_lambdas_ == nullptr) {
@@ -1113,36 +1128,33 @@ void hiopNlpFormulation::user_callback_solution(hiopSolveStatus status,
   update_user_lambdas(y_c, y_d);
   update_user_cons_body(c, d);
 
-  // z_unscaled = z_scaled/obj_scale; the iterate is left untouched since it is used after this call
-  // (for example by get_dual_solutions)
-  std::unique_ptr<hiopVector> zl_user(z_L.new_copy());
-  std::unique_ptr<hiopVector> zu_user(z_U.new_copy());
-  zl_user->scale(1./obj_scale_ext_to_hiop);
-  zu_user->scale(1./obj_scale_ext_to_hiop);
+  // the iterate is left untouched since it is used after this call (for example by get_dual_solutions)
+  std::unique_ptr<hiopVector> x_copy(x.new_copy());
+  const hiopVector& x_user = *nlp_transformations_.apply_inv_to_x(*x_copy, true);
+  std::unique_ptr<hiopVector> zl_user(new_user_bounds_duals(z_L));
+  std::unique_ptr<hiopVector> zu_user(new_user_bounds_duals(z_U));
+  const size_type n_user = nlp_transformations_.n_pre();
 
-  //! todo -> test this when fixed variables are removed -> the internal
-  //! zl and zu may have different sizes than what user expects since HiOp removes
-  //! variables internally
   if(options->GetString("callback_mem_space")=="host" && options->GetString("mem_space")=="device") {
     
 #if !defined(HIOP_USE_MPI)
     int* vec_distrib_ = nullptr;
     MPI_Comm comm_ = MPI_COMM_SELF;
 #endif  
-    hiopVectorPar x_host(n_vars_, vec_distrib_, comm_);
-    hiopVectorPar zl_host(n_vars_, vec_distrib_, comm_);
-    hiopVectorPar zu_host(n_vars_, vec_distrib_, comm_);
+    hiopVectorPar x_host(n_user, vec_distrib_, comm_);
+    hiopVectorPar zl_host(n_user, vec_distrib_, comm_);
+    hiopVectorPar zu_host(n_user, vec_distrib_, comm_);
     hiopVectorPar cons_body_host(n_cons_, vec_distrib_, comm_);
     hiopVectorPar cons_lambdas_host(n_cons_);
 
-    x.copy_to_vectorpar(x_host);
+    x_user.copy_to_vectorpar(x_host);
     zl_user->copy_to_vectorpar(zl_host);
     zu_user->copy_to_vectorpar(zu_host);
     cons_body_->copy_to_vectorpar(cons_body_host);
     cons_lambdas_->copy_to_vectorpar(cons_lambdas_host);
 
     interface_base.solution_callback(status,
-                                    (int)n_vars_,
+                                    (int)n_user,
                                     x_host.local_data_const(),
                                     zl_host.local_data_const(),
                                     zu_host.local_data_const(),
@@ -1152,8 +1164,8 @@ void hiopNlpFormulation::user_callback_solution(hiopSolveStatus status,
                                     obj_value/obj_scale_ext_to_hiop); 
   } else {
     interface_base.solution_callback(status,
-                                    (int)n_vars_,
-                                    x.local_data_const(),
+                                    (int)n_user,
+                                    x_user.local_data_const(),
                                     zl_user->local_data_const(),
                                     zu_user->local_data_const(),
                                     (int)n_cons_,
@@ -1193,14 +1205,12 @@ bool hiopNlpFormulation::user_callback_iterate(int iter,
   update_user_lambdas(y_c, y_d);
   update_user_cons_body(c, d);
 
-  std::unique_ptr<hiopVector> zl_user(z_L.new_copy());
-  std::unique_ptr<hiopVector> zu_user(z_U.new_copy());
-  zl_user->scale(1./this->get_obj_scale());
-  zu_user->scale(1./this->get_obj_scale());
-
-  //! todo -> test this when fixed variables are removed -> the internal
-  //! zl and zu may have different sizes than what user expects since HiOp removes
-  //! variables internally
+  // the iterate is left untouched
+  std::unique_ptr<hiopVector> x_copy(x.new_copy());
+  const hiopVector& x_user = *nlp_transformations_.apply_inv_to_x(*x_copy, true);
+  std::unique_ptr<hiopVector> zl_user(new_user_bounds_duals(z_L));
+  std::unique_ptr<hiopVector> zu_user(new_user_bounds_duals(z_U));
+  const size_type n_user = nlp_transformations_.n_pre();
 
   bool bret{false};
 
@@ -1210,16 +1220,16 @@ bool hiopNlpFormulation::user_callback_iterate(int iter,
     int* vec_distrib_ = nullptr;
     MPI_Comm comm_ = MPI_COMM_SELF;
 #endif  
-    hiopVectorPar x_host(n_vars_, vec_distrib_, comm_);
-    x.copy_to_vectorpar(x_host);
+    hiopVectorPar x_host(n_user, vec_distrib_, comm_);
+    x_user.copy_to_vectorpar(x_host);
 
     hiopVectorPar s_host(n_cons_ineq_, vec_distrib_, comm_);
     s.copy_to_vectorpar(s_host);
     
-    hiopVectorPar zl_host(n_vars_, vec_distrib_, comm_);
+    hiopVectorPar zl_host(n_user, vec_distrib_, comm_);
     zl_user->copy_to_vectorpar(zl_host);
     
-    hiopVectorPar zu_host(n_vars_, vec_distrib_, comm_);
+    hiopVectorPar zu_host(n_user, vec_distrib_, comm_);
     zu_user->copy_to_vectorpar(zu_host);
     
     hiopVectorPar cons_body_host(n_cons_, vec_distrib_, comm_);
@@ -1231,7 +1241,7 @@ bool hiopNlpFormulation::user_callback_iterate(int iter,
     bret = interface_base.iterate_callback(iter,
                                            obj_value/this->get_obj_scale(),
                                            logbar_obj_value,
-                                           (int)n_vars_,
+                                           (int)n_user,
                                            x_host.local_data_const(),
                                            zl_host.local_data_const(),
                                            zu_host.local_data_const(),
@@ -1251,8 +1261,8 @@ bool hiopNlpFormulation::user_callback_iterate(int iter,
     bret = interface_base.iterate_callback(iter,
                                            obj_value/this->get_obj_scale(),
                                            logbar_obj_value,
-                                           (int)n_vars_,
-                                           x.local_data_const(),
+                                           (int)n_user,
+                                           x_user.local_data_const(),
                                            zl_user->local_data_const(),
                                            zu_user->local_data_const(),
                                            (int)n_cons_ineq_,
diff --git a/src/Optimization/hiopNlpFormulation.hpp b/src/Optimization/hiopNlpFormulation.hpp
index 2c6d30c..8602fb4 100644
--- a/src/Optimization/hiopNlpFormulation.hpp
+++ b/src/Optimization/hiopNlpFormulation.hpp
@@ -260,7 +260,7 @@ public:
     //double *hiop_xa = hiop_x.local_data();
     hiopVector *x = nlp_transformations_.apply_inv_to_x(hiop_x,/*new_x=*/true); 
     //memcpy(user_x, user_xa, hiop_x.get_local_size()*sizeof(double));
-    memcpy(user_x, x->local_data(), nlp_transformations_.n_post_local()*sizeof(double));
+    memcpy(user_x, x->local_data(), nlp_transformations_.n_pre_local()*sizeof(double));
   }
 
   /* copies/unpacks duals of the bounds and of constraints from 'it' to the three arrays */
@@ -314,6 +314,10 @@ protected:
   /* Preprocess constraints in a form supported the NLP formulation. */
   virtual bool process_constraints();
 
+  /// Returns a copy of the bounds multipliers `z` in the user's space of variables: unscaled and including the
+  /// variables removed internally. The argument is not changed and the caller owns the returned vector.
+  hiopVector* new_user_bounds_duals(const hiopVector& z);
+
   /// Updates `cons_lambdas_` with the (unscaled) multipliers of the user's constraints. The arguments are not changed.
   void update_user_lambdas(const hiopVector& y_c, const hiopVector& y_d);
 
diff --git a/src/Optimization/hiopNlpTransforms.hpp b/src/Optimization/hiopNlpTransforms.hpp
index 0548f5e..dbbb246 100644
--- a/src/Optimization/hiopNlpTransforms.hpp
+++ b/src/Optimization/hiopNlpTransforms.hpp
@@ -103,6 +103,16 @@ public:
   virtual inline double apply_inv_to_obj          (double& f_in) { return f_in;} 
   virtual inline double apply_to_obj              (double& f_in) { return f_in;} 
 
+  /* transforms multipliers of the variables' bounds, from transformed ones to original ones */
+  virtual inline hiopVector* apply_inv_to_bounds_duals(hiopVector& z_in) { return &z_in; }
+  /* transforms multipliers of the variables' bounds, from original ones to transformed ones */
+  virtual inline void apply_to_bounds_duals(const hiopVector& z_in, hiopVector& z_out)
+  {
+    if(&z_in != &z_out) {
+      z_out.copyFrom(z_in);
+    }
+  }
+
   virtual inline hiopVector* apply_inv_to_grad_obj(hiopVector& grad_in) { return &grad_in; }
   virtual inline hiopVector* apply_to_grad_obj    (hiopVector& grad_in) { return &grad_in; }
 
@@ -204,6 +214,24 @@ public:
     apply_inv_to_vector(&grad_in, grad_fs);
     return grad_fs;
   }
+  /* from rs to fs; the multipliers of the variables that were removed are zero */
+  inline hiopVector* apply_inv_to_bounds_duals(hiopVector& z_in)
+  {
+    apply_inv_to_vector(&z_in, grad_fs);
+    double* z_fs_arr = grad_fs->local_data();
+    const int n_fs_local = static_cast<int>(fs2rs_idx_map.size());
+    for(int i=0; i<n_fs_local; i++) {
+      if(fs2rs_idx_map[i]<0) {
+        z_fs_arr[i] = 0.;
+      }
+    }
+    return grad_fs;
+  }
+  /* from fs to rs */
+  inline void apply_to_bounds_duals(const hiopVector& z_in, hiopVector& z_out)
+  {
+    apply_to_vector(&z_in, &z_out);
+  }
   /* from fs to rs */
   inline hiopVector* apply_to_grad_obj(hiopVector& grad_in)
   {
@@ -395,6 +423,13 @@ public:
     return &grad_in;
   }
 
+  /* from scaled to unscaled*/
+  inline hiopVector* apply_inv_to_bounds_duals(hiopVector& z_in)
+  {
+    z_in.scale(1./scale_factor_obj);
+    return &z_in;
+  }
+
   /* from unscaled to scaled*/
   inline hiopVector* apply_to_grad_obj(hiopVector& grad_in)
   {
@@ -679,6 +714,25 @@ public:
     return ret;
   }  
   
+  hiopVector* apply_inv_to_bounds_duals(hiopVector& z_in)
+  {
+    hiopVector* ret = &z_in;
+    for(std::list<hiopNlpTransformation*>::reverse_iterator it=list_trans_.rbegin(); it!=list_trans_.rend(); ++it) {
+      ret = (*it)->apply_inv_to_bounds_duals(*ret);
+    }
+    return ret;
+  }
+
+  void apply_to_bounds_duals(const hiopVector& z_in, hiopVector& z_out)
+  {
+    const hiopVector* z = &z_in;
+    for(std::list<hiopNlpTransformation*>::iterator it=list_trans_.begin(); it!=list_trans_.end(); ++it) {
+      (*it)->apply_to_bounds_duals(*z, z_out);
+      z = &z_out;
+    }
+    hiopNlpTransformation::apply_to_bounds_duals(*z, z_out);
+  }
+
   hiopVector* apply_inv_to_grad_obj(hiopVector& grad_in) 
   {
     hiopVector* ret = &grad_in;
-- 
2.43.0


From 07a6e2f0d2d34c532deacd176acd7d4f8933064f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:37 +0000
Subject: [PATCH 07/52] fix: one-call constraint Jacobians are scaled and
 reduced like the two-call ones

---
 src/Optimization/hiopNlpFormulation.cpp | 11 ++++--
 src/Optimization/hiopNlpTransforms.cpp  | 31 +++++++++--------
 src/Optimization/hiopNlpTransforms.hpp  | 45 ++++++++++++++++++++++++-
 3 files changed, 67 insertions(+), 20 deletions(-)

diff --git a/src/Optimization/hiopNlpFormulation.cpp b/src/Optimization/hiopNlpFormulation.cpp
index 19dc29d..0b07ca9 100644
--- a/src/Optimization/hiopNlpFormulation.cpp
+++ b/src/Optimization/hiopNlpFormulation.cpp
@@ -210,6 +210,9 @@ bool hiopNlpFormulation::finalizeInitialization()
   ////////////////////////////////////////////////////////////////////////////
   bool bret = interface_base.get_prob_sizes(n_vars_, n_cons_); assert(bret);
   nlp_transformations_.clear();
+  // these were deleted by the above call
+  nlp_scaling_ = nullptr;
+  relax_bounds_ = nullptr;
   nlp_transformations_.setUserNlpNumVars(n_vars_);
 
   delete xl_;
@@ -1542,9 +1545,11 @@ bool hiopNlpDenseConstraints::eval_Jac_c_d_interface_impl(hiopVector& x, bool ne
   Jac_cde->copyRowsFrom(*cons_Jac_, cons_eq_mapping_->local_data_const(), n_cons_eq_);
   Jac_dde->copyRowsFrom(*cons_Jac_, cons_ineq_mapping_->local_data_const(), n_cons_ineq_);
   
-  // scale Jacobian matrices
-  Jac_c = *(nlp_transformations_.apply_inv_to_jacob_eq(Jac_c, n_cons_eq_));
-  Jac_d = *(nlp_transformations_.apply_inv_to_jacob_ineq(Jac_d, n_cons_ineq_));
+  // scale Jacobian matrices (the other transformations were applied above)
+  if(nlp_scaling_) {
+    nlp_scaling_->apply_to_jacob_eq(Jac_c, n_cons_eq_);
+    nlp_scaling_->apply_to_jacob_ineq(Jac_d, n_cons_ineq_);
+  }
 
   runStats.tmEvalJac_con.stop();
   runStats.nEvalJac_con_eq++;
diff --git a/src/Optimization/hiopNlpTransforms.cpp b/src/Optimization/hiopNlpTransforms.cpp
index d97696b..c0b1934 100644
--- a/src/Optimization/hiopNlpTransforms.cpp
+++ b/src/Optimization/hiopNlpTransforms.cpp
@@ -70,8 +70,8 @@ hiopFixedVarsRemover(hiopNlpFormulation* nlp,
                      const size_type& numFixedVars_local)
   : hiopNlpTransformation(nlp),
     n_fixed_vars_local(numFixedVars_local), fixedVarTol(fixedVarTol_),
-    Jacc_fs(nullptr), Jacd_fs(nullptr),
-    Jacc_rs_ref(nullptr), Jacd_rs_ref(nullptr),
+    Jacc_fs(nullptr), Jacd_fs(nullptr), Jac_cons_fs(nullptr),
+    Jacc_rs_ref(nullptr), Jacd_rs_ref(nullptr), Jac_cons_rs_ref(nullptr),
     fs2rs_idx_map(xl.get_local_size()),
     x_rs_ref_(nullptr)
 {
@@ -92,6 +92,7 @@ hiopFixedVarsRemover::~hiopFixedVarsRemover()
   delete grad_fs;
   if(Jacc_fs) delete Jacc_fs;
   if(Jacd_fs) delete Jacd_fs;
+  delete Jac_cons_fs;
 };
 
 #ifdef HIOP_USE_MPI
@@ -183,15 +184,20 @@ bool hiopFixedVarsRemover::setupConstraintsPart(const int& neq, const int& nineq
       create_matrix_dense(nlp_->options->GetString("mem_space"),neq, n_fs, fs_vec_distrib.data(), comm);
     Jacd_fs = LinearAlgebraFactory::
       create_matrix_dense(nlp_->options->GetString("mem_space"), nineq, n_fs, fs_vec_distrib.data(), comm);
+    Jac_cons_fs = LinearAlgebraFactory::
+      create_matrix_dense(nlp_->options->GetString("mem_space"), neq+nineq, n_fs, fs_vec_distrib.data(), comm);
   } else {
     Jacc_fs = LinearAlgebraFactory::
       create_matrix_dense(nlp_->options->GetString("mem_space"), neq, n_fs, NULL, comm);
     Jacd_fs = LinearAlgebraFactory::
       create_matrix_dense(nlp_->options->GetString("mem_space"), nineq, n_fs, NULL, comm);
+    Jac_cons_fs = LinearAlgebraFactory::
+      create_matrix_dense(nlp_->options->GetString("mem_space"), neq+nineq, n_fs, NULL, comm);
   }
 #else
   Jacc_fs = LinearAlgebraFactory::create_matrix_dense(nlp_->options->GetString("mem_space"), neq, n_fs);
   Jacd_fs = LinearAlgebraFactory::create_matrix_dense(nlp_->options->GetString("mem_space"), nineq, n_fs);
+  Jac_cons_fs = LinearAlgebraFactory::create_matrix_dense(nlp_->options->GetString("mem_space"), neq+nineq, n_fs);
 #endif
   return true;
 }
@@ -458,18 +464,6 @@ hiopNLPObjGradScaling::hiopNLPObjGradScaling(hiopNlpFormulation* nlp,
   scale_factor_cd = LinearAlgebraFactory::create_vector(nlp_->options->GetString("mem_space"),
                                                         n_eq + n_ineq);
 
-  Jac_c.row_max_abs_value(*scale_factor_c);
-  scale_factor_c->scale(1./max_grad);
-  scale_factor_c->component_max(1.0);
-  scale_factor_c->invert();
-
-  Jac_d.row_max_abs_value(*scale_factor_d);
-  scale_factor_d->scale(1./max_grad);
-  scale_factor_d->component_max(1.0);
-  scale_factor_d->invert();
-
-  scale_factor_cd->copy_from_two_vec_w_pattern(*scale_factor_c, cons_eq_mapping, *scale_factor_d, cons_ineq_mapping);
-
   Jac_c.row_max_abs_value(*scale_factor_c);
   Jac_d.row_max_abs_value(*scale_factor_d);
   if(max_con_grad == 0.) {
@@ -489,13 +483,18 @@ hiopNLPObjGradScaling::hiopNLPObjGradScaling(hiopNlpFormulation* nlp,
       scale_factor_d->setToConstant(1.0);
     }
   } else {
-    scale_factor_c->setToConstant(max_con_grad / scale_factor_c->infnorm());
-    scale_factor_d->setToConstant(max_con_grad / scale_factor_d->infnorm());
+    const double jac_c_infnorm = scale_factor_c->infnorm();
+    const double jac_d_infnorm = scale_factor_d->infnorm();
+    scale_factor_c->setToConstant(jac_c_infnorm > 0. ? max_con_grad / jac_c_infnorm : 1.0);
+    scale_factor_d->setToConstant(jac_d_infnorm > 0. ? max_con_grad / jac_d_infnorm : 1.0);
   }
   if(min_grad > 0.0) {
     scale_factor_c->component_max(min_grad);
     scale_factor_d->component_max(min_grad);
   }
+
+  // factors of all the constraints, in the order of the user's constraints
+  scale_factor_cd->copy_from_two_vec_w_pattern(*scale_factor_c, cons_eq_mapping, *scale_factor_d, cons_ineq_mapping);
 }
 
 hiopNLPObjGradScaling::~hiopNLPObjGradScaling()
diff --git a/src/Optimization/hiopNlpTransforms.hpp b/src/Optimization/hiopNlpTransforms.hpp
index dbbb246..6a8a699 100644
--- a/src/Optimization/hiopNlpTransforms.hpp
+++ b/src/Optimization/hiopNlpTransforms.hpp
@@ -283,6 +283,30 @@ public:
     return Jacd_rs_ref;
   }
 
+  /* from rs to fs; Jacobian of all the constraints */
+  inline hiopMatrix* apply_inv_to_jacob_cons(hiopMatrix& Jac_in, const int& m_in)
+  {
+    hiopMatrixDense* Jac_de = dynamic_cast<hiopMatrixDense*>(&Jac_in);
+    if(Jac_de==nullptr) {
+      return nullptr;
+    }
+    Jac_cons_rs_ref = Jac_de;
+    assert(Jac_cons_fs->m()==m_in);
+    applyToMatrix(Jac_de->local_data(), m_in, Jac_cons_fs->local_data());
+    return Jac_cons_fs;
+  }
+  /* from fs to rs */
+  inline hiopMatrix* apply_to_jacob_cons(hiopMatrix& Jac_in, const int& m_in)
+  {
+    hiopMatrixDense* Jac_de = dynamic_cast<hiopMatrixDense*>(&Jac_in);
+    if(Jac_de==nullptr) {
+      return nullptr;
+    }
+    assert(Jac_cons_fs->m()==m_in);
+    applyInvToMatrix(Jac_de->local_data(), m_in, Jac_cons_rs_ref->local_data());
+    return Jac_cons_rs_ref;
+  }
+
   /** methods not inherited from parent class */
   bool setupDecisionVectorPart();
   bool setupConstraintsPart(const int& neq, const int& nineq);
@@ -323,10 +347,11 @@ protected:
   //working buffer used to hold the full-space (user's) vector of decision variables and other optimiz objects
   hiopVector*x_fs, *grad_fs;
   //working buffers for the full-space Jacobians
-  hiopMatrixDense *Jacc_fs, *Jacd_fs;
+  hiopMatrixDense *Jacc_fs, *Jacd_fs, *Jac_cons_fs;
   
   hiopMatrixDense *Jacc_rs_ref;
   hiopMatrixDense *Jacd_rs_ref;
+  hiopMatrixDense *Jac_cons_rs_ref;
 
   //a copy of the lower and upper bounds provided by user
   hiopVector*xl_fs, *xu_fs;
@@ -805,6 +830,24 @@ public:
     return ret;
   }
 
+  hiopMatrix* apply_inv_to_jacob_cons(hiopMatrix& Jac_in, const int& m_in)
+  {
+    hiopMatrix* ret = &Jac_in;
+    for(std::list<hiopNlpTransformation*>::reverse_iterator it=list_trans_.rbegin(); it!=list_trans_.rend(); ++it) {
+      ret = (*it)->apply_inv_to_jacob_cons(*ret, m_in);
+    }
+    return ret;
+  }
+
+  hiopMatrix* apply_to_jacob_cons(hiopMatrix& Jac_in, const int& m_in)
+  {
+    hiopMatrix* ret = &Jac_in;
+    for(std::list<hiopNlpTransformation*>::iterator it=list_trans_.begin(); it!=list_trans_.end(); ++it) {
+      ret = (*it)->apply_to_jacob_cons(*ret, m_in);
+    }
+    return ret;
+  }
+
   hiopMatrix* apply_inv_to_jacob_eq(hiopMatrix& Jac_in, const int& m_in)
   {
     hiopMatrix* ret = &Jac_in;
-- 
2.43.0


From 1dc0f1320c4a86b661c8eedcfd8e9f03a63e9f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:37 +0000
Subject: [PATCH 08/52] fix: user function failures and feasibility restoration
 leave a consistent iterate and status

- failures of the user's functions in the starting procedure, second order
  corrections and (soft or full) feasibility restoration stop the solver with
  Error_In_User_Function instead of tripping assertions or being ignored
- functions, derivatives and Hessian belong to the iterate that the
  restoration returns; a successful restoration lets the iterations continue
- objective of the base problem is evaluated at x, and the scaling of the
  restoration objective is defined for x=0
- accept_every_trial_step accepts the trial point
- moving_lim_abs limits the step
---
 src/Optimization/hiopAlgFilterIPM.cpp | 134 +++++++++++++++++++++-----
 src/Optimization/hiopFRProb.cpp       |  85 +++++++++++-----
 src/Optimization/hiopFRProb.hpp       |  12 +++
 3 files changed, 180 insertions(+), 51 deletions(-)

diff --git a/src/Optimization/hiopAlgFilterIPM.cpp b/src/Optimization/hiopAlgFilterIPM.cpp
index 973c6d4..6d6decd 100644
--- a/src/Optimization/hiopAlgFilterIPM.cpp
+++ b/src/Optimization/hiopAlgFilterIPM.cpp
@@ -344,7 +344,6 @@ int hiopAlgFilterIPMBase::startingProcedure(hiopIterate& it_ini,
 
   if(!this->evalNlp_noHess(it_ini, f, c, d, gradf, Jac_c, Jac_d)) {
     nlp->log->printf(hovError, "Failure in evaluating user provided NLP functions.");
-    assert(false);
     return false;
   }
 
@@ -363,7 +362,6 @@ int hiopAlgFilterIPMBase::startingProcedure(hiopIterate& it_ini,
   // do function evaluation again after we adjust the primals and/or add scaling
   if(!this->evalNlp_noHess(it_ini, f, c, d, gradf, Jac_c, Jac_d)) {
     nlp->log->printf(hovError, "Failure in evaluating user provided NLP functions.");
-    assert(false);
     return false;
   }
 
@@ -425,7 +423,9 @@ int hiopAlgFilterIPMBase::startingProcedure(hiopIterate& it_ini,
 
   //we have the duals
   if(!this->evalNlp_HessOnly(it_ini, *_Hess_Lagr)) {
-    assert(false);
+    nlp->log->printf(hovError, "Failure in evaluating user provided NLP functions.");
+    nlp->runStats.tmStartingPoint.stop();
+    nlp->runStats.tmSolverInternal.stop();
     return false;
   }
 
@@ -912,6 +912,13 @@ void hiopAlgFilterIPMBase::displayTerminationMsg()
                        strStatsReport.c_str());
       break;
   }
+  case Error_In_User_Function:
+  {
+      nlp->log->printf(hovSummary,
+                       "Error in the user provided functions.\n%s\n",
+                       strStatsReport.c_str());
+      break;
+  }
   default:
     {
       nlp->log->printf(hovSummary,
@@ -1000,7 +1007,10 @@ hiopSolveStatus hiopAlgFilterIPMQuasiNewton::run()
   //
   if(nlp->options->GetString("checkpoint_load_on_start") != "yes" && !load_state_api_called_) {
     //this also evaluates the nlp
-    startingProcedure(*it_curr, _f_nlp, *_c, *_d, *_grad_f, *_Jac_c, *_Jac_d); 
+    if(!startingProcedure(*it_curr, _f_nlp, *_c, *_d, *_grad_f, *_Jac_c, *_Jac_d)) {
+      nlp->runStats.tmOptimizTotal.stop();
+      return solver_status_ = Error_In_User_Function;
+    }
     _mu=mu0;
     iter_num_total_ = 0;
   } else {
@@ -1015,7 +1025,10 @@ hiopSolveStatus hiopAlgFilterIPMQuasiNewton::run()
         nlp->log->printf(hovWarning, "Using default starting procedure (no checkpoint load!).\n");
         iter_num_total_ = 0;
         //fall back on the default starting procedure (it also evaluates the nlp)
-        startingProcedure(*it_curr, _f_nlp, *_c, *_d, *_grad_f, *_Jac_c, *_Jac_d); 
+        if(!startingProcedure(*it_curr, _f_nlp, *_c, *_d, *_grad_f, *_Jac_c, *_Jac_d)) {
+          nlp->runStats.tmOptimizTotal.stop();
+          return solver_status_ = Error_In_User_Function;
+        }
         _mu=mu0;
         iter_num_total_ = 0;
       }
@@ -1023,12 +1036,19 @@ hiopSolveStatus hiopAlgFilterIPMQuasiNewton::run()
       nlp->log->printf(hovWarning,
                        "Unexpected checkpoint misconfiguration. "
                        "Will use user-provided starting point.\n"); 
+      if(!startingProcedure(*it_curr, _f_nlp, *_c, *_d, *_grad_f, *_Jac_c, *_Jac_d)) {
+        nlp->runStats.tmOptimizTotal.stop();
+        return solver_status_ = Error_In_User_Function;
+      }
+      _mu=mu0;
+      iter_num_total_ = 0;
 #endif
     }
     //additionally: need to evaluate the nlp
     if(!this->evalNlp_noHess(*it_curr, _f_nlp, *_c, *_d, *_grad_f, *_Jac_c, *_Jac_d)) {
       nlp->log->printf(hovError, "Failure in evaluating user NLP functions at loaded checkpoint.");
-      return Error_In_User_Function;
+      nlp->runStats.tmOptimizTotal.stop();
+      return solver_status_ = Error_In_User_Function;
     }
     solver_status_ = NlpSolve_SolveNotCalled;
   }
@@ -1302,6 +1322,7 @@ hiopSolveStatus hiopAlgFilterIPMQuasiNewton::run()
       if(!this->evalNlp_funcOnly(*it_trial, _f_nlp_trial, *_c_trial, *_d_trial)) {
         solver_status_ = Error_In_User_Function;
         nlp->runStats.tmOptimizTotal.stop();
+        delete kkt;
         return Error_In_User_Function;
       }
 
@@ -1324,6 +1345,8 @@ hiopSolveStatus hiopAlgFilterIPMQuasiNewton::run()
                        theta_trial);
 
       if(disableLS) {
+        // trial point is accepted unconditionally and filter is not augmented
+        lsStatus = 3;
         nlp->runStats.tmSolverInternal.stop();
         break;
       }
@@ -1359,6 +1382,14 @@ hiopSolveStatus hiopAlgFilterIPMQuasiNewton::run()
         }
       }
 
+      if(Error_In_User_Function == solver_status_) {
+        // user function failed in the second order correction
+        nlp->runStats.tmSolverInternal.stop();
+        nlp->runStats.tmOptimizTotal.stop();
+        delete kkt;
+        return Error_In_User_Function;
+      }
+
       assert(lsStatus == 0);
       _alpha_primal *= 0.5;
 
@@ -1389,8 +1420,8 @@ hiopSolveStatus hiopAlgFilterIPMQuasiNewton::run()
       if(use_fr) {
         // continue iterations if FR is accepted
         solver_status_ = NlpSolve_Pending;
-        nlp->runStats.tmSolverInternal.stop();
       }
+      nlp->runStats.tmSolverInternal.stop();
     } else if(lsStatus==1) {
       //need to check switching cond and Armijo to decide if filter is augmented
       if(!grad_phi_dx_computed) {
@@ -1428,10 +1459,6 @@ hiopSolveStatus hiopAlgFilterIPMQuasiNewton::run()
           // continue iterations if FR is accepted
           solver_status_ = NlpSolve_Pending;
         }
-
-        // exit the linear solve (compute_search_direction) loop
-        nlp->runStats.tmSolverInternal.stop();
-        break;
       } 
       nlp->runStats.tmSolverInternal.stop();
     } else {
@@ -2139,7 +2166,10 @@ hiopSolveStatus hiopAlgFilterIPMNewton::run()
 
   nlp->runStats.tmOptimizTotal.start();
 
-  startingProcedure(*it_curr, _f_nlp, *_c, *_d, *_grad_f, *_Jac_c, *_Jac_d); //this also evaluates the nlp
+  if(!startingProcedure(*it_curr, _f_nlp, *_c, *_d, *_grad_f, *_Jac_c, *_Jac_d)) { //this also evaluates the nlp
+    nlp->runStats.tmOptimizTotal.stop();
+    return solver_status_ = Error_In_User_Function;
+  }
   _mu=mu0;
 
   //update log bar
@@ -2543,6 +2573,8 @@ hiopSolveStatus hiopAlgFilterIPMNewton::run()
                          lsNum, _alpha_primal, logbar->f_logbar, logbar->f_logbar_trial, theta, theta_trial);
 
         if(disableLS) {
+          // trial point is accepted unconditionally and filter is not augmented
+          lsStatus = 3;
           nlp->runStats.tmSolverInternal.stop();
           break;
         }
@@ -2578,6 +2610,14 @@ hiopSolveStatus hiopAlgFilterIPMNewton::run()
           }
         }
 
+        if(Error_In_User_Function == solver_status_) {
+          // user function failed in the second order correction
+          nlp->runStats.tmSolverInternal.stop();
+          nlp->runStats.tmOptimizTotal.stop();
+          delete kkt;
+          return Error_In_User_Function;
+        }
+
         assert(lsStatus == 0);
         _alpha_primal *= 0.5;
 
@@ -2608,9 +2648,9 @@ hiopSolveStatus hiopAlgFilterIPMNewton::run()
         if(use_fr) {
           // continue iterations if FR is accepted
           solver_status_ = NlpSolve_Pending;
-          nlp->runStats.tmSolverInternal.stop();
-          break;
         }
+        nlp->runStats.tmSolverInternal.stop();
+        break; //from the linear solve (compute_search_direction) loop
       } else if(lsStatus==1) {
 
         //need to check switching cond and Armijo to decide if filter is augmented
@@ -2831,7 +2871,7 @@ bool hiopAlgFilterIPMBase::ensure_moving_lims(const hiopIterate& it, const hiopI
     auto x_nrm = dir.get_x()->infnorm();
     auto step_nrm = alpha_pr*x_nrm;
     if(step_nrm>moving_lim_abs) {
-      alpha_pr = moving_lim_abs / step_nrm;
+      alpha_pr *= moving_lim_abs / step_nrm;
       nlp->log->printf(hovLinesearch,
                        "Moving lim (absolute, [%7.3e]): step reduced: %7.3e -> %7.3e.\n",
                        moving_lim_abs,
@@ -3001,7 +3041,10 @@ int hiopAlgFilterIPMBase::apply_second_order_correction(hiopKKTLinSys* kkt,
 
     // solve for search directions
     bret = kkt->computeDirections(resid_trial, soc_dir); 
-    assert(bret);
+    if(!bret) {
+      // no correction available
+      return 0;
+    }
 
     // Compute step size
     bret = it_curr->fractionToTheBdry(*soc_dir, _tau, alpha_primal_soc, alpha_dual_soc); 
@@ -3046,10 +3089,23 @@ bool hiopAlgFilterIPMBase::apply_feasibility_restoration(hiopKKTLinSys* kkt)
     // try soft FR first
     bool is_soft_fr = solve_soft_feasibility_restoration(kkt);
     if(is_soft_fr) {
-      // variables have already been updated inside the above function
+      // variables and functions have already been updated inside the above function; what remains are
+      // the derivatives
+      if(!this->evalNlp_derivOnly(*it_trial, *_grad_f, *_Jac_c, *_Jac_d, *_Hess_Lagr)) {
+        solver_status_ = Error_In_User_Function;
+        return false;
+      }
       return true;
     }
+    if(Error_In_User_Function == solver_status_) {
+      return false;
+    }
   
+    if(nlp->m() == 0) {
+      // no constraints, hence no feasibility to restore
+      return false;
+    }
+
     // continue robust FR
     hiopNlpFormulation* nlpFR{nullptr};
     hiopNlpMDS* nlpMDS = dynamic_cast<hiopNlpMDS*>(nlp);
@@ -3062,24 +3118,32 @@ bool hiopAlgFilterIPMBase::apply_feasibility_restoration(hiopKKTLinSys* kkt)
         hiopFRProbDense nlp_fr_interface(*this);
         nlpFR = new hiopNlpDenseConstraints(nlp_fr_interface, nlp->options->GetString("options_file_fr_prob").c_str());
         fr_solved = solve_feasibility_restoration(kkt, *nlpFR);
+        if(nlp_fr_interface.base_eval_failed()) {
+          solver_status_ = Error_In_User_Function;
+          fr_solved = false;
+        }
         if(fr_solved) {
           nlp->log->printf(hovScalars, "FR problem provides sufficient reduction in primal feasibility!\n");
           // FR succeeds, update it_trial->x and it_trial->d to the next search point
           it_trial->get_x()->copyFrom(nlp_fr_interface.get_fr_sol_x());
           it_trial->get_d()->copyFrom(nlp_fr_interface.get_fr_sol_d());
-          reset_var_from_fr_sol(kkt, reset_dual = true);
+          fr_solved = reset_var_from_fr_sol(kkt, reset_dual = true);
         }
       } else {
         // this is Sparse linear system
         hiopFRProbSparse nlp_fr_interface(*this);
         nlpFR = new hiopNlpSparse(nlp_fr_interface, nlp->options->GetString("options_file_fr_prob").c_str());
         fr_solved = solve_feasibility_restoration(kkt, *nlpFR);
+        if(nlp_fr_interface.base_eval_failed()) {
+          solver_status_ = Error_In_User_Function;
+          fr_solved = false;
+        }
         if(fr_solved) {
           nlp->log->printf(hovScalars, "FR problem provides sufficient reduction in primal feasibility!\n");
           // FR succeeds, update it_trial->x and it_trial->d to the next search point
           it_trial->get_x()->copyFrom(nlp_fr_interface.get_fr_sol_x());
           it_trial->get_d()->copyFrom(nlp_fr_interface.get_fr_sol_d());
-          reset_var_from_fr_sol(kkt, reset_dual = true);
+          fr_solved = reset_var_from_fr_sol(kkt, reset_dual = true);
         } 
       }
     } else {
@@ -3087,12 +3151,16 @@ bool hiopAlgFilterIPMBase::apply_feasibility_restoration(hiopKKTLinSys* kkt)
       hiopFRProbMDS nlp_fr_interface(*this);
       nlpFR = new hiopNlpMDS(nlp_fr_interface, nlp->options->GetString("options_file_fr_prob").c_str());
       fr_solved = solve_feasibility_restoration(kkt, *nlpFR);
+      if(nlp_fr_interface.base_eval_failed()) {
+        solver_status_ = Error_In_User_Function;
+        fr_solved = false;
+      }
       if(fr_solved) {
         nlp->log->printf(hovScalars, "FR problem provides sufficient reduction in primal feasibility!\n");
         // FR succeeds, update it_trial->x and it_trial->d to the next search point
         it_trial->get_x()->copyFrom(nlp_fr_interface.get_fr_sol_x());
         it_trial->get_d()->copyFrom(nlp_fr_interface.get_fr_sol_d());
-        reset_var_from_fr_sol(kkt, reset_dual = true);
+        fr_solved = reset_var_from_fr_sol(kkt, reset_dual = true);
       }
     }
     delete nlpFR;
@@ -3116,7 +3184,7 @@ bool hiopAlgFilterIPMBase::apply_feasibility_restoration(hiopKKTLinSys* kkt)
       fr_solved = false;
     } else {
       nlp->log->printf(hovSummary, "FR problem converged! Now apply LSQ to reset duals.\n");
-      reset_var_from_fr_sol(kkt, reset_dual = false);
+      fr_solved = reset_var_from_fr_sol(kkt, reset_dual = false);
     }
   }
 
@@ -3159,6 +3227,9 @@ bool hiopAlgFilterIPMBase::solve_feasibility_restoration(hiopKKTLinSys* kkt, hio
   } else if(FR_status == Solve_Success || FR_status == Solve_Acceptable_Level) {
     solver_status_ = Infeasible_Problem;
     return false;
+  } else if(FR_status == Error_In_User_Function) {
+    solver_status_ = Error_In_User_Function;
+    return false;
   } else {
     solver_status_ = Error_In_FR;
     return false;
@@ -3168,9 +3239,11 @@ bool hiopAlgFilterIPMBase::solve_feasibility_restoration(hiopKKTLinSys* kkt, hio
 bool hiopAlgFilterIPMBase::reset_var_from_fr_sol(hiopKKTLinSys* kkt, bool reset_dual)
 {
   // FR succeeds, it_trial->x and it_trial->d have been updated. Now we update other values for the next iter
-  if(!this->evalNlp_noHess(*it_trial, _f_nlp, *_c, *_d, *_grad_f, *_Jac_c, *_Jac_d)) {
+  // (the function values go into the trial buffers, which are swapped with the current ones together with
+  // the iterates)
+  if(!this->evalNlp_noHess(*it_trial, _f_nlp_trial, *_c_trial, *_d_trial, *_grad_f, *_Jac_c, *_Jac_d)) {
     nlp->log->printf(hovError, "Failure in evaluating user provided NLP functions.");
-    assert(false);
+    solver_status_ = Error_In_User_Function;
     return false;
   } else {
     nlp->log->printf(hovScalars, "FR: Update slacks and duals from the modified primals.\n");
@@ -3225,6 +3298,12 @@ bool hiopAlgFilterIPMBase::reset_var_from_fr_sol(hiopKKTLinSys* kkt, bool reset_
     }
   }
 
+  // the Hessian needs to be evaluated at the new primal-dual point
+  if(!this->evalNlp_HessOnly(*it_trial, *_Hess_Lagr)) {
+    solver_status_ = Error_In_User_Function;
+    return false;
+  }
+
   // set step size to 1
   _alpha_primal = 1.0;
   _alpha_dual = 1.0;
@@ -3275,13 +3354,16 @@ bool hiopAlgFilterIPMBase::solve_soft_feasibility_restoration(hiopKKTLinSys* kkt
       //evaluate the problem at the trial iterate (functions only)
       if(!this->evalNlp_funcOnly(*it_trial, _f_nlp_trial, *_c_trial, *_d_trial)) {
         solver_status_ = Error_In_User_Function;
-        return true;
+        return false;
       }
       // compute rhs for soft feasibility restoration. Use resid_trial since it hasn't been used
       resid_trial->update(*it_trial, _f_nlp_trial, *_c_trial, *_d_trial, *_grad_f,*_Jac_c,*_Jac_d, *logbar);      
       bret = kkt->compute_directions_w_IR(resid_trial, soft_dir); 
     }    
-    assert(bret);
+    if(!bret) {
+      // no direction available, continue with the robust feasibility restoration
+      return false;
+    }
 
     // Compute step size
     bret = it_curr->fractionToTheBdry(*soft_dir, _tau, alpha_primal_soft, alpha_dual_soft); 
@@ -3297,7 +3379,7 @@ bool hiopAlgFilterIPMBase::solve_soft_feasibility_restoration(hiopKKTLinSys* kkt
     //evaluate the problem at the trial iterate (functions only)
     if(!this->evalNlp_funcOnly(*it_trial, _f_nlp_trial, *_c_trial, *_d_trial)) {
       solver_status_ = Error_In_User_Function;
-      return true;
+      return false;
     }
 
     //update and adjust the duals
diff --git a/src/Optimization/hiopFRProb.cpp b/src/Optimization/hiopFRProb.cpp
index d9039cc..a8c55d7 100644
--- a/src/Optimization/hiopFRProb.cpp
+++ b/src/Optimization/hiopFRProb.cpp
@@ -70,7 +70,8 @@ namespace hiop
 hiopFRProbSparse::hiopFRProbSparse(hiopAlgFilterIPMBase& solver_base)
   : solver_base_(solver_base), 
     last_x_{nullptr}, 
-    last_d_{nullptr}
+    last_d_{nullptr},
+    base_eval_failed_{false}
 {
   nlp_base_ = dynamic_cast<hiopNlpSparse*>(solver_base.get_nlp());
   n_x_ = nlp_base_->n();
@@ -90,8 +91,8 @@ hiopFRProbSparse::hiopFRProbSparse(hiopAlgFilterIPMBase& solver_base)
   // build vector VR
   DR_ = x_ref_->new_copy();
   DR_->component_abs();
+  DR_->component_max(1.0);
   DR_->invert();
-  DR_->component_min(1.0);
 
   wrk_x_ = x_ref_->alloc_clone();
   wrk_c_ = LinearAlgebraFactory::create_vector(nlp_base_->options->GetString("mem_space"), m_eq_);
@@ -253,6 +254,11 @@ bool hiopFRProbSparse::eval_f(const size_type& n, const double* x, bool new_x, d
   // rho*sum(p+n)
   obj_value += rho_ * (wrk_primal_->sum_local() - wrk_x_->sum_local());
 
+  // keep a copy of the original objective value
+  if(!nlp_base_->eval_f(*wrk_x_, new_x, obj_base_)) {
+    return false;
+  }
+
   // zeta/2*[DR*(x-x_ref)]^2
   wrk_x_->axpy(-1.0, *x_ref_);
   wrk_x_->componentMult(*DR_);
@@ -260,9 +266,6 @@ bool hiopFRProbSparse::eval_f(const size_type& n, const double* x, bool new_x, d
 
   obj_value += 0.5 * zeta_ * wrk_db * wrk_db;
 
-  // keep a copy of the original objective value
-  nlp_base_->eval_f(*wrk_x_, new_x, obj_base_); 
-
   return true;
 }
 
@@ -308,7 +311,9 @@ bool hiopFRProbSparse::eval_cons(const size_type& n,
 
   // evaluate c and d
   wrk_x_->copy_from_starting_at(x, 0, n_x_);
-  nlp_base_->eval_c_d(*wrk_x_, new_x, *wrk_c_, *wrk_d_);
+  if(!nlp_base_->eval_c_d(*wrk_x_, new_x, *wrk_c_, *wrk_d_)) {
+    return false;
+  }
 
   // compute FR equality constratint body c-pe+ne
   wrk_eq_->copy_from_starting_at(x, pe_st_, m_eq_);     //pe
@@ -368,7 +373,9 @@ bool hiopFRProbSparse::eval_Jac_cons(const size_type& n,
     wrk_x_->copy_from_starting_at(x, 0, n_x_);
 
     // get Jac_c and Jac_d for the x part --- use original Jac_c/Jac_d as buffers
-    nlp_base_->eval_Jac_c_d(*wrk_x_, new_x, Jac_c, Jac_d); 
+    if(!nlp_base_->eval_Jac_c_d(*wrk_x_, new_x, Jac_c, Jac_d)) {
+      return false;
+    }
   }
 
   Jac_cd_->set_Jac_FR(Jac_c, Jac_d, iJacS, jJacS, MJacS);
@@ -403,7 +410,9 @@ bool hiopFRProbSparse::eval_Hess_Lagr(const size_type& n,
 
     double obj_factor = 0.0;
     // get Hess for the x part --- use original Hess as buffers
-    nlp_base_->eval_Hess_Lagr(*wrk_x_, new_x, obj_factor, *wrk_eq_, *wrk_ineq_, new_lambda, Hess);
+    if(!nlp_base_->eval_Hess_Lagr(*wrk_x_, new_x, obj_factor, *wrk_eq_, *wrk_ineq_, new_lambda, Hess)) {
+      return false;
+    }
     
     // additional diag Hess for x:  zeta*DR^2
     wrk_x_->setToConstant(zeta_);
@@ -571,7 +580,10 @@ bool hiopFRProbSparse::iterate_callback(int iter,
   // evaluate c_body and d_body in base problem
   wrk_x_->copy_from_starting_at(x, 0, n_x_);
   wrk_d_->copy_from_starting_at(s, 0, m_ineq_);
-  nlp_base_->eval_c_d(*wrk_x_, true, *wrk_cbody_, *wrk_dbody_);
+  if(!nlp_base_->eval_c_d(*wrk_x_, true, *wrk_cbody_, *wrk_dbody_)) {
+    base_eval_failed_ = true;
+    return false; // stops the FR solver
+  }
 
   // compute theta for base problem
   wrk_cbody_->axpy(-1.0, crhs);           // wrk_cbody_ = (c-crhs)
@@ -702,7 +714,8 @@ bool hiopFRProbSparse::force_update_x(const int n, double* x)
 hiopFRProbMDS::hiopFRProbMDS(hiopAlgFilterIPMBase& solver_base)
   : solver_base_(solver_base), 
     last_x_{nullptr}, 
-    last_d_{nullptr}
+    last_d_{nullptr},
+    base_eval_failed_{false}
 {
   nlp_base_ = dynamic_cast<hiopNlpMDS*>(solver_base.get_nlp());
   n_x_ = nlp_base_->n();
@@ -728,8 +741,8 @@ hiopFRProbMDS::hiopFRProbMDS(hiopAlgFilterIPMBase& solver_base)
   // build vector VR
   DR_ = x_ref_->new_copy();
   DR_->component_abs();
+  DR_->component_max(1.0);
   DR_->invert();
-  DR_->component_min(1.0);
 
   wrk_x_ = x_ref_->alloc_clone();
   wrk_c_ = LinearAlgebraFactory::create_vector(nlp_base_->options->GetString("mem_space"), m_eq_);
@@ -902,6 +915,11 @@ bool hiopFRProbMDS::eval_f(const size_type& n, const double* x, bool new_x, doub
   // rho*sum(p+n)
   obj_value += rho_ * (wrk_primal_->sum_local() - wrk_x_->sum_local());
 
+  // keep a copy of the original objective value
+  if(!nlp_base_->eval_f(*wrk_x_, new_x, obj_base_)) {
+    return false;
+  }
+
   // zeta/2*[DR*(x-x_ref)]^2
   wrk_x_->axpy(-1.0, *x_ref_);
   wrk_x_->componentMult(*DR_);
@@ -909,8 +927,6 @@ bool hiopFRProbMDS::eval_f(const size_type& n, const double* x, bool new_x, doub
 
   obj_value += 0.5 * zeta_ * wrk_db * wrk_db;
 
-  nlp_base_->eval_f(*wrk_x_, new_x, obj_base_); 
-
   return true;
 }
 
@@ -963,7 +979,9 @@ bool hiopFRProbMDS::eval_cons(const size_type& n,
   wrk_primal_->copy_from_starting_at(x, 0, n_); // [xsp pe ne pi ni xde]
   wrk_primal_->startingAtCopyToStartingAt(x_sp_st_, *wrk_x_, 0, n_x_sp_);       // x = [xsp xde]
   wrk_primal_->startingAtCopyToStartingAt(x_de_st_, *wrk_x_, n_x_sp_, n_x_de_); // x = [xsp xde]
-  nlp_base_->eval_c_d(*wrk_x_, new_x, *wrk_c_, *wrk_d_);
+  if(!nlp_base_->eval_c_d(*wrk_x_, new_x, *wrk_c_, *wrk_d_)) {
+    return false;
+  }
 
   // compute FR equality constratint body c-pe+ne
   wrk_eq_->copy_from_starting_at(x, pe_st_, m_eq_);     //pe
@@ -1034,7 +1052,9 @@ bool hiopFRProbMDS::eval_Jac_cons(const size_type& n,
      wrk_primal_->startingAtCopyToStartingAt(x_de_st_, *wrk_x_, n_x_sp_, n_x_de_); // x = [xsp xde]
 
     // get Jac_c and Jac_d for the x part --- use original Jac_c/Jac_d as buffers
-    nlp_base_->eval_Jac_c_d(*wrk_x_, new_x, *Jac_c, *Jac_d); 
+    if(!nlp_base_->eval_Jac_c_d(*wrk_x_, new_x, *Jac_c, *Jac_d)) {
+      return false;
+    }
   }
 
   Jac_cd_->set_Jac_FR(*Jac_c, *Jac_d, iJacS, jJacS, MJacS, JacD);
@@ -1203,7 +1223,10 @@ bool hiopFRProbMDS::iterate_callback(int iter,
   wrk_primal_->startingAtCopyToStartingAt(x_sp_st_, *wrk_x_, 0, n_x_sp_);       // x = [xsp xde]
   wrk_primal_->startingAtCopyToStartingAt(x_de_st_, *wrk_x_, n_x_sp_, n_x_de_); // x = [xsp xde]
   wrk_d_->copy_from_starting_at(s, 0, m_ineq_);
-  nlp_base_->eval_c_d(*wrk_x_, true, *wrk_cbody_, *wrk_dbody_);
+  if(!nlp_base_->eval_c_d(*wrk_x_, true, *wrk_cbody_, *wrk_dbody_)) {
+    base_eval_failed_ = true;
+    return false; // stops the FR solver
+  }
 
   // compute theta for base problem
   wrk_cbody_->axpy(-1.0, crhs);           // wrk_cbody_ = (c-crhs)
@@ -1364,7 +1387,9 @@ bool hiopFRProbMDS::eval_Hess_Lagr(const size_type& n,
 
     double obj_factor = 0.0;
     // get Hess for the x part --- use original Hess as buffers
-    nlp_base_->eval_Hess_Lagr(*wrk_x_, new_x, obj_factor, *wrk_eq_, *wrk_ineq_, new_lambda, *Hess);
+    if(!nlp_base_->eval_Hess_Lagr(*wrk_x_, new_x, obj_factor, *wrk_eq_, *wrk_ineq_, new_lambda, *Hess)) {
+      return false;
+    }
     
     // additional diag Hess for x:  zeta*DR^2
     wrk_x_->setToConstant(zeta_);
@@ -1402,7 +1427,8 @@ index_type hiopFRProbDense::denseVecBase2FR(hiopVector* vec_base, hiopVector* ve
 hiopFRProbDense::hiopFRProbDense(hiopAlgFilterIPMBase& solver_base)
   : solver_base_(solver_base), 
     last_x_{nullptr}, 
-    last_d_{nullptr}
+    last_d_{nullptr},
+    base_eval_failed_{false}
 {
   nlp_base_ = dynamic_cast<hiopNlpDenseConstraints*>(solver_base.get_nlp());
   n_x_ = nlp_base_->n();
@@ -1424,8 +1450,8 @@ hiopFRProbDense::hiopFRProbDense(hiopAlgFilterIPMBase& solver_base)
   // build vector VR
   DR_ = x_ref_->new_copy();
   DR_->component_abs();
+  DR_->component_max(1.0);
   DR_->invert();
-  DR_->component_min(1.0);
 
   comm_ = MPI_COMM_WORLD;
   comm_size_ = 1;
@@ -1613,6 +1639,11 @@ bool hiopFRProbDense::eval_f(const size_type& n, const double* x, bool new_x, do
   obj_value = obj_global;
 #endif
 
+  // keep a copy of the original objective value
+  if(!nlp_base_->eval_f(*wrk_x_, new_x, obj_base_)) {
+    return false;
+  }
+
   // zeta/2*[DR*(x-x_ref)]^2
   wrk_x_->axpy(-1.0, *x_ref_);
   wrk_x_->componentMult(*DR_);
@@ -1620,9 +1651,6 @@ bool hiopFRProbDense::eval_f(const size_type& n, const double* x, bool new_x, do
 
   obj_value += 0.5 * zeta_ * wrk_db * wrk_db;
 
-  // keep a copy of the original objective value
-  nlp_base_->eval_f(*wrk_x_, new_x, obj_base_);
-
   return true;
 }
 
@@ -1663,7 +1691,9 @@ bool hiopFRProbDense::eval_cons(const size_type& n,
   wrk_x_->copy_from_starting_at(x, 0, n_x_);
 
   // evaluate base case c and d
-  nlp_base_->eval_c_d(*wrk_x_, new_x, *wrk_c_, *wrk_d_);
+  if(!nlp_base_->eval_c_d(*wrk_x_, new_x, *wrk_c_, *wrk_d_)) {
+    return false;
+  }
 
 #ifdef HIOP_USE_MPI
   // p and n are only located in the last rank
@@ -1739,7 +1769,9 @@ bool hiopFRProbDense::eval_Jac_cons(const size_type& n,
   wrk_x_->copy_from_starting_at(x, 0, n_x_);
 
   // get Jac_c and Jac_d for the x part --- use original Jac_c/Jac_d as buffers
-  nlp_base_->eval_Jac_c_d(*wrk_x_, new_x, *Jac_c, *Jac_d); 
+  if(!nlp_base_->eval_Jac_c_d(*wrk_x_, new_x, *Jac_c, *Jac_d)) {
+    return false;
+  }
   
   // FIXME add set_Jac_FR in hiopMatrixDense
   Jac_cd_->set_Jac_FR(*Jac_c, *Jac_d);
@@ -1907,7 +1939,10 @@ bool hiopFRProbDense::iterate_callback(int iter,
   // FIXME; add global methed. now we only have local method
   wrk_x_->copy_from_starting_at(x, 0, n_x_);
   wrk_d_->copy_from_starting_at(s, 0, m_ineq_);
-  nlp_base_->eval_c_d(*wrk_x_, true, *wrk_cbody_, *wrk_dbody_);
+  if(!nlp_base_->eval_c_d(*wrk_x_, true, *wrk_cbody_, *wrk_dbody_)) {
+    base_eval_failed_ = true;
+    return false; // stops the FR solver
+  }
 
   // compute theta for base problem
   wrk_cbody_->axpy(-1.0, crhs);           // wrk_cbody_ = (c-crhs)
diff --git a/src/Optimization/hiopFRProb.hpp b/src/Optimization/hiopFRProb.hpp
index 50e51e2..87e36fc 100644
--- a/src/Optimization/hiopFRProb.hpp
+++ b/src/Optimization/hiopFRProb.hpp
@@ -178,6 +178,7 @@ public:
 
   virtual const hiopVector& get_fr_sol_x ()  const { return *last_x_; }
   virtual const hiopVector& get_fr_sol_d ()  const { return *last_d_; }
+  inline bool base_eval_failed() const { return base_eval_failed_; }
 
 private:
   size_type n_;
@@ -212,6 +213,9 @@ private:
   hiopVector* last_x_;
   hiopVector* last_d_;
 
+  /// true when the evaluation of the base problem failed inside the iterate callback
+  bool base_eval_failed_;
+
   double zeta_;
   double theta_ref_;
   double nrmInf_feas_ref_;
@@ -348,6 +352,7 @@ public:
 
   virtual const hiopVector& get_fr_sol_x ()  const { return *last_x_; }
   virtual const hiopVector& get_fr_sol_d ()  const { return *last_d_; }
+  inline bool base_eval_failed() const { return base_eval_failed_; }
 
 private:
   size_type n_;
@@ -390,6 +395,9 @@ private:
   hiopVector* last_x_;
   hiopVector* last_d_;
 
+  /// true when the evaluation of the base problem failed inside the iterate callback
+  bool base_eval_failed_;
+
   double zeta_;
   double theta_ref_;
   double nrmInf_feas_ref_;
@@ -495,6 +503,7 @@ public:
 
   virtual const hiopVector& get_fr_sol_x ()  const { return *last_x_; }
   virtual const hiopVector& get_fr_sol_d ()  const { return *last_d_; }
+  inline bool base_eval_failed() const { return base_eval_failed_; }
 
 private:
   size_type n_;
@@ -524,6 +533,9 @@ private:
   hiopVector* last_x_;
   hiopVector* last_d_;
 
+  /// true when the evaluation of the base problem failed inside the iterate callback
+  bool base_eval_failed_;
+
   double zeta_;
   double theta_ref_;
   double nrmInf_feas_ref_;
-- 
2.43.0


From 591a7825dcebcacebd7f483900b45ca603284993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:26 +0000
Subject: [PATCH 09/52] fix: failing dual updates and failing one-call
 Jacobians end with a status instead of an assertion

---
 src/Optimization/hiopAlgFilterIPM.cpp   | 19 ++++++++++++++++---
 src/Optimization/hiopNlpFormulation.cpp | 12 ++++++++++++
 2 files changed, 28 insertions(+), 3 deletions(-)

diff --git a/src/Optimization/hiopAlgFilterIPM.cpp b/src/Optimization/hiopAlgFilterIPM.cpp
index 6d6decd..9021b00 100644
--- a/src/Optimization/hiopAlgFilterIPM.cpp
+++ b/src/Optimization/hiopAlgFilterIPM.cpp
@@ -1490,8 +1490,13 @@ hiopSolveStatus hiopAlgFilterIPMQuasiNewton::run()
       bret = dualsUpdate_->go(*it_curr, *it_trial,
                              _f_nlp, *_c, *_d, *_grad_f, *_Jac_c, *_Jac_d, *dir,
                              _alpha_primal, _alpha_dual, _mu, kappa_Sigma, infeas_nrm_trial);
-      assert(bret);
       nlp->runStats.tmSolverInternal.stop();
+      if(!bret) {
+        nlp->log->printf(hovError, "The update of the dual variables failed.\n");
+        nlp->runStats.tmOptimizTotal.stop();
+        delete kkt;
+        return solver_status_ = Err_Step_Computation;
+      }
 
       //evaluate derivatives at the trial (and to be accepted) trial point
       if(!this->evalNlp_derivOnly(*it_trial, *_grad_f, *_Jac_c, *_Jac_d, *_Hess_Lagr)) {
@@ -2763,8 +2768,13 @@ hiopSolveStatus hiopAlgFilterIPMNewton::run()
       bret = dualsUpdate_->go(*it_curr, *it_trial,
                              _f_nlp, *_c, *_d, *_grad_f, *_Jac_c, *_Jac_d, *dir,
                              _alpha_primal, _alpha_dual, _mu, kappa_Sigma, infeas_nrm_trial);
-      assert(bret);
       nlp->runStats.tmSolverInternal.stop();
+      if(!bret) {
+        nlp->log->printf(hovError, "The update of the dual variables failed.\n");
+        nlp->runStats.tmOptimizTotal.stop();
+        delete kkt;
+        return solver_status_ = Err_Step_Computation;
+      }
 
       //evaluate derivatives at the trial (and to be accepted) trial point
       if(!this->evalNlp_derivOnly(*it_trial, *_grad_f, *_Jac_c, *_Jac_d, *_Hess_Lagr)) {
@@ -3386,7 +3396,10 @@ bool hiopAlgFilterIPMBase::solve_soft_feasibility_restoration(hiopKKTLinSys* kkt
     bret = dualsUpdate_->go(*it_curr, *it_trial,
                            _f_nlp_trial, *_c_trial, *_d_trial, *_grad_f, *_Jac_c, *_Jac_d, *soft_dir,
                            alpha_primal_soft, alpha_dual_soft, _mu, kappa_Sigma, infeas_nrm_soft);
-    assert(bret);
+    if(!bret) {
+      // duals cannot be updated, continue with the robust feasibility restoration
+      return false;
+    }
 
     logbar->updateWithNlpInfo_trial_funcOnly(*it_trial, _f_nlp_trial, *_c_trial, *_d_trial);
         
diff --git a/src/Optimization/hiopNlpFormulation.cpp b/src/Optimization/hiopNlpFormulation.cpp
index 0b07ca9..8a1ceae 100644
--- a/src/Optimization/hiopNlpFormulation.cpp
+++ b/src/Optimization/hiopNlpFormulation.cpp
@@ -1802,6 +1802,12 @@ bool hiopNlpMDS::eval_Jac_c_d_interface_impl(hiopVector& x,
                                         pJac_d->n_sp(), pJac_d->n_de(), 
                                         nnz, cons_Jac->sp_irow(), cons_Jac->sp_jcol(), cons_Jac->sp_M(),
                                         cons_Jac->de_local_data());
+    if(!bret) {
+      // the Jacobian may not even have a valid sparsity pattern
+      runStats.tmEvalJac_con.stop();
+      return false;
+    }
+
     //copy back to Jac_c and Jac_d
     pJac_c->copyRowsFrom(*cons_Jac, cons_eq_mapping_->local_data_const(), n_cons_eq_);
     pJac_d->copyRowsFrom(*cons_Jac, cons_ineq_mapping_->local_data_const(), n_cons_ineq_);
@@ -2016,6 +2022,12 @@ bool hiopNlpSparse::eval_Jac_c_d_interface_impl(hiopVector& x,
                                    nullptr, 
                                    cons_Jac->M());
 
+    if(!bret) {
+      // the Jacobian may not even have a valid sparsity pattern
+      runStats.tmEvalJac_con.stop();
+      return false;
+    }
+
     //copy back to Jac_c and Jac_d
     pJac_c->copyRowsFrom(*cons_Jac, cons_eq_mapping_->local_data_const(), n_cons_eq_);
     pJac_d->copyRowsFrom(*cons_Jac, cons_ineq_mapping_->local_data_const(), n_cons_ineq_);
-- 
2.43.0


From b7809d2b5449389821074ff02a0db6aa9c97a579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:38 +0000
Subject: [PATCH 10/52] fix: elastic mode tightens scaled constraint bounds to
 scaled values

---
 src/Optimization/hiopNlpFormulation.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Optimization/hiopNlpFormulation.cpp b/src/Optimization/hiopNlpFormulation.cpp
index 8a1ceae..06d81cf 100644
--- a/src/Optimization/hiopNlpFormulation.cpp
+++ b/src/Optimization/hiopNlpFormulation.cpp
@@ -1431,6 +1431,11 @@ void hiopNlpFormulation::adjust_bounds(const hiopIterate& it)
 void hiopNlpFormulation::reset_bounds(double bound_relax_perturb)
 {
   relax_bounds_->relax_from_ori(bound_relax_perturb, *xl_, *xu_, *dl_, *du_);
+  if(nlp_scaling_) {
+    // the original bounds kept by the relaxer are not scaled
+    dl_ = nlp_scaling_->apply_to_cons_ineq(*dl_, n_cons_ineq_);
+    du_ = nlp_scaling_->apply_to_cons_ineq(*du_, n_cons_ineq_);
+  }
 }
 
 /* ***********************************************************************************
-- 
2.43.0


From c72ecc4c29b8f160d67b995aaff39666550fc4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:38 +0000
Subject: [PATCH 11/52] fix: invalid function values cannot pass for
 convergence nor enter a step

---
 src/Optimization/hiopAlgFilterIPM.cpp | 14 +++--
 src/Optimization/hiopResidual.cpp     | 80 +++++++++++++++------------
 2 files changed, 54 insertions(+), 40 deletions(-)

diff --git a/src/Optimization/hiopAlgFilterIPM.cpp b/src/Optimization/hiopAlgFilterIPM.cpp
index 9021b00..05beb28 100644
--- a/src/Optimization/hiopAlgFilterIPM.cpp
+++ b/src/Optimization/hiopAlgFilterIPM.cpp
@@ -80,6 +80,12 @@ using namespace axom;
 namespace hiop
 {
 
+/** Solves for the directions; a direction with invalid (NaN or infinite) entries counts as a failed solve */
+static bool compute_valid_directions(hiopKKTLinSys* kkt, const hiopResidual* resid, hiopIterate* dir)
+{
+  return kkt->compute_directions_w_IR(resid, dir) && std::isfinite(dir->get_x()->onenorm());
+}
+
 hiopAlgFilterIPMBase::hiopAlgFilterIPMBase(hiopNlpFormulation* nlp_in, const bool within_FR)
   : nlp(nlp_in),
     logbar(nullptr),
@@ -3050,7 +3056,7 @@ int hiopAlgFilterIPMBase::apply_second_order_correction(hiopKKTLinSys* kkt,
     resid_trial->update_soc(*it_curr, *c_soc, *d_soc, *_grad_f,*_Jac_c,*_Jac_d, *logbar);
 
     // solve for search directions
-    bret = kkt->computeDirections(resid_trial, soc_dir); 
+    bret = kkt->computeDirections(resid_trial, soc_dir) && std::isfinite(soc_dir->get_x()->onenorm());
     if(!bret) {
       // no correction available
       return 0;
@@ -3368,7 +3374,7 @@ bool hiopAlgFilterIPMBase::solve_soft_feasibility_restoration(hiopKKTLinSys* kkt
       }
       // compute rhs for soft feasibility restoration. Use resid_trial since it hasn't been used
       resid_trial->update(*it_trial, _f_nlp_trial, *_c_trial, *_d_trial, *_grad_f,*_Jac_c,*_Jac_d, *logbar);      
-      bret = kkt->compute_directions_w_IR(resid_trial, soft_dir); 
+      bret = compute_valid_directions(kkt, resid_trial, soft_dir); 
     }    
     if(!bret) {
       // no direction available, continue with the robust feasibility restoration
@@ -3435,7 +3441,7 @@ bool hiopAlgFilterIPMBase::compute_search_direction(hiopKKTLinSys* kkt,
   //
   // solve for search directions
   //
-  if(!kkt->compute_directions_w_IR(resid, dir)) {
+  if(!compute_valid_directions(kkt, resid, dir)) {
 
     if(linsol_safe_mode_on) {
       nlp->log->write("Unrecoverable error in step computation (solve)[1]. Will exit here.", hovError);
@@ -3479,7 +3485,7 @@ bool hiopAlgFilterIPMBase::compute_search_direction_inertia_free(hiopKKTLinSys*
     //
     // solve for search directions
     //
-    if(!kkt->compute_directions_w_IR(resid, dir)) {
+    if(!compute_valid_directions(kkt, resid, dir)) {
 
       if(linsol_safe_mode_on) {
         nlp->log->write("Unrecoverable error in step computation (solve)[1]. Will exit here.", hovError);
diff --git a/src/Optimization/hiopResidual.cpp b/src/Optimization/hiopResidual.cpp
index f5a56c0..843e19d 100644
--- a/src/Optimization/hiopResidual.cpp
+++ b/src/Optimization/hiopResidual.cpp
@@ -49,11 +49,19 @@
 #include "hiopResidual.hpp"
 
 #include <cmath>
+#include <limits>
 #include <cassert>
 
 namespace hiop
 {
 
+/** Local infinity norm; NaN entries count as infinitely large, so that they cannot be mistaken for convergence */
+static double infnorm_local_nan_is_inf(const hiopVector& v)
+{
+  return v.isnan_local() ? std::numeric_limits<double>::infinity() : v.infnorm_local();
+}
+
+
 hiopResidual::hiopResidual(hiopNlpFormulation* nlp_)
 {
   nlp = nlp_;
@@ -178,30 +186,30 @@ int hiopResidual::update(const hiopIterate& it,
   jac_d.transTimesVec(1.0, *rx, 1.0, *it.yd);
   rx->axpy(-1.0, *it.zl);
   rx->axpy( 1.0, *it.zu);
-  buf = rx->infnorm_local();
+  buf = infnorm_local_nan_is_inf(*rx);
   nrmInf_nlp_optim = fmax(nrmInf_nlp_optim, buf);
   nrmOne_nlp_optim += rx->onenorm();
   nlp->log->printf(hovScalars,"NLP resid [update]: inf norm rx=%22.17e\n", buf);
   logprob.addNonLogBarTermsToGrad_x(1.0, *rx);
   rx->negate();
-  nrmInf_bar_optim = fmax(nrmInf_bar_optim, rx->infnorm_local());
+  nrmInf_bar_optim = fmax(nrmInf_bar_optim, infnorm_local_nan_is_inf(*rx));
   nrmOne_bar_optim += rx->onenorm();
   //~ done with rx
   // rd 
   rd->copyFrom(*it.yd);
   rd->axpy( 1.0, *it.vl);
   rd->axpy(-1.0, *it.vu);
-  buf = rd->infnorm_local();
+  buf = infnorm_local_nan_is_inf(*rd);
   nrmInf_nlp_optim = fmax(nrmInf_nlp_optim, buf);
   nrmOne_nlp_optim += rd->onenorm();
   nlp->log->printf(hovScalars,"NLP resid [update]: inf norm rd=%22.17e\n", buf);
   logprob.addNonLogBarTermsToGrad_d(-1.0,*rd);
-  nrmInf_bar_optim = fmax(nrmInf_bar_optim, rd->infnorm_local());
+  nrmInf_bar_optim = fmax(nrmInf_bar_optim, infnorm_local_nan_is_inf(*rd));
   nrmOne_bar_optim += rd->onenorm();
   //ryc
   ryc->copyFrom(nlp->get_crhs());
   ryc->axpy(-1.0,c);
-  buf = ryc->infnorm_local();
+  buf = infnorm_local_nan_is_inf(*ryc);
   nrmInf_nlp_feasib = fmax(nrmInf_nlp_feasib, buf);
   nrmOne_nlp_feasib += ryc->onenorm();
   nrmInf_cons_violation = fmax(nrmInf_cons_violation, buf);
@@ -225,7 +233,7 @@ int hiopResidual::update(const hiopIterate& it,
  //ryd
   ryd->copyFrom(*it.d);
   ryd->axpy(-1.0, d);
-  buf = ryd->infnorm_local();
+  buf = infnorm_local_nan_is_inf(*ryd);
   nrmInf_nlp_feasib = fmax(nrmInf_nlp_feasib, buf);
   nrmOne_nlp_feasib += ryd->onenorm();
   nlp->log->printf(hovScalars,"NLP resid [update]: inf norm ryd=%22.17e\n", buf);  
@@ -239,7 +247,7 @@ int hiopResidual::update(const hiopIterate& it,
     if(nlp->n_low_local()<nx_loc) {
       rxl->selectPattern(nlp->get_ixl());
     }
-    buf = rxl->infnorm_local();
+    buf = infnorm_local_nan_is_inf(*rxl);
     //nrmInf_nlp_feasib = fmax(nrmInf_nlp_feasib, buf);
     nlp->log->printf(hovScalars,"NLP resid [update]: inf norm rxl=%22.17e\n", buf);
   }
@@ -252,7 +260,7 @@ int hiopResidual::update(const hiopIterate& it,
     if(nlp->n_upp_local()<nx_loc) {
       rxu->selectPattern(nlp->get_ixu());
     }
-    buf = rxu->infnorm_local();
+    buf = infnorm_local_nan_is_inf(*rxu);
     //nrmInf_nlp_feasib = fmax(nrmInf_nlp_feasib, buf);
     nlp->log->printf(hovScalars,"NLP resid [update]: inf norm rxu=%22.17e\n", buf);
   }  
@@ -261,7 +269,7 @@ int hiopResidual::update(const hiopIterate& it,
   if(nlp->m_ineq_low()>0) {
     rdl->copyFrom(*it.d); rdl->axpy(-1.0,*it.sdl); rdl->axpy(-1.0,nlp->get_dl());
     rdl->selectPattern(nlp->get_idl());
-    buf = rdl->infnorm_local();
+    buf = infnorm_local_nan_is_inf(*rdl);
     //nrmInf_nlp_feasib = fmax(nrmInf_nlp_feasib, buf);
     nlp->log->printf(hovScalars,"NLP resid [update]: inf norm rdl=%22.17e\n", buf);
   }
@@ -272,7 +280,7 @@ int hiopResidual::update(const hiopIterate& it,
     rdu->axpy(-1.0,*it.sdu);
     rdu->axpy(-1.0,*it.d);
     rdu->selectPattern(nlp->get_idu());
-    buf = rdu->infnorm_local();
+    buf = infnorm_local_nan_is_inf(*rdu);
     //nrmInf_nlp_feasib = fmax(nrmInf_nlp_feasib, buf);
     nlp->log->printf(hovScalars,"NLP resid [update]: inf norm rdu=%22.17e\n", buf);
   }
@@ -288,10 +296,10 @@ int hiopResidual::update(const hiopIterate& it,
     if(nlp->n_low_local()<nx_loc) {
       rszl->selectPattern(nlp->get_ixl());
     }
-    nrmInf_nlp_complem = fmax(nrmInf_nlp_complem, rszl->infnorm_local());
+    nrmInf_nlp_complem = fmax(nrmInf_nlp_complem, infnorm_local_nan_is_inf(*rszl));
     
     rszl->addConstant_w_patternSelect(mu,nlp->get_ixl());
-    buf = rszl->infnorm_local();
+    buf = infnorm_local_nan_is_inf(*rszl);
     nrmInf_bar_complem = fmax(nrmInf_bar_complem, buf);
     nlp->log->printf(hovScalars,"NLP resid [update]: inf norm rszl=%22.17e\n", buf);
   }
@@ -303,11 +311,11 @@ int hiopResidual::update(const hiopIterate& it,
       rszu->selectPattern(nlp->get_ixu());
     }
 
-    buf = rszu->infnorm_local();
+    buf = infnorm_local_nan_is_inf(*rszu);
     nrmInf_nlp_complem = fmax(nrmInf_nlp_complem, buf);
 
     rszu->addConstant_w_patternSelect(mu,nlp->get_ixu());
-    buf = rszu->infnorm_local();
+    buf = infnorm_local_nan_is_inf(*rszu);
     nrmInf_bar_complem = fmax(nrmInf_bar_complem, buf);
     nlp->log->printf(hovScalars,"NLP resid [update]: inf norm rszu=%22.17e\n", buf);
   }
@@ -318,12 +326,12 @@ int hiopResidual::update(const hiopIterate& it,
     if(nlp->m_ineq_low()<nlp->m_ineq()) {
       rsvl->selectPattern(nlp->get_idl());
     }
-    buf = rsvl->infnorm_local();
+    buf = infnorm_local_nan_is_inf(*rsvl);
     nrmInf_nlp_complem = fmax(nrmInf_nlp_complem, buf);
 
     //add mu
     rsvl->addConstant_w_patternSelect(mu,nlp->get_idl());
-    buf = rsvl->infnorm_local();
+    buf = infnorm_local_nan_is_inf(*rsvl);
     nrmInf_bar_complem = fmax(nrmInf_bar_complem, buf);
     nlp->log->printf(hovScalars,"NLP resid [update]: inf norm rsvl=%22.17e\n", buf);
   }
@@ -335,12 +343,12 @@ int hiopResidual::update(const hiopIterate& it,
     if(nlp->m_ineq_upp()<nlp->m_ineq()) {
       rsvu->selectPattern(nlp->get_idu());
     }
-    buf = rsvu->infnorm_local();
+    buf = infnorm_local_nan_is_inf(*rsvu);
     nrmInf_nlp_complem = fmax(nrmInf_nlp_complem, buf);
 
     //add mu
     rsvu->addConstant_w_patternSelect(mu,nlp->get_idu());
-    buf = rsvu->infnorm_local();
+    buf = infnorm_local_nan_is_inf(*rsvu);
     nrmInf_bar_complem = fmax(nrmInf_bar_complem, buf);
     nlp->log->printf(hovScalars,"NLP resid [update]: inf norm rsvu=%22.17e\n", buf);
   }
@@ -452,37 +460,37 @@ void hiopResidual::update_soc(const hiopIterate& it,
   jac_d.transTimesVec(1.0, *rx, 1.0, *it.yd);
   rx->axpy(-1.0, *it.zl);
   rx->axpy( 1.0, *it.zu);
-  buf = rx->infnorm_local();
+  buf = infnorm_local_nan_is_inf(*rx);
   nrmInf_nlp_optim = fmax(nrmInf_nlp_optim, buf);
   nrmOne_nlp_optim += rx->onenorm();
   nlp->log->printf(hovScalars,"NLP resid [update]: inf norm rx=%22.17e\n", buf);
   logprob.addNonLogBarTermsToGrad_x(1.0, *rx);
   rx->negate();
-  nrmInf_bar_optim = fmax(nrmInf_bar_optim, rx->infnorm_local());
+  nrmInf_bar_optim = fmax(nrmInf_bar_optim, infnorm_local_nan_is_inf(*rx));
   nrmOne_bar_optim += rx->onenorm();
   
   // rd 
   rd->copyFrom(*it.yd);
   rd->axpy( 1.0, *it.vl);
   rd->axpy(-1.0, *it.vu);
-  buf = rd->infnorm_local();
+  buf = infnorm_local_nan_is_inf(*rd);
   nrmInf_nlp_optim = fmax(nrmInf_nlp_optim, buf);
   nrmOne_nlp_optim += rd->onenorm();
   nlp->log->printf(hovScalars,"NLP resid [update]: inf norm rd=%22.17e\n", buf);
   logprob.addNonLogBarTermsToGrad_d(-1.0,*rd);
-  nrmInf_bar_optim = fmax(nrmInf_bar_optim, rd->infnorm_local());
+  nrmInf_bar_optim = fmax(nrmInf_bar_optim, infnorm_local_nan_is_inf(*rd));
   nrmOne_bar_optim += rd->onenorm();
   
   //ryc for soc: \alpha*c + c_trial
   ryc->copyFrom(c_soc);
-  buf = ryc->infnorm_local();
+  buf = infnorm_local_nan_is_inf(*ryc);
   nrmInf_nlp_feasib = fmax(nrmInf_nlp_feasib, buf);
   nrmOne_nlp_feasib += ryc->onenorm();
   nlp->log->printf(hovScalars,"NLP resid [update]: inf norm ryc=%22.17e\n", buf);
 
   //ryd for soc: \alpha*(slack-d_soc) + (slack_trial-c_trial)
   ryd->copyFrom(d_soc);
-  buf = ryd->infnorm_local();
+  buf = infnorm_local_nan_is_inf(*ryd);
   nrmInf_nlp_feasib = fmax(nrmInf_nlp_feasib, buf);
   nrmOne_nlp_feasib += ryd->onenorm();
   nlp->log->printf(hovScalars,"NLP resid [update]: inf norm ryd=%22.17e\n", buf);
@@ -496,7 +504,7 @@ void hiopResidual::update_soc(const hiopIterate& it,
     if(nlp->n_low_local()<nx_loc) {
       rxl->selectPattern(nlp->get_ixl());
     }
-    buf = rxl->infnorm_local();
+    buf = infnorm_local_nan_is_inf(*rxl);
     //nrmInf_nlp_feasib = fmax(nrmInf_nlp_feasib, buf);
     nlp->log->printf(hovScalars,"NLP resid [update]: inf norm rxl=%22.17e\n", buf);
   }
@@ -509,7 +517,7 @@ void hiopResidual::update_soc(const hiopIterate& it,
     if(nlp->n_upp_local()<nx_loc) {
       rxu->selectPattern(nlp->get_ixu());
     }
-    buf = rxu->infnorm_local();
+    buf = infnorm_local_nan_is_inf(*rxu);
     //nrmInf_nlp_feasib = fmax(nrmInf_nlp_feasib, buf);
     nlp->log->printf(hovScalars,"NLP resid [update]: inf norm rxu=%22.17e\n", buf);
   }  
@@ -518,7 +526,7 @@ void hiopResidual::update_soc(const hiopIterate& it,
   if(nlp->m_ineq_low()>0) {
     rdl->copyFrom(*it.d); rdl->axpy(-1.0,*it.sdl); rdl->axpy(-1.0,nlp->get_dl());
     rdl->selectPattern(nlp->get_idl());
-    buf = rdl->infnorm_local();
+    buf = infnorm_local_nan_is_inf(*rdl);
     //nrmInf_nlp_feasib = fmax(nrmInf_nlp_feasib, buf);
     nlp->log->printf(hovScalars,"NLP resid [update]: inf norm rdl=%22.17e\n", buf);
   }
@@ -529,7 +537,7 @@ void hiopResidual::update_soc(const hiopIterate& it,
     rdu->axpy(-1.0,*it.sdu);
     rdu->axpy(-1.0,*it.d);
     rdu->selectPattern(nlp->get_idu());
-    buf = rdu->infnorm_local();
+    buf = infnorm_local_nan_is_inf(*rdu);
 //    nrmInf_nlp_feasib = fmax(nrmInf_nlp_feasib, buf);
     nlp->log->printf(hovScalars,"NLP resid [update]: inf norm rdl=%22.17e\n", buf);
   }
@@ -545,10 +553,10 @@ void hiopResidual::update_soc(const hiopIterate& it,
     if(nlp->n_low_local()<nx_loc) {
       rszl->selectPattern(nlp->get_ixl());
     }
-    nrmInf_nlp_complem = fmax(nrmInf_nlp_complem, rszl->infnorm_local());
+    nrmInf_nlp_complem = fmax(nrmInf_nlp_complem, infnorm_local_nan_is_inf(*rszl));
     
     rszl->addConstant_w_patternSelect(mu,nlp->get_ixl());
-    buf = rszl->infnorm_local();
+    buf = infnorm_local_nan_is_inf(*rszl);
     nrmInf_bar_complem = fmax(nrmInf_bar_complem, buf);
     nlp->log->printf(hovScalars,"NLP resid [update]: inf norm rszl=%22.17e\n", buf);
   }
@@ -560,11 +568,11 @@ void hiopResidual::update_soc(const hiopIterate& it,
       rszu->selectPattern(nlp->get_ixu());
     }
 
-    buf = rszu->infnorm_local();
+    buf = infnorm_local_nan_is_inf(*rszu);
     nrmInf_nlp_complem = fmax(nrmInf_nlp_complem, buf);
 
     rszu->addConstant_w_patternSelect(mu,nlp->get_ixu());
-    buf = rszu->infnorm_local();
+    buf = infnorm_local_nan_is_inf(*rszu);
     nrmInf_bar_complem = fmax(nrmInf_bar_complem, buf);
     nlp->log->printf(hovScalars,"NLP resid [update]: inf norm rszu=%22.17e\n", buf);
   }
@@ -575,12 +583,12 @@ void hiopResidual::update_soc(const hiopIterate& it,
     if(nlp->m_ineq_low()<nlp->m_ineq()) {
       rsvl->selectPattern(nlp->get_idl());
     }
-    buf = rsvl->infnorm_local();
+    buf = infnorm_local_nan_is_inf(*rsvl);
     nrmInf_nlp_complem = fmax(nrmInf_nlp_complem, buf);
 
     //add mu
     rsvl->addConstant_w_patternSelect(mu,nlp->get_idl());
-    buf = rsvl->infnorm_local();
+    buf = infnorm_local_nan_is_inf(*rsvl);
     nrmInf_bar_complem = fmax(nrmInf_bar_complem, buf);
     nlp->log->printf(hovScalars,"NLP resid [update]: inf norm rsvl=%22.17e\n", buf);
   }
@@ -592,12 +600,12 @@ void hiopResidual::update_soc(const hiopIterate& it,
     if(nlp->m_ineq_upp()<nlp->m_ineq()) {
       rsvu->selectPattern(nlp->get_idu());
     }
-    buf = rsvu->infnorm_local();
+    buf = infnorm_local_nan_is_inf(*rsvu);
     nrmInf_nlp_complem = fmax(nrmInf_nlp_complem, buf);
 
     //add mu
     rsvu->addConstant_w_patternSelect(mu,nlp->get_idu());
-    buf = rsvu->infnorm_local();
+    buf = infnorm_local_nan_is_inf(*rsvu);
     nrmInf_bar_complem = fmax(nrmInf_bar_complem, buf);
     nlp->log->printf(hovScalars,"NLP resid [update]: inf norm rsvu=%22.17e\n", buf);
   }
-- 
2.43.0


From caff353ee43a2120887e1b482cecfe24ba61abb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:15 +0000
Subject: [PATCH 12/52] fix: BiCGStab recognizes breakdowns that produce NaN

---
 src/LinAlg/hiopKrylovSolver.cpp | 34 ++++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/src/LinAlg/hiopKrylovSolver.cpp b/src/LinAlg/hiopKrylovSolver.cpp
index 25f8fe2..f2766e6 100644
--- a/src/LinAlg/hiopKrylovSolver.cpp
+++ b/src/LinAlg/hiopKrylovSolver.cpp
@@ -480,7 +480,7 @@ bool hiopBiCGStabSolver::solve(hiopVector* b)
     rho = rt_->dotProductWith(*res_);
 
     //check for stagnation
-    if((rho == 0) || std::abs(rho) > 1E+40) {
+    if((rho == 0) || !(std::abs(rho) <= 1E+40)) {
       flag_ = 4;
       iter_ = ii + 1 - 0.5;
       break;
@@ -490,7 +490,7 @@ bool hiopBiCGStabSolver::solve(hiopVector* b)
       pk_->copyFrom(*res_);
     } else {
       double beta = rho / rho1 * (alpha / omega);
-      if(beta == 0 || std::abs(beta) > 1E+40) {
+      if(beta == 0 || !(std::abs(beta) <= 1E+40)) {
         flag_ = 4;
         iter_ = ii + 1 - 0.5;
         break;
@@ -509,11 +509,19 @@ bool hiopBiCGStabSolver::solve(hiopVector* b)
       MR_opr_->times_vec(*ph_, *ph_);
     }
 
+    // breakdown of the preconditioner
+    double nrm_ph = ph_->twonorm();
+    if(!std::isfinite(nrm_ph)) {
+      flag_ = 4;
+      iter_ = ii + 1 - 0.5;
+      break;
+    }
+
     A_opr_->times_vec(*v_, *ph_);
     
     double rtv = rt_->dotProductWith(*v_);
     
-    if(rtv == 0.0 || std::abs(rtv) > 1E+40) {
+    if(rtv == 0.0 || !(std::abs(rtv) <= 1E+40)) {
       flag_ = 4;
       iter_ = ii + 1 - 0.5;
       break;
@@ -521,14 +529,14 @@ bool hiopBiCGStabSolver::solve(hiopVector* b)
 
     alpha = rho / rtv;
 
-    if(std::abs(alpha) > 1E+20) {
+    if(!(std::abs(alpha) <= 1E+20)) {
       flag_ = 4;
       iter_ = ii + 1 - 0.5;
       break;
     }
   
     // Check for stagnation of the method
-    if(ph_->twonorm()*std::abs(alpha) < eps * xk_->twonorm()) {
+    if(nrm_ph*std::abs(alpha) < eps * xk_->twonorm()) {
       stagsteps++;
     } else {
       stagsteps = 0;
@@ -589,11 +597,19 @@ bool hiopBiCGStabSolver::solve(hiopVector* b)
       MR_opr_->times_vec(*ph_, *ph_);
     }
 
+    // breakdown of the preconditioner
+    nrm_ph = ph_->twonorm();
+    if(!std::isfinite(nrm_ph)) {
+      iter_ = ii + 1;
+      flag_ = 4;
+      break;
+    }
+
     A_opr_->times_vec(*t_, *ph_);
 
     double tt = t_->dotProductWith(*t_);
     
-    if(tt == 0.0 || std::abs(tt) > 1E+20) {
+    if(tt == 0.0 || !(std::abs(tt) <= 1E+20)) {
       iter_ = ii + 1;
       flag_ = 4;
       break;
@@ -601,13 +617,13 @@ bool hiopBiCGStabSolver::solve(hiopVector* b)
 
     omega = t_->dotProductWith(*sk_) / tt;
 
-    if(std::abs(omega) > 1E+20) {
+    if(!(std::abs(omega) <= 1E+20)) {
       iter_ = ii + 1;
       flag_ = 4;
       break;
     }
 
-    if(ph_->twonorm()*std::abs(omega) < eps * xk_->twonorm()) {
+    if(nrm_ph*std::abs(omega) < eps * xk_->twonorm()) {
       stagsteps++;
     } else {
       stagsteps = 0;
@@ -676,7 +692,7 @@ bool hiopBiCGStabSolver::solve(hiopVector* b)
     res_->scale(-1.0);        
     double normr_comp = res_->twonorm();
     
-    if(normr_comp <= abs_resid_) {
+    if(!(abs_resid_ < normr_comp)) {
       b->copyFrom(*xmin_);
       iter_ = imin + 1;
       abs_resid_ = normr_comp;
-- 
2.43.0


From 2a83b1a5aea2b9d733c477ea6738a844cd8a7630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:43 +0000
Subject: [PATCH 13/52] fix: low-rank KKT solve read uninitialised memory when
 the reduced matrix was not positive definite

---
 src/Optimization/hiopKKTLinSys.cpp | 43 ++++++++++++++++++++++--------
 1 file changed, 32 insertions(+), 11 deletions(-)

diff --git a/src/Optimization/hiopKKTLinSys.cpp b/src/Optimization/hiopKKTLinSys.cpp
index d91a3d6..6762758 100644
--- a/src/Optimization/hiopKKTLinSys.cpp
+++ b/src/Optimization/hiopKKTLinSys.cpp
@@ -52,6 +52,7 @@
 #include "hiopPDPerturbation.hpp"
 
 #include <cmath>
+#include <vector>
 
 namespace hiop
 {
@@ -1236,6 +1237,27 @@ int hiopKKTLinSysLowRank::solveWithRefin(hiopMatrixDense& M, hiopVector& rhs)
 	 WORK, IWORK,
 	 &INFO);
   //printf("INFO ===== %d  RCOND=%g  FERR=%g   BERR=%g  EQUED=%c\n", INFO, RCOND, FERR, BERR, EQUED);
+  // for 0<INFO<=N the matrix is not numerically positive definite and 'X' was not computed: use a symmetric
+  // indefinite factorization
+  const bool is_spd = (INFO == 0 || INFO == N+1);
+  std::vector<int> ipiv;
+  int info = 0;
+  if(!is_spd) {
+    nlp_->log->printf(hovWarning,
+                      "hiopKKTLinSysLowRank::solveWithRefin: matrix is not positive definite (dposvx INFO=%d)\n",
+                      INFO);
+    ipiv.resize(N);
+    int lwork = 64*N;
+    std::vector<double> work(lwork);
+    M.copyFrom(*Aref);
+    DSYTRF(&UPLO, &N, M.local_data(), &LDA, ipiv.data(), work.data(), &lwork, &info);
+    rhsref->copyTo(X);
+    if(info == 0) {
+      DSYTRS(&UPLO, &N, &NRHS, M.local_data(), &LDA, ipiv.data(), X, &LDX, &info);
+    } else {
+      nlp_->log->printf(hovWarning, "hiopKKTLinSysLowRank::solveWithRefin: matrix is singular (dsytrf info=%d)\n", info);
+    }
+  }
   //
   // 2. check residual
   //
@@ -1243,9 +1265,10 @@ int hiopKKTLinSysLowRank::solveWithRefin(hiopMatrixDense& M, hiopVector& rhs)
   hiopVector* dx    = rhs.alloc_clone();
   hiopVector* resid = rhs.alloc_clone();
   int nIterRefin=0;double nrmResid;
-  int info;
   const int MAX_ITER_REFIN=3;
-  while(true) {
+  const int ierr = info;
+  x->copyFrom(X);
+  while(ierr == 0) {
     x->copyFrom(X);
     resid->copyFrom(*rhsref);
     Aref->timesVec(1.0, *resid, -1.0, *x);
@@ -1266,14 +1289,8 @@ int hiopKKTLinSysLowRank::solveWithRefin(hiopMatrixDense& M, hiopVector& rhs)
       break;
       //assert(false && "too many refinements");
     }
-    if(0) { //iter refin based on symmetric indefinite factorization+solve
-
-
-      int _V_ipiv_vec[1000]; double _V_work_vec[1000]; int lwork=1000;
-      M.copyFrom(*Aref);
-      DSYTRF(&UPLO, &N, M.local_data(), &LDA, _V_ipiv_vec, _V_work_vec, &lwork, &info);
-      assert(info==0);
-      DSYTRS(&UPLO, &N, &NRHS, M.local_data(), &LDA, _V_ipiv_vec, resid->local_data(), &LDB, &info);
+    if(!is_spd) { //iter refin based on symmetric indefinite factorization+solve
+      DSYTRS(&UPLO, &N, &NRHS, M.local_data(), &LDA, ipiv.data(), resid->local_data(), &LDB, &info);
       assert(info==0);
     } else { //iter refin based on symmetric positive definite factorization+solve
       M.copyFrom(*Aref);
@@ -1286,6 +1303,10 @@ int hiopKKTLinSysLowRank::solveWithRefin(hiopMatrixDense& M, hiopVector& rhs)
 	if(info<0)
 	  nlp_->log->printf(hovError, "hiopKKTLinSysLowRank::factorizeMat: dpotrf returned "
 			    "error %d\n", info);
+      if(info!=0) {
+        // no factors to refine with
+        break;
+      }
 
       DPOTRS(&UPLO,&N, &NRHS, M.local_data(), &LDA, resid->local_data(), &LDA, &info);
       if(info<0)
@@ -1346,7 +1367,7 @@ int hiopKKTLinSysLowRank::solveWithRefin(hiopMatrixDense& M, hiopVector& rhs)
 //   nlp_->log->printf(hovLinAlgScalars, "hiopKKTLinSysLowRank::solveCompressed: Cholesky solve: relative error %g\n", relErr);
 //   delete r;
 // #endif
-  return 0;
+  return ierr;
 }
 
 int hiopKKTLinSysLowRank::solve(hiopMatrixDense& M, hiopVector& rhs)
-- 
2.43.0


From 44a13f3c5a7083bd91b310507a9ef15291c53fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:36 +0000
Subject: [PATCH 14/52] fix: problem object unusable after all constraint
 evaluations failed at the first call

A failure of all of the user's constraint (or Jacobian) functions at the very
first call left the problem in the one-call mode for good, so that any further
solve with the same object failed for users that evaluate subsets.
---
 src/Optimization/hiopNlpFormulation.cpp | 33 +++++++++++++++++++------
 src/Optimization/hiopNlpFormulation.hpp |  3 +++
 2 files changed, 28 insertions(+), 8 deletions(-)

diff --git a/src/Optimization/hiopNlpFormulation.cpp b/src/Optimization/hiopNlpFormulation.cpp
index 06d81cf..2871d59 100644
--- a/src/Optimization/hiopNlpFormulation.cpp
+++ b/src/Optimization/hiopNlpFormulation.cpp
@@ -415,13 +415,7 @@ bool hiopNlpFormulation::finalizeInitialization()
   }
 
   //reset/release info and data related to one-call constraints evaluation
-  cons_eval_type_ = -1;
-  
-  delete cons_body_;
-  cons_body_ = nullptr;
-  
-  delete cons_Jac_;
-  cons_Jac_ = NULL;
+  reset_cons_eval_type();
 
   delete cons_lambdas_;
   cons_lambdas_ = nullptr;
@@ -943,6 +937,7 @@ bool hiopNlpFormulation::eval_d(hiopVector& x, bool new_x, hiopVector& d)
 bool hiopNlpFormulation::eval_c_d(hiopVector& x, bool new_x, hiopVector& c, hiopVector& d)
 {
   bool do_eval_c = true;
+  const bool cons_eval_type_unknown = (-1 == cons_eval_type_);
   if(-1 == cons_eval_type_) {
     assert(cons_body_ == nullptr);
     assert(NULL == cons_Jac_);
@@ -997,6 +992,11 @@ bool hiopNlpFormulation::eval_c_d(hiopVector& x, bool new_x, hiopVector& c, hiop
     runStats.tmEvalCons.stop();
     runStats.nEvalCons_eq++;
     runStats.nEvalCons_ineq++;
+
+    if(!bret && cons_eval_type_unknown) {
+      //all evaluations failed, so how the user evaluates the constraints remains unknown
+      reset_cons_eval_type();
+    }
     
     return bret;
   }
@@ -1010,6 +1010,7 @@ bool hiopNlpFormulation::eval_Jac_c_d(hiopVector& x, bool new_x, hiopMatrix& Jac
   }
 
   bool do_eval_Jac_c = true;
+  const bool cons_eval_type_unknown = (-1 == cons_eval_type_);
 
   if(-1 == cons_eval_type_) {
     assert(cons_body_ == nullptr);
@@ -1045,11 +1046,27 @@ bool hiopNlpFormulation::eval_Jac_c_d(hiopVector& x, bool new_x, hiopMatrix& Jac
     assert(cons_body_);
     assert(cons_Jac_);
     
-    return eval_Jac_c_d_interface_impl(x, new_x, Jac_c, Jac_d);
+    const bool bret = eval_Jac_c_d_interface_impl(x, new_x, Jac_c, Jac_d);
+    if(!bret && cons_eval_type_unknown) {
+      //all evaluations failed, so how the user evaluates the constraints remains unknown
+      reset_cons_eval_type();
+    }
+    return bret;
   }
   return true;
 }
 
+void hiopNlpFormulation::reset_cons_eval_type()
+{
+  cons_eval_type_ = -1;
+
+  delete cons_body_;
+  cons_body_ = nullptr;
+
+  delete cons_Jac_;
+  cons_Jac_ = nullptr;
+}
+
 void hiopNlpFormulation::
 get_dual_solutions(const hiopIterate& it, double* zl_a, double* zu_a, double* lambda_a)
 {
diff --git a/src/Optimization/hiopNlpFormulation.hpp b/src/Optimization/hiopNlpFormulation.hpp
index 8602fb4..804e59c 100644
--- a/src/Optimization/hiopNlpFormulation.hpp
+++ b/src/Optimization/hiopNlpFormulation.hpp
@@ -423,6 +423,9 @@ protected:
   hiopVector* temp_ineq_;
   hiopVector* temp_x_;
 
+  /// Forgets how the user evaluates the constraints and releases the related data
+  void reset_cons_eval_type();
+
 private:
   hiopNlpFormulation(const hiopNlpFormulation& s)
     : nlp_transformations_(this), interface_base(s.interface_base)
-- 
2.43.0


From 617cd1359252114ed4a33f1f761df8031a38bba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:55 +0000
Subject: [PATCH 15/52] fix: iterates left the bounds after inaccurate
 iterative solves

BiCGStab satisfies the relation between the directions of primals and slacks
only up to its residual. Recompute the slack directions from the primal ones so
that the fraction-to-the-boundary rule holds for the primals as well.
---
 src/Optimization/hiopKKTLinSys.cpp | 29 +++++++++++++++++++++++++++++
 src/Optimization/hiopKKTLinSys.hpp |  3 +++
 2 files changed, 32 insertions(+)

diff --git a/src/Optimization/hiopKKTLinSys.cpp b/src/Optimization/hiopKKTLinSys.cpp
index 6762758..b92189e 100644
--- a/src/Optimization/hiopKKTLinSys.cpp
+++ b/src/Optimization/hiopKKTLinSys.cpp
@@ -909,6 +909,31 @@ bool hiopKKTLinSysCompressedXDYcYd::computeDirections(const hiopResidual* resid,
 }
 
 
+void hiopKKTLinSys::compute_slack_directions(const hiopResidual* resid, hiopIterate* dir)
+{
+  const hiopResidual& r = *resid;
+
+  //dsxl = rxl + dx
+  dir->sxl->copyFrom(*r.rxl);
+  dir->sxl->axpy(1.0, *dir->x);
+  dir->sxl->selectPattern(nlp_->get_ixl());
+
+  //dsxu = rxu - dx
+  dir->sxu->copyFrom(*r.rxu);
+  dir->sxu->axpy(-1.0, *dir->x);
+  dir->sxu->selectPattern(nlp_->get_ixu());
+
+  //dsdl = rdl + dd
+  dir->sdl->copyFrom(*r.rdl);
+  dir->sdl->axpy(1.0, *dir->d);
+  dir->sdl->selectPattern(nlp_->get_idl());
+
+  //dsdu = rdu - dd
+  dir->sdu->copyFrom(*r.rdu);
+  dir->sdu->axpy(-1.0, *dir->d);
+  dir->sdu->selectPattern(nlp_->get_idu());
+}
+
 bool hiopKKTLinSys::compute_directions_w_IR(const hiopResidual* resid, hiopIterate* dir)
 {
   nlp_->runStats.tmSolverInternal.start();
@@ -947,6 +972,10 @@ bool hiopKKTLinSys::compute_directions_w_IR(const hiopResidual* resid, hiopItera
 
   bool bret = bicgIR_->solve(dir, resid);
 
+  // The solution satisfies the linear system only up to a residual. The slacks should nevertheless move together with
+  // the primals, otherwise the fraction-to-the-boundary rule does not keep the primals inside the bounds.
+  compute_slack_directions(resid, dir);
+
   nlp_->runStats.kkt.nIterRefinInner += bicgIR_->get_sol_num_iter();
   if(!bret) {
     nlp_->log->printf(hovWarning, "%s", bicgIR_->get_convergence_info().c_str());
diff --git a/src/Optimization/hiopKKTLinSys.hpp b/src/Optimization/hiopKKTLinSys.hpp
index 83334ba..da0c742 100644
--- a/src/Optimization/hiopKKTLinSys.hpp
+++ b/src/Optimization/hiopKKTLinSys.hpp
@@ -90,6 +90,9 @@ public:
 
   virtual bool compute_directions_for_full_space(const hiopResidual* resid, hiopIterate* direction);
 
+  /// Computes the directions of the bounds' slacks from the primal directions
+  void compute_slack_directions(const hiopResidual* resid, hiopIterate* direction);
+
   virtual bool factorize_inertia_free() = 0;
 
   /* curvature test for inertia-free approach */  
-- 
2.43.0


From 3ae35c42d00fbf5a8a022839f3c0bc3148d76d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:45 +0000
Subject: [PATCH 16/52] fix: MDS inertia-free curvature test read an
 uninitialised diagonal

---
 src/Optimization/hiopKKTLinSysMDS.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Optimization/hiopKKTLinSysMDS.cpp b/src/Optimization/hiopKKTLinSysMDS.cpp
index 40830c1..c87ce27 100644
--- a/src/Optimization/hiopKKTLinSysMDS.cpp
+++ b/src/Optimization/hiopKKTLinSysMDS.cpp
@@ -157,6 +157,12 @@ namespace hiop
     Dx_->axdzpy_w_pattern(1.0, *iter->zu, *iter->sxu, nlp_->get_ixu());
     nlp_->log->write("Dx in KKT", *Dx_, hovMatrices);
 
+    //Dd (log-barrier diagonal for the slacks of the inequalities); needed by 'test_direction'
+    Dd_->setToZero();
+    Dd_->axdzpy_w_pattern(1.0, *iter->vl, *iter->sdl, nlp_->get_idl());
+    Dd_->axdzpy_w_pattern(1.0, *iter->vu, *iter->sdu, nlp_->get_idu());
+    nlp_->log->write("Dd in KKT", *Dd_, hovMatrices);
+
     nlp_->runStats.kkt.tmUpdateInit.stop();
 
     //
-- 
2.43.0


From 6c5239b7f2cdc00bcbd75da02171c2f80753e909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:09 +0000
Subject: [PATCH 17/52] fix: the one-process primal decomposition reports the
 status of its last master solve

---
 src/Optimization/hiopAlgPrimalDecomp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Optimization/hiopAlgPrimalDecomp.cpp b/src/Optimization/hiopAlgPrimalDecomp.cpp
index fc2359e..26c854a 100644
--- a/src/Optimization/hiopAlgPrimalDecomp.cpp
+++ b/src/Optimization/hiopAlgPrimalDecomp.cpp
@@ -1954,7 +1954,7 @@ hiopSolveStatus hiopAlgPrimalDecomposition::run_single()
   delete x0;
   delete hess_appx_2;
   delete evaluator;
-  return Solve_Success;    
+  return solver_status_;
 }
 
 }//end namespace
-- 
2.43.0


From 0122c44a426957dd7b23b934e64766824f634bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:08 +0000
Subject: [PATCH 18/52] fix: a solve after a previous one with the same objects
 starts from the initial state

---
 src/Optimization/hiopAlgFilterIPM.cpp   | 20 ++++++++++++++++----
 src/Optimization/hiopAlgFilterIPM.hpp   |  3 +++
 src/Optimization/hiopNlpFormulation.cpp | 12 ++++++++++++
 src/Optimization/hiopNlpFormulation.hpp | 11 +++++++++++
 4 files changed, 42 insertions(+), 4 deletions(-)

diff --git a/src/Optimization/hiopAlgFilterIPM.cpp b/src/Optimization/hiopAlgFilterIPM.cpp
index 05beb28..eabfe67 100644
--- a/src/Optimization/hiopAlgFilterIPM.cpp
+++ b/src/Optimization/hiopAlgFilterIPM.cpp
@@ -101,6 +101,7 @@ hiopAlgFilterIPMBase::hiopAlgFilterIPMBase(hiopNlpFormulation* nlp_in, const boo
     c_soc(nullptr),
     d_soc(nullptr),
     within_FR_(within_FR),
+    solve_started_(false),
     pd_perturb_(nullptr),
     fact_acceptor_(nullptr)
 {
@@ -969,17 +970,22 @@ hiopSolveStatus hiopAlgFilterIPMQuasiNewton::run()
 {
   //hiopNlpFormulation nlp may need an update since user may have changed options and
   //reruning with the same hiopAlgFilterIPMQuasiNewton instance
+  if(!load_state_api_called_) {
+    nlp->discard_changes_of_previous_solve();
+  }
   nlp->finalizeInitialization();
   //also reload options
   reload_options();
 
-  //if nlp changed internally, we need to reinitialize 'this'
-  if(it_curr->get_x()->get_size()!=nlp->n() ||
+  //if nlp changed internally or a solve was done before, we need to reinitialize 'this'
+  if((solve_started_ && !load_state_api_called_) ||
+     it_curr->get_x()->get_size()!=nlp->n() ||
      //Jac_c->get_local_size_n()!=nlpdc->n_local()) { <- this is prone to racing conditions
      _Jac_c->n()!=nlpdc->n()) {
     //size of the nlp changed internally ->  reInitializeNlpObjects();
     reInitializeNlpObjects();
   }
+  solve_started_ = true;
   resetSolverStatus();
 
   //types of linear algebra objects are known now
@@ -1077,6 +1083,7 @@ hiopSolveStatus hiopAlgFilterIPMQuasiNewton::run()
   assert(kkt != nullptr);
 
   // assign an Null pd_perturb, i.e., all the deltas = 0.0
+  delete pd_perturb_;
   pd_perturb_ = new hiopPDPerturbationNull();
   if(!pd_perturb_->initialize(nlp)) {
     delete kkt;
@@ -2140,18 +2147,21 @@ hiopSolveStatus hiopAlgFilterIPMNewton::run()
 {
   //hiopNlpFormulation nlp may need an update since user may have changed options and
   //reruning with the same hiopAlgFilterIPMNewton instance
+  nlp->discard_changes_of_previous_solve();
   nlp->finalizeInitialization();
 
   //also reload options
   reload_options();
 
-  //if nlp changed internally, we need to reinitialize `this`
-  if(it_curr->get_x()->get_size()!=nlp->n() ||
+  //if nlp changed internally or a solve was done before, we need to reinitialize `this`
+  if(solve_started_ ||
+     it_curr->get_x()->get_size()!=nlp->n() ||
      //Jac_c->get_local_size_n()!=nlpdc->n_local()) { <- this is prone to racing conditions
      _Jac_c->n()!=nlp->n()) {
     //size of the nlp changed internally ->  reInitializeNlpObjects();
     reInitializeNlpObjects();
   }
+  solve_started_ = true;
   resetSolverStatus();
 
   nlp->runStats.initialize();
@@ -2202,6 +2212,8 @@ hiopSolveStatus hiopAlgFilterIPMNewton::run()
   hiopKKTLinSys* kkt = decideAndCreateLinearSystem(nlp);
   assert(kkt != NULL);
   
+  delete pd_perturb_;
+  pd_perturb_ = nullptr;
   if(nlp->options->GetString("normaleqn_regularization_priority")=="dual_first" && nlp->options->GetString("KKTLinsys")=="normaleqn") {
     if(nlp->options->GetString("regularization_method")=="randomized") {
       pd_perturb_ = new hiopPDPerturbationDualFirstRand();
diff --git a/src/Optimization/hiopAlgFilterIPM.hpp b/src/Optimization/hiopAlgFilterIPM.hpp
index bf90fa9..20c55c1 100644
--- a/src/Optimization/hiopAlgFilterIPM.hpp
+++ b/src/Optimization/hiopAlgFilterIPM.hpp
@@ -342,6 +342,9 @@ protected:
   /* Flag to tell if this is a FR problem */
   bool within_FR_;
 
+  /* Flag to tell that a solve was started with this object, hence that its state is not the initial one */
+  bool solve_started_;
+
   hiopPDPerturbation* pd_perturb_;
   hiopFactAcceptor* fact_acceptor_;
 };
diff --git a/src/Optimization/hiopNlpFormulation.cpp b/src/Optimization/hiopNlpFormulation.cpp
index 2871d59..8b5c3d7 100644
--- a/src/Optimization/hiopNlpFormulation.cpp
+++ b/src/Optimization/hiopNlpFormulation.cpp
@@ -82,6 +82,8 @@ hiopNlpFormulation::hiopNlpFormulation(hiopInterfaceBase& interface_, const char
 {
   strFixedVars_ = ""; //uninitialized
   dFixedVarsTol_ = -1.; //uninitialized
+  modified_by_solve_ = false;
+  reinit_needed_ = false;
   bool bret;
 #ifdef HIOP_USE_MPI
   bret = interface_base.get_MPI_comm(comm_); assert(bret);
@@ -195,12 +197,19 @@ bool hiopNlpFormulation::finalizeInitialization()
     doinit=true;
   }
 
+  if(reinit_needed_) {
+    doinit=true;
+  }
+
   //more checks whether we should reinitialize go here (for example change in the rescaling option)
   
   if(!doinit) {
     return true;
   }
 
+  reinit_needed_ = false;
+  modified_by_solve_ = false;
+
   // Select memory space where to create linear algebra objects
   string mem_space = options->GetString("mem_space");
   log->printf(hovScalars, "NlpFormulation initialization: using mem_space='%s'\n", mem_space.c_str());
@@ -697,6 +706,7 @@ bool hiopNlpFormulation::apply_scaling(hiopVector& c, hiopVector& d, hiopVector&
     return false;
   }
   
+  modified_by_solve_ = true;
   nlp_scaling_ = new hiopNLPObjGradScaling(this,
                                            c,
                                            d,
@@ -1432,6 +1442,7 @@ double hiopNlpFormulation::get_obj_scale() const
 
 void hiopNlpFormulation::adjust_bounds(const hiopIterate& it)
 {  
+  modified_by_solve_ = true;
   xl_->copy_from_w_pattern(*it.get_x(), *ixl_);
   xl_->axpy_w_pattern(-1.0, *it.get_sxl(), *ixl_);
 
@@ -1447,6 +1458,7 @@ void hiopNlpFormulation::adjust_bounds(const hiopIterate& it)
 
 void hiopNlpFormulation::reset_bounds(double bound_relax_perturb)
 {
+  modified_by_solve_ = true;
   relax_bounds_->relax_from_ori(bound_relax_perturb, *xl_, *xu_, *dl_, *du_);
   if(nlp_scaling_) {
     // the original bounds kept by the relaxer are not scaled
diff --git a/src/Optimization/hiopNlpFormulation.hpp b/src/Optimization/hiopNlpFormulation.hpp
index 804e59c..3dde5f6 100644
--- a/src/Optimization/hiopNlpFormulation.hpp
+++ b/src/Optimization/hiopNlpFormulation.hpp
@@ -272,6 +272,12 @@ public:
   /// @brief return the scaling fact for objective
   double get_obj_scale() const;
 
+  /** 
+   * @brief Called at the beginning of a solve. Scaling and bounds changes made by a previous solve are discarded 
+   * in the subsequent call of 'finalizeInitialization'.
+   */
+  inline void discard_changes_of_previous_solve() { reinit_needed_ = modified_by_solve_; }
+
   /// @brief adjust variable/constraint bounds according to the given iteration.
   void adjust_bounds(const hiopIterate& it);
 
@@ -368,6 +374,11 @@ protected:
   std::string strFixedVars_; //"none", "fixed", "relax"
   double dFixedVarsTol_;
 
+  /// @brief Whether a solve scaled the problem or changed its bounds since the last initialization
+  bool modified_by_solve_;
+  /// @brief Whether 'finalizeInitialization' should initialize the problem again
+  bool reinit_needed_;
+
   /**
    * @brief Internal NLP transformations that supports fixing and relaxing variables as well as
    * problem rescalings.
-- 
2.43.0


From 524d5ef5de00f096c5d31d10a88b3258937d6d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:08 +0000
Subject: [PATCH 19/52] fix: the one norm of the infeasibility reported to the
 user is the one of the reported iterate

---
 src/Optimization/hiopAlgFilterIPM.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Optimization/hiopAlgFilterIPM.cpp b/src/Optimization/hiopAlgFilterIPM.cpp
index eabfe67..21c1be9 100644
--- a/src/Optimization/hiopAlgFilterIPM.cpp
+++ b/src/Optimization/hiopAlgFilterIPM.cpp
@@ -1161,6 +1161,7 @@ hiopSolveStatus hiopAlgFilterIPMQuasiNewton::run()
     }
 
     //user callback
+    onenorm_pr_curr_ = resid->get_theta(); //at it_curr
     if(!nlp->user_callback_iterate(iter_num_,
                                    _f_nlp,
                                    logbar->f_logbar,
@@ -2307,6 +2308,7 @@ hiopSolveStatus hiopAlgFilterIPMNewton::run()
     }
 
     //user callback
+    onenorm_pr_curr_ = resid->get_theta(); //at it_curr
     if(!nlp->user_callback_iterate(iter_num_,
                                    _f_nlp,
                                    logbar->f_logbar,
-- 
2.43.0


From 725909864aa5ebfecd26f132488de7c722c2f2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:02 +0000
Subject: [PATCH 20/52] fix: messages about options are not used as format
 strings

Text of the options file (or an option name or value) containing '%' was
interpreted as a format by the second printf and crashed the process.
---
 src/Utils/hiopOptions.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Utils/hiopOptions.cpp b/src/Utils/hiopOptions.cpp
index 7ce51f9..9e35991 100644
--- a/src/Utils/hiopOptions.cpp
+++ b/src/Utils/hiopOptions.cpp
@@ -480,9 +480,9 @@ void hiopOptions::log_printf(hiopOutVerbosity v, const char* format, ...)
   va_start (args, format);
   vsnprintf(buff,1024,format, args);
   if(log_) {
-    log_->printf(v,buff);
+    log_->printf(v, "%s", buff);
   } else {
-    hiopLogger::printf_error(v,buff);
+    hiopLogger::printf_error(v, "%s", buff);
   }
   //fprintf(stderr,buff);
   va_end (args);
-- 
2.43.0


From 3d9fee0bf04a6a34b1d28abc8c9ebf33c77839cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:02 +0000
Subject: [PATCH 21/52] fix: NaN is not accepted as the value of a numeric
 option

---
 src/Utils/hiopOptions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Utils/hiopOptions.cpp b/src/Utils/hiopOptions.cpp
index 9e35991..4842e09 100644
--- a/src/Utils/hiopOptions.cpp
+++ b/src/Utils/hiopOptions.cpp
@@ -296,7 +296,7 @@ bool hiopOptions::SetNumericValue (const char* name, const double& value, const
         option->specifiedAtRuntime=true;
       }
       
-      if(value<option->lb || value>option->ub) {
+      if(!(value>=option->lb && value<=option->ub)) {
         log_printf(hovWarning,
                    "Hiop: option '%s' must be in [%g,%g]. Default value %g will be used.\n",
                    name, option->lb,
-- 
2.43.0


From f7ace89ebb43310c1da14a6fe7a603999dc7ce57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:02 +0000
Subject: [PATCH 22/52] fix: file names given as option values keep their case

Options without a list of possible values (names of checkpoint and options
files) were lowercased like the others and named other files.
---
 src/Utils/hiopOptions.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/Utils/hiopOptions.cpp b/src/Utils/hiopOptions.cpp
index 4842e09..84c20ab 100644
--- a/src/Utils/hiopOptions.cpp
+++ b/src/Utils/hiopOptions.cpp
@@ -394,7 +394,9 @@ bool hiopOptions::set_val(const char* name, const char* value_in)
       assert(false && "mismatch between name and type happened in internal 'set_val'");
     } else {
       string value(value_in);
-      transform(value.begin(), value.end(), value.begin(), ::tolower);
+      if(!option->range.empty()) {
+        transform(value.begin(), value.end(), value.begin(), ::tolower);
+      }
       //see if it is in the range (of supported values)
       bool inrange=false;
       for(int it=0; it<static_cast<int>(option->range.size()) && !inrange; it++) {
@@ -439,7 +441,10 @@ bool hiopOptions::SetStringValue (const char* name,  const char* value, const bo
         option->specifiedInFile = true;
       }
       string strValue(value);
-      transform(strValue.begin(), strValue.end(), strValue.begin(), ::tolower);
+      if(!option->range.empty()) {
+        // options without a list of values, such as file names, are case sensitive
+        transform(strValue.begin(), strValue.end(), strValue.begin(), ::tolower);
+      }
       //see if it is in the range (of supported values)
       bool inrange=false;
       for(int it=0; it<static_cast<int>(option->range.size()) && !inrange; it++) {
-- 
2.43.0


From 42759db8aed4ec6abef80602739dd48fe3e82a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:02 +0000
Subject: [PATCH 23/52] fix: the default of option accum_local is one of its
 possible values

---
 src/Utils/hiopOptions.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Utils/hiopOptions.cpp b/src/Utils/hiopOptions.cpp
index 84c20ab..8838f11 100644
--- a/src/Utils/hiopOptions.cpp
+++ b/src/Utils/hiopOptions.cpp
@@ -1646,9 +1646,9 @@ void hiopOptionsPriDec::register_options()
   // option for local accumulation of function value and subgradient on evaluator ranks, then reduce
   {
     register_str_option("accum_local",
-                        "false", // default value for the option
+                        "no", // default value for the option
                         vector<string>({"yes", "no"}), // range
-                        "Accumulates recourse problem solutions locally on evaluator ranks (default 'false')");
+                        "Accumulates recourse problem solutions locally on evaluator ranks (default 'no')");
   }
 
   //
-- 
2.43.0


From deba0464545f249ad36b53919511e5fea148b5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:02 +0000
Subject: [PATCH 24/52] fix: a rejected value does not count as specified, and
 values set at runtime count as user defined

An out-of-range value in the options file was ignored, but all later values
given at runtime were ignored too since the option was "already specified in
the option file". Integer and string options set at runtime were not reported
by is_user_defined.
---
 src/Utils/hiopOptions.cpp | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/Utils/hiopOptions.cpp b/src/Utils/hiopOptions.cpp
index 8838f11..5ac039f 100644
--- a/src/Utils/hiopOptions.cpp
+++ b/src/Utils/hiopOptions.cpp
@@ -290,12 +290,6 @@ bool hiopOptions::SetNumericValue (const char* name, const double& value, const
         }
       }
       
-      if(setFromFile) {
-        option->specifiedInFile=true;
-      } else {
-        option->specifiedAtRuntime=true;
-      }
-      
       if(!(value>=option->lb && value<=option->ub)) {
         log_printf(hovWarning,
                    "Hiop: option '%s' must be in [%g,%g]. Default value %g will be used.\n",
@@ -304,6 +298,11 @@ bool hiopOptions::SetNumericValue (const char* name, const double& value, const
                    option->val);
       } else {
         option->val = value;
+        if(setFromFile) {
+          option->specifiedInFile=true;
+        } else {
+          option->specifiedAtRuntime=true;
+        }
       }
     }
   } else {
@@ -361,9 +360,6 @@ bool hiopOptions::SetIntegerValue(const char* name, const int& value, const bool
         }
       }
       
-      if(setFromFile) {
-        option->specifiedInFile=true;
-      }
       if(value<option->lb || value>option->ub) {
         log_printf(hovWarning,
                    "Hiop: option '%s' must be in [%d, %d]. Default value %d will be used.\n",
@@ -373,6 +369,11 @@ bool hiopOptions::SetIntegerValue(const char* name, const int& value, const bool
                    option->val);
       } else {
         option->val = value;
+        if(setFromFile) {
+          option->specifiedInFile=true;
+        } else {
+          option->specifiedAtRuntime=true;
+        }
       }
     }
   } else {
@@ -437,9 +438,6 @@ bool hiopOptions::SetStringValue (const char* name,  const char* value, const bo
         }
       }
       
-      if(setFromFile) {
-        option->specifiedInFile = true;
-      }
       string strValue(value);
       if(!option->range.empty()) {
         // options without a list of values, such as file names, are case sensitive
@@ -466,6 +464,11 @@ bool hiopOptions::SetStringValue (const char* name,  const char* value, const bo
                    option->val.c_str());
       } else {
         option->val = strValue;
+        if(setFromFile) {
+          option->specifiedInFile = true;
+        } else {
+          option->specifiedAtRuntime = true;
+        }
       }
     }
   } else {
-- 
2.43.0


From d82bcdcc3f09d4ff2cd2518966141c85e4494a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:16 +0000
Subject: [PATCH 25/52] fix: copies of a dense matrix know the size of their
 communicator

The copy constructor left comm_size_ uninitialized, so that set_Jac_FR on a clone
chose the process holding the additional columns at random.
---
 src/LinAlg/hiopMatrixDenseRowMajor.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/LinAlg/hiopMatrixDenseRowMajor.cpp b/src/LinAlg/hiopMatrixDenseRowMajor.cpp
index 478ac89..0c4d314 100644
--- a/src/LinAlg/hiopMatrixDenseRowMajor.cpp
+++ b/src/LinAlg/hiopMatrixDenseRowMajor.cpp
@@ -113,6 +113,7 @@ hiopMatrixDenseRowMajor::hiopMatrixDenseRowMajor(const hiopMatrixDenseRowMajor&
   n_local_=dm.n_local_; m_local_=dm.m_local_; n_global_=dm.n_global_;
   glob_jl_=dm.glob_jl_; glob_ju_=dm.glob_ju_;
   comm_=dm.comm_; myrank_=dm.myrank_;
+  comm_size_=dm.comm_size_;
 
   //M=new double*[m_local_==0?1:m_local_];
   max_rows_ = dm.max_rows_;
-- 
2.43.0


From e6bc3e6c298cdb369069e4eb00a025b39d075f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:16 +0000
Subject: [PATCH 26/52] fix: timesVec ignores the content of y for beta=0 also
 on processes without columns

Scaling the (possibly uninitialized) y by zero left NaN in it on processes with an empty
part, which then spread to all processes by the reduction.
---
 src/LinAlg/hiopMatrixDenseRowMajor.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/LinAlg/hiopMatrixDenseRowMajor.cpp b/src/LinAlg/hiopMatrixDenseRowMajor.cpp
index 0c4d314..36ac3e3 100644
--- a/src/LinAlg/hiopMatrixDenseRowMajor.cpp
+++ b/src/LinAlg/hiopMatrixDenseRowMajor.cpp
@@ -473,7 +473,12 @@ timesVec(double beta, double* ya, double alpha, const double* xa) const
   } else {
     if( MM != 0 ) {
       //y.scale( beta );
-      if(beta != 1.) {
+      if(beta == 0.) {
+        // as DGEMV, do not use the content of y, which may not be initialized (or finite)
+        for(int i=0; i<MM; i++) {
+          ya[i] = 0.;
+        }
+      } else if(beta != 1.) {
 	int one=1; 
 	DSCAL(&MM, &beta, ya, &one);
       }
-- 
2.43.0


From f638956d28696ec9fe84caf02997acb4f4e02f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:16 +0000
Subject: [PATCH 27/52] fix: copying from a null buffer does not drop the
 storage of a dense matrix

On processes with an empty part, copyFrom leaked the storage and left rows pointing to
nothing, so that later operations asserted or crashed there.
---
 src/LinAlg/hiopMatrixDenseRowMajor.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/LinAlg/hiopMatrixDenseRowMajor.cpp b/src/LinAlg/hiopMatrixDenseRowMajor.cpp
index 36ac3e3..ef7f325 100644
--- a/src/LinAlg/hiopMatrixDenseRowMajor.cpp
+++ b/src/LinAlg/hiopMatrixDenseRowMajor.cpp
@@ -142,9 +142,7 @@ void hiopMatrixDenseRowMajor::copyFrom(const hiopMatrixDense& dmmat)
   const auto& dm = dynamic_cast<const hiopMatrixDenseRowMajor&>(dmmat);
   assert(n_local_==dm.n_local_); assert(m_local_==dm.m_local_); assert(n_global_==dm.n_global_);
   assert(glob_jl_==dm.glob_jl_); assert(glob_ju_==dm.glob_ju_);
-  if(NULL==dm.M_[0]) {
-    M_[0] = NULL;
-  } else {
+  if(NULL!=dm.M_[0] && NULL!=M_[0]) {
     memcpy(M_[0], dm.M_[0], m_local_*n_local_*sizeof(double));
   }
 }
@@ -152,7 +150,7 @@ void hiopMatrixDenseRowMajor::copyFrom(const hiopMatrixDense& dmmat)
 void hiopMatrixDenseRowMajor::copyFrom(const double* buffer)
 {
   if(NULL==buffer) {
-    M_[0] = NULL;
+    assert(m_local_*n_local_==0 && "a buffer is needed for a nonempty matrix");
   } else {
     memcpy(M_[0], buffer, m_local_*n_local_*sizeof(double));
   }
-- 
2.43.0


From 284a0fea420a17946859d5616009af65c7ede0c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:53 +0000
Subject: [PATCH 28/52] fix: vectors added to a compound vector take part in
 its operations

addVector did not count the new part: all operations ignored it, and the destructor leaked it.
---
 src/LinAlg/hiopVectorCompoundPD.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/LinAlg/hiopVectorCompoundPD.cpp b/src/LinAlg/hiopVectorCompoundPD.cpp
index 9f7d31f..590eb7c 100644
--- a/src/LinAlg/hiopVectorCompoundPD.cpp
+++ b/src/LinAlg/hiopVectorCompoundPD.cpp
@@ -1014,6 +1014,7 @@ void hiopVectorCompoundPD::addVector(hiopVector *v)
 {
   vectors_.push_back(v);
   n_ += v->get_size();
+  n_parts_++;
 }
 
 hiopVector& hiopVectorCompoundPD::getVector(index_type index) const
-- 
2.43.0


From 1aead92304a786344e733b85cc71263660421509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:53 +0000
Subject: [PATCH 29/52] fix: the log-barrier gradient of compound vectors is
 evaluated at the given point

addLogBarrierGrad used the selection pattern in place of the point.
---
 src/LinAlg/hiopVectorCompoundPD.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LinAlg/hiopVectorCompoundPD.cpp b/src/LinAlg/hiopVectorCompoundPD.cpp
index 590eb7c..550b98d 100644
--- a/src/LinAlg/hiopVectorCompoundPD.cpp
+++ b/src/LinAlg/hiopVectorCompoundPD.cpp
@@ -740,7 +740,7 @@ double hiopVectorCompoundPD::sum_local() const
 void hiopVectorCompoundPD::addLogBarrierGrad(double alpha, const hiopVector& vx, const hiopVector& select)
 {
   const hiopVectorCompoundPD& ix = dynamic_cast<const hiopVectorCompoundPD&>(select);
-  const hiopVectorCompoundPD& x = dynamic_cast<const hiopVectorCompoundPD&>(select);
+  const hiopVectorCompoundPD& x = dynamic_cast<const hiopVectorCompoundPD&>(vx);
   assert(this->get_num_parts() == ix.get_num_parts());  
   for(index_type i = 0; i < n_parts_; i++) {
     vectors_[i]->addLogBarrierGrad(alpha, x.getVector(i), ix.getVector(i));
-- 
2.43.0


From 0b5f3ffd281cc13a620b8b8179222af3e538be12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:53 +0000
Subject: [PATCH 30/52] fix: projection of compound vectors reports
 inconsistent bounds

---
 src/LinAlg/hiopVectorCompoundPD.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/LinAlg/hiopVectorCompoundPD.cpp b/src/LinAlg/hiopVectorCompoundPD.cpp
index 550b98d..8dc48f2 100644
--- a/src/LinAlg/hiopVectorCompoundPD.cpp
+++ b/src/LinAlg/hiopVectorCompoundPD.cpp
@@ -807,7 +807,9 @@ bool hiopVectorCompoundPD::projectIntoBounds_local(const hiopVector& xl_,
   assert(this->get_num_parts() == ixu.get_num_parts());
 
   for(index_type i = 0; i < n_parts_; i++) {
-    vectors_[i]->projectIntoBounds_local(xl.getVector(i),ixl.getVector(i),xu.getVector(i),ixu.getVector(i),kappa1,kappa2);
+    if(!vectors_[i]->projectIntoBounds_local(xl.getVector(i),ixl.getVector(i),xu.getVector(i),ixu.getVector(i),kappa1,kappa2)) {
+      return false;
+    }
   }
   return true;
 }
-- 
2.43.0


From ce465e867e6a1accd6bdefc359af507d75d759e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:09 +0000
Subject: [PATCH 31/52] fix: failed factorizations and solves of the
 quasi-Newton matrix are reported instead of aborting

---
 src/Optimization/hiopHessianLowRank.cpp | 67 ++++++++++++++++++-------
 src/Optimization/hiopHessianLowRank.hpp | 15 +++---
 src/Optimization/hiopKKTLinSys.cpp      | 19 +++++--
 3 files changed, 72 insertions(+), 29 deletions(-)

diff --git a/src/Optimization/hiopHessianLowRank.cpp b/src/Optimization/hiopHessianLowRank.cpp
index cba17d0..642cc8d 100644
--- a/src/Optimization/hiopHessianLowRank.cpp
+++ b/src/Optimization/hiopHessianLowRank.cpp
@@ -397,7 +397,7 @@ bool hiopHessianLowRank::update(const hiopIterate& it_curr, const hiopVector& gr
  * In this function V is factorized and it will hold the factors at the end of the function
  * Note that L, D, S, and Y are from the BFGS secant representation and are updated/computed in 'update'
  */
-void hiopHessianLowRank::updateInternalBFGSRepresentation()
+bool hiopHessianLowRank::updateInternalBFGSRepresentation()
 {
   size_type n=St_->n();
   size_type l=St_->m();
@@ -479,9 +479,12 @@ void hiopHessianLowRank::updateInternalBFGSRepresentation()
 #endif
 
   //finally, factorize V
-  factorizeV();
+  if(!factorizeV()) {
+    return false;
+  }
 
   matrixChanged=false;
+  return true;
 }
 
 /* Solves this*x = res as x = this^{-1}*res
@@ -492,9 +495,11 @@ void hiopHessianLowRank::updateInternalBFGSRepresentation()
  * M is is nxn, S,Y are nxl, V is upper triangular 2lx2l, and x is nx1
  * Remember we store Yt=Y^T and St=S^T
  */  
-void hiopHessianLowRank::solve(const hiopVector& rhsx, hiopVector& x)
+bool hiopHessianLowRank::solve(const hiopVector& rhsx, hiopVector& x)
 {
-  if(matrixChanged) updateInternalBFGSRepresentation();
+  if(matrixChanged && !updateInternalBFGSRepresentation()) {
+    return false;
+  }
 
   size_type n=St_->n(), l=St_->m();
 #ifdef HIOP_DEEPCHECKS
@@ -521,7 +526,9 @@ void hiopHessianLowRank::solve(const hiopVector& rhsx, hiopVector& x)
 
   //3. solve with V
   hiopVector& spart=stx; hiopVector& ypart=ytx;
-  solveWithV(spart,ypart);
+  if(!solveWithV(spart,ypart)) {
+    return false;
+  }
 
   //4. multiply with  DhInv*[B0*S Y], namely
   // result = DhInv*(B0*S*spart + Y*ypart)
@@ -537,6 +544,7 @@ void hiopHessianLowRank::solve(const hiopVector& rhsx, hiopVector& x)
   assert(x.isfinite_local() && "inf or nan entry detected in computed solution");
 #endif
   
+  return true;
 }
 
 /* W = beta*W + alpha*X*inverse(this)*X^T (a more efficient version of solve)
@@ -546,13 +554,15 @@ void hiopHessianLowRank::solve(const hiopVector& rhsx, hiopVector& x)
  * W is kxk, S,Y are nxl, DhInv,B0 are n, V is 2lx2l
  * X is kxn
  */ 
-void hiopHessianLowRank::
+bool hiopHessianLowRank::
 symMatTimesInverseTimesMatTrans(double beta,
                                 hiopMatrixDense& W, 
 				double alpha,
                                 const hiopMatrixDense& X)
 {
-  if(matrixChanged) updateInternalBFGSRepresentation();
+  if(matrixChanged && !updateInternalBFGSRepresentation()) {
+    return false;
+  }
 
   size_type n=St_->n(), l=St_->m();
   size_type k=W.m(); 
@@ -603,7 +613,9 @@ symMatTimesInverseTimesMatTrans(double beta,
   //S2Y2 is exactly [S1^T] when Fortran Lapack looks at it
   //                [Y1^T]
   hiopMatrixDense& RHS_fortran = S2Y2; 
-  solveWithV(RHS_fortran);
+  if(!solveWithV(RHS_fortran)) {
+    return false;
+  }
 
   //5. W = W-alpha*[S1 Y1]*[S2^T] 
   //                       [Y2^T]
@@ -627,16 +639,17 @@ symMatTimesInverseTimesMatTrans(double beta,
   nlp->log->write("symMatTimesInverseTimesMatTrans: final matrix is : ", W, hovMatrices);
 #endif 
 
+  return true;
 }
 
 
-void hiopHessianLowRank::factorizeV()
+bool hiopHessianLowRank::factorizeV()
 {
   int N = V_->n();
   int lda = N;
   int info;
   if(N==0) {
-    return;
+    return true;
   }
 
 #ifdef HIOP_DEEPCHECKS
@@ -651,7 +664,10 @@ void hiopHessianLowRank::factorizeV()
   int lwork=-1;//inquire sizes
   double Vwork_tmp;
   DSYTRF(&uplo, &N, V_->local_data(), &lda, _V_ipiv_vec, &Vwork_tmp, &lwork, &info);
-  assert(info==0);
+  if(info!=0) {
+    nlp->log->printf(hovError, "hiopHessianLowRank::factorizeV error: dsytrf workspace query returned %d\n", info);
+    return false;
+  }
 
   lwork=(int)Vwork_tmp;
   if(lwork != _V_work_vec->get_size()) {
@@ -667,18 +683,21 @@ void hiopHessianLowRank::factorizeV()
     nlp->log->printf(hovError, "hiopHessianLowRank::factorizeV error: %d argument to dsytrf has an illegal value\n", -info);
   else if(info>0)
     nlp->log->printf(hovError, "hiopHessianLowRank::factorizeV error: %d entry in the factorization's diagonal is exactly zero. Division by zero will occur if it a solve is attempted.\n", info);
-  assert(info==0);
+  if(info!=0) {
+    return false;
+  }
 #ifdef HIOP_DEEPCHECKS
   nlp->log->write("factorizeV:  factors of V: ", *V_, hovMatrices);
 #endif
 
+  return true;
 }
 
-void hiopHessianLowRank::solveWithV(hiopVector& rhs_s, hiopVector& rhs_y)
+bool hiopHessianLowRank::solveWithV(hiopVector& rhs_s, hiopVector& rhs_y)
 {
   int N = V_->n();
   if(N==0) {
-    return;
+    return true;
   }
 
   int l = rhs_s.get_size();
@@ -703,7 +722,12 @@ void hiopHessianLowRank::solveWithV(hiopVector& rhs_s, hiopVector& rhs_y)
   DSYTRS(&uplo, &N, &one, V_->local_data(), &lda, _V_ipiv_vec, rhs.local_data(), &N, &info);
 
   if(info<0) nlp->log->printf(hovError, "hiopHessianLowRank::solveWithV error: %d argument to dsytrf has an illegal value\n", -info);
-  assert(info==0);
+  if(info!=0) {
+#ifdef HIOP_DEEPCHECKS
+    delete rhs_saved;
+#endif
+    return false;
+  }
 
   //copy back the solution
   rhs.copyToStarting(0,rhs_s);
@@ -724,13 +748,14 @@ void hiopHessianLowRank::solveWithV(hiopVector& rhs_s, hiopVector& rhs_y)
   delete rhs_saved;
 #endif
 
+  return true;
 }
 
-void hiopHessianLowRank::solveWithV(hiopMatrixDense& rhs)
+bool hiopHessianLowRank::solveWithV(hiopMatrixDense& rhs)
 {
   int N = V_->n();
   if(0==N) {
-    return;
+    return true;
   }
 
 #ifdef HIOP_DEEPCHECKS
@@ -748,7 +773,12 @@ void hiopHessianLowRank::solveWithV(hiopMatrixDense& rhs)
   DSYTRS(&uplo, &N, &nrhs, V_->local_data(), &lda, _V_ipiv_vec, rhs.local_data(), &ldb, &info);
 
   if(info<0) nlp->log->printf(hovError, "hiopHessianLowRank::solveWithV error: %d argument to dsytrf has an illegal value\n", -info);
-  assert(info==0);
+  if(info!=0) {
+#ifdef HIOP_DEEPCHECKS
+    delete rhs_saved;
+#endif
+    return false;
+  }
 #ifdef HIOP_DEEPCHECKS
   nlp->log->write("solveWithV: SOL OUT: ", rhs, hovMatrices);
   
@@ -774,6 +804,7 @@ void hiopHessianLowRank::solveWithV(hiopMatrixDense& rhs)
   delete rhs_saved;
 #endif
 
+  return true;
 }
 
 void hiopHessianLowRank::growL(const int& lmem_curr, const int& lmem_max, const hiopVector& YTs)
diff --git a/src/Optimization/hiopHessianLowRank.hpp b/src/Optimization/hiopHessianLowRank.hpp
index 05457c1..1bd03cf 100644
--- a/src/Optimization/hiopHessianLowRank.hpp
+++ b/src/Optimization/hiopHessianLowRank.hpp
@@ -101,12 +101,13 @@ public:
   /* updates the logBar diagonal term from the representation */
   virtual bool updateLogBarrierDiagonal(const hiopVector& Dx);
 
-  /* solves this*x=res */
-  virtual void solve(const hiopVector& rhs, hiopVector& x);
+  /* solves this*x=res; returns false if the factorization or the solve with the small system fails */
+  virtual bool solve(const hiopVector& rhs, hiopVector& x);
   /* W = beta*W + alpha*X*inverse(this)*X^T (a more efficient version of solve)
    * This is performed as W = beta*W + alpha*X*(this\X^T)
+   * Returns false if the factorization or the solve with the small system fails
    */ 
-  virtual void symMatTimesInverseTimesMatTrans(double beta, hiopMatrixDense& W_, 
+  virtual bool symMatTimesInverseTimesMatTrans(double beta, hiopMatrixDense& W_, 
 					       double alpha, const hiopMatrixDense& X);
 #ifdef HIOP_DEEPCHECKS
   /* same as above but without the Dx term in H */
@@ -167,7 +168,7 @@ private:
   hiopMatrixDense *Jac_d_prev_;
 
   //internal helpers
-  void updateInternalBFGSRepresentation();
+  bool updateInternalBFGSRepresentation();
 
   //internals buffers, mostly for MPIAll_reduce
   double* _buff_kxk; // size = num_constraints^2 
@@ -224,9 +225,9 @@ private:
   /* members and utilities related to V matrix: factorization and solve */
   hiopVector *_V_work_vec;
   int _V_ipiv_size; int* _V_ipiv_vec;
-  void factorizeV();
-  void solveWithV(hiopVector& rhs_s, hiopVector& rhs_y);
-  void solveWithV(hiopMatrixDense& rhs);
+  bool factorizeV();
+  bool solveWithV(hiopVector& rhs_s, hiopVector& rhs_y);
+  bool solveWithV(hiopMatrixDense& rhs);
 private:
   hiopHessianLowRank() {};
   hiopHessianLowRank(const hiopHessianLowRank&) {};
diff --git a/src/Optimization/hiopKKTLinSys.cpp b/src/Optimization/hiopKKTLinSys.cpp
index b92189e..750a67c 100644
--- a/src/Optimization/hiopKKTLinSys.cpp
+++ b/src/Optimization/hiopKKTLinSys.cpp
@@ -1159,7 +1159,9 @@ solveCompressed(hiopVector& rx, hiopVector& ryc, hiopVector& ryd,
 
   //N =  J*(Hess\J')
   //Hess->symmetricTimesMat(0.0, *N, 1.0, J);
-  HessLowRank->symMatTimesInverseTimesMatTrans(0.0, *N, 1.0, J);
+  if(!HessLowRank->symMatTimesInverseTimesMatTrans(0.0, *N, 1.0, J)) {
+    return false;
+  }
 
   //subdiag of N += 1., Dd_inv
   N->addSubDiagonal(1., nlp_->m_eq(), *Dd_inv_);
@@ -1173,7 +1175,9 @@ solveCompressed(hiopVector& rx, hiopVector& ryc, hiopVector& ryd,
 
   //compute the rhs of the lin sys involving N
   //  1. first compute (H+Dx)^{-1} rx_tilde and store it temporarily in dx
-  HessLowRank->solve(rx, dx);
+  if(!HessLowRank->solve(rx, dx)) {
+    return false;
+  }
 #ifdef HIOP_DEEPCHECKS
   assert(rx.isfinite_local() && "Something bad happened: nan or inf value");
   assert(dx.isfinite_local() && "Something bad happened: nan or inf value");
@@ -1199,6 +1203,13 @@ solveCompressed(hiopVector& rx, hiopVector& ryc, hiopVector& ryd,
   int ierr = solveWithRefin(*N,rhs);
   //int ierr = solve(*N,rhs);
 
+  if(ierr!=0) {
+#ifdef HIOP_DEEPCHECKS
+    delete r;
+#endif
+    return false;
+  }
+
   hiopVector& dyc_dyd= rhs;
   dyc_dyd.copyToStarting(0,           dyc);
   dyc_dyd.copyToStarting(nlp_->m_eq(), dyd);
@@ -1207,7 +1218,7 @@ solveCompressed(hiopVector& rx, hiopVector& ryc, hiopVector& ryd,
   //first rx = -(Jc^T*dyc+Jd^T*dyd - rx)
   J.transTimesVec(1.0, rx, -1.0, dyc_dyd);
   //then dx = (H+Dx)^{-1} rx
-  HessLowRank->solve(rx, dx);
+  const bool bret = HessLowRank->solve(rx, dx);
 
 #ifdef HIOP_DEEPCHECKS
   //some outputing
@@ -1216,7 +1227,7 @@ solveCompressed(hiopVector& rx, hiopVector& ryc, hiopVector& ryd,
   delete r;
 #endif
 
-  return ierr==0;
+  return bret;
 }
 
 int hiopKKTLinSysLowRank::solveWithRefin(hiopMatrixDense& M, hiopVector& rhs)
-- 
2.43.0


From b8cf7f34f0a94bd1dd40daccfd37c605f96f5772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:03 +0000
Subject: [PATCH 32/52] fix: a failed iterative refinement of the low-rank KKT
 solve keeps the solution instead of aborting

---
 src/Optimization/hiopKKTLinSys.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/Optimization/hiopKKTLinSys.cpp b/src/Optimization/hiopKKTLinSys.cpp
index 750a67c..5426531 100644
--- a/src/Optimization/hiopKKTLinSys.cpp
+++ b/src/Optimization/hiopKKTLinSys.cpp
@@ -1331,7 +1331,11 @@ int hiopKKTLinSysLowRank::solveWithRefin(hiopMatrixDense& M, hiopVector& rhs)
     }
     if(!is_spd) { //iter refin based on symmetric indefinite factorization+solve
       DSYTRS(&UPLO, &N, &NRHS, M.local_data(), &LDA, ipiv.data(), resid->local_data(), &LDB, &info);
-      assert(info==0);
+      if(info!=0) {
+        nlp_->log->printf(hovWarning, "hiopKKTLinSysLowRank::solveWithRefin: dsytrs returned error %d\n", info);
+        // cannot refine
+        break;
+      }
     } else { //iter refin based on symmetric positive definite factorization+solve
       M.copyFrom(*Aref);
       //for(int i=0; i<4; i++) M.local_data()[i][i] +=1e-8;
@@ -1352,6 +1356,10 @@ int hiopKKTLinSysLowRank::solveWithRefin(hiopMatrixDense& M, hiopVector& rhs)
       if(info<0)
 	nlp_->log->printf(hovError, "hiopKKTLinSysLowRank::solveWithFactors: dpotrs returned "
 			  "error %d\n", info);
+      if(info!=0) {
+        // cannot refine
+        break;
+      }
     }
 
    // //FACT='F'; EQUED='Y'; //reuse the factorization and the equilibration
-- 
2.43.0


From af25bd1b5e0942feddb71c2d9090a5ccf648a392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:03 +0000
Subject: [PATCH 33/52] fix: the initial primal regularization of degenerate
 Hessians is not overwritten by the dual one

---
 src/Optimization/hiopPDPerturbation.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/Optimization/hiopPDPerturbation.cpp b/src/Optimization/hiopPDPerturbation.cpp
index e73125a..6eb57c4 100644
--- a/src/Optimization/hiopPDPerturbation.cpp
+++ b/src/Optimization/hiopPDPerturbation.cpp
@@ -163,7 +163,6 @@ namespace hiop
   bool hiopPDPerturbationPrimalFirstScalar::compute_initial_deltas()
   {
     double delta_temp = 0.0;
-    double delta_temp2 = 0.0;
     update_degeneracy_type();
 
     if(delta_wx_curr_db_>0.) {
@@ -198,14 +197,16 @@ namespace hiop
     if(hess_degenerate_ == dtDegenerate) {
       delta_wx_curr_db_ = 0.;
       delta_wd_curr_db_ = 0.;
-      if(!guts_of_compute_perturb_wrong_inertia(delta_temp, delta_temp2)) {
+      // this updates 'delta_wx_curr_db_' and 'delta_wd_curr_db_'
+      double delta_wx_temp{0.0};
+      double delta_wd_temp{0.0};
+      if(!guts_of_compute_perturb_wrong_inertia(delta_wx_temp, delta_wd_temp)) {
         return false;
       }
     } else {
-      delta_temp = delta_temp2 = 0.;
+      delta_wx_curr_db_ = 0.;
+      delta_wd_curr_db_ = 0.;
     }
-    delta_wx_curr_db_ = delta_temp;
-    delta_wd_curr_db_ = delta_temp2;
     
     set_delta_curr_vec(PDUpdate);
 
-- 
2.43.0


From 4c0d918279abd30334678b1063457f36cba1f3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:03 +0000
Subject: [PATCH 34/52] fix: correcting a singular KKT system after other
 corrections does not abort

---
 src/Optimization/hiopPDPerturbation.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/Optimization/hiopPDPerturbation.cpp b/src/Optimization/hiopPDPerturbation.cpp
index 6eb57c4..250af89 100644
--- a/src/Optimization/hiopPDPerturbation.cpp
+++ b/src/Optimization/hiopPDPerturbation.cpp
@@ -271,12 +271,13 @@ namespace hiop
             bret = false;
             break;
           }
-          assert(delta_cc_curr_db_ == 0. && delta_cd_curr_db_ == 0.);
-          deltas_test_type_ = dttDeltac0Deltawpos;
+          // the dual regularization is present from the beginning when the Jacobian is known to be degenerate
+          deltas_test_type_ = delta_cc_curr_db_ > 0. ? dttDeltacposDeltawpos : dttDeltac0Deltawpos;
         }
         break;
       case dttDeltacposDeltaw0:
-        assert(delta_wx_curr_db_ == 0. && delta_cc_curr_db_ > 0.);
+        // the primal regularization can be nonzero here, for example, when the inertia was corrected in between
+        assert(delta_cc_curr_db_ > 0.);
         assert(jac_degenerate_ == dtNotEstablished);
         delta_cd_curr_db_ = delta_cc_curr_db_ = 0.;
         if(!guts_of_compute_perturb_wrong_inertia(delta_wx_temp, delta_wd_temp)) {
@@ -300,7 +301,15 @@ namespace hiop
         }
         break;
       case dttNoTest:
-        assert(false && "something went wrong - should not get here");
+        // the test was given up because the primal regularization alone became too large
+        if(delta_cc_curr_db_ > 0.) {
+          if(!guts_of_compute_perturb_wrong_inertia(delta_wx_temp, delta_wd_temp)) {
+            bret = false;
+          }
+        } else {
+          delta_cd_curr_db_ = delta_cc_curr_db_ = compute_delta_c(mu_);
+        }
+        break;
       }
     } else {
       if(delta_cc_curr_db_ > 0.) { 
-- 
2.43.0


From 47b3e44aec7b7d44d0bf103b98c3ab282a68bf2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:03 +0000
Subject: [PATCH 35/52] fix: failed refactorizations of the inertia-free
 approach are not used in the search direction

---
 src/Optimization/hiopAlgFilterIPM.cpp | 12 +++++++++++-
 src/Optimization/hiopKKTLinSys.cpp    |  9 +++++++++
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/Optimization/hiopAlgFilterIPM.cpp b/src/Optimization/hiopAlgFilterIPM.cpp
index 21c1be9..4309c6c 100644
--- a/src/Optimization/hiopAlgFilterIPM.cpp
+++ b/src/Optimization/hiopAlgFilterIPM.cpp
@@ -3534,9 +3534,19 @@ bool hiopAlgFilterIPMBase::compute_search_direction_inertia_free(hiopKKTLinSys*
         nlp->log->printf(hovError,
                          "Reached max number (%lu) of refactorization within an outer iteration.\n",
                          max_refactorization);
+        if(!linsol_forcequick) {
+          // repeat the linear solve in safe mode (no effect if safe mode is already on)
+          linsol_safe_mode_on = true;
+        }
+        return false;
+      }
+      if(!kkt->factorize_inertia_free()) {
+        nlp->log->printf(hovError, "Refactorization with additional regularization failed.\n");
+        if(!linsol_forcequick) {
+          linsol_safe_mode_on = true;
+        }
         return false;
       }
-      kkt->factorize_inertia_free();
       num_refact++;
       nlp->runStats.kkt.nUpdateICCorr++;
     }
diff --git a/src/Optimization/hiopKKTLinSys.cpp b/src/Optimization/hiopKKTLinSys.cpp
index 5426531..88c9d3c 100644
--- a/src/Optimization/hiopKKTLinSys.cpp
+++ b/src/Optimization/hiopKKTLinSys.cpp
@@ -387,6 +387,9 @@ bool hiopKKTLinSysCurvCheck::factorize_inertia_free()
   delta_cd_ = perturb_calc_->get_curr_delta_cd();
 
   continue_re_fact = fact_acceptor_->requireReFactorization(*nlp_, non_singular_mat, true);
+  if(-1==continue_re_fact) {
+    return false;
+  }
 
 #ifdef HIOP_DEEPCHECKS
     assert(perturb_calc_->check_consistency() && "something went wrong with IC");
@@ -444,6 +447,12 @@ bool hiopKKTLinSysCurvCheck::factorize_inertia_free()
 
   nlp_->runStats.kkt.tmUpdateInnerFact.stop();
 
+  if(solver_flag < 0) {
+    nlp_->log->printf(hovError,
+                      "Reached max number (%d) of refactorization within an outer iteration.\n",
+                      max_refactorization);
+    return false;
+  }
   return true;
 }
 
-- 
2.43.0


From 7a057181571248b3121c839e219cec8870e50881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:34 +0000
Subject: [PATCH 36/52] fix: failed solves with the KKT factors are not hidden
 by the iterative refinement

---
 src/LinAlg/hiopKrylovSolver.cpp    | 35 ++++++++++++++++++++++--------
 src/LinAlg/hiopKrylovSolver.hpp    |  4 ++--
 src/Optimization/hiopKKTLinSys.cpp |  4 ++--
 3 files changed, 30 insertions(+), 13 deletions(-)

diff --git a/src/LinAlg/hiopKrylovSolver.cpp b/src/LinAlg/hiopKrylovSolver.cpp
index f2766e6..135fb84 100644
--- a/src/LinAlg/hiopKrylovSolver.cpp
+++ b/src/LinAlg/hiopKrylovSolver.cpp
@@ -216,16 +216,22 @@ bool hiopPCGSolver::solve(hiopVector* b)
   index_type ii = 0;
   for(; ii < maxit_; ++ii) {
     
+    bool prec_ok = true;
     if(ML_opr_) {
-      ML_opr_->times_vec(*yk_, *res_);
+      prec_ok = ML_opr_->times_vec(*yk_, *res_);
     } else {
       yk_->copyFrom(*res_);
     }
-    if(MR_opr_) {
-      MR_opr_->times_vec(*zk_, *yk_);
+    if(prec_ok && MR_opr_) {
+      prec_ok = MR_opr_->times_vec(*zk_, *yk_);
     } else {
       zk_->copyFrom(*yk_);
     }
+    if(!prec_ok) {
+      flag_ = 2;
+      iter_ = ii + 1;
+      break;
+    }
     
     rho1 = rho;
     rho = res_->dotProductWith(*zk_);
@@ -500,13 +506,19 @@ bool hiopBiCGStabSolver::solve(hiopVector* b)
       pk_->axpy(1.0, *res_);      
     }
 
+    bool prec_ok = true;
     if(ML_opr_) {
-      ML_opr_->times_vec(*ph_, *pk_);
+      prec_ok = ML_opr_->times_vec(*ph_, *pk_);
     } else {
       ph_->copyFrom(*pk_);
     }
-    if(MR_opr_) {
-      MR_opr_->times_vec(*ph_, *ph_);
+    if(prec_ok && MR_opr_) {
+      prec_ok = MR_opr_->times_vec(*ph_, *ph_);
+    }
+    if(!prec_ok) {
+      flag_ = 2;
+      iter_ = ii + 1 - 0.5;
+      break;
     }
 
     // breakdown of the preconditioner
@@ -589,12 +601,17 @@ bool hiopBiCGStabSolver::solve(hiopVector* b)
     }
 
     if(ML_opr_) {
-      ML_opr_->times_vec(*ph_, *sk_);
+      prec_ok = ML_opr_->times_vec(*ph_, *sk_);
     } else {
       ph_->copyFrom(*sk_);
     }
-    if(MR_opr_) {
-      MR_opr_->times_vec(*ph_, *ph_);
+    if(prec_ok && MR_opr_) {
+      prec_ok = MR_opr_->times_vec(*ph_, *ph_);
+    }
+    if(!prec_ok) {
+      flag_ = 2;
+      iter_ = ii + 1;
+      break;
     }
 
     // breakdown of the preconditioner
diff --git a/src/LinAlg/hiopKrylovSolver.hpp b/src/LinAlg/hiopKrylovSolver.hpp
index 1c0bd2c..27392db 100644
--- a/src/LinAlg/hiopKrylovSolver.hpp
+++ b/src/LinAlg/hiopKrylovSolver.hpp
@@ -122,8 +122,8 @@ public:
   inline virtual std::string get_convergence_info() {return ss_info_.str();}
 
   /**
-   * Convergence flag: 0 for success, the other codes depending on the Krylov method
-   * used. Concrete message about the convergence can be obtained from 
+   * Convergence flag: 0 for success, 2 for a failure of the preconditioner (its 'times_vec' returned false), the 
+   * other codes depending on the Krylov method used. Concrete message about the convergence can be obtained from 
    * get_convergence_info.
    */
   inline virtual int get_convergence_flag() {return flag_;}
diff --git a/src/Optimization/hiopKKTLinSys.cpp b/src/Optimization/hiopKKTLinSys.cpp
index 88c9d3c..3f7335e 100644
--- a/src/Optimization/hiopKKTLinSys.cpp
+++ b/src/Optimization/hiopKKTLinSys.cpp
@@ -989,8 +989,8 @@ bool hiopKKTLinSys::compute_directions_w_IR(const hiopResidual* resid, hiopItera
   if(!bret) {
     nlp_->log->printf(hovWarning, "%s", bicgIR_->get_convergence_info().c_str());
 
-    // accept the stpe since this is IR
-    bret = true;
+    // accept the stpe since this is IR, except when the solve with the factors failed
+    bret = (2 != bicgIR_->get_convergence_flag());
   } else {
     nlp_->log->printf(hovScalars, "%s", bicgIR_->get_convergence_info().c_str());
   }
-- 
2.43.0


From 24109d7621ef4cd70e1cf102fe0cd3b4cdfa7ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:34 +0000
Subject: [PATCH 37/52] fix: sparse and MDS products with beta=0 ignore the
 content of y

---
 src/LinAlg/hiopMatrixSparseTriplet.cpp | 33 +++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/src/LinAlg/hiopMatrixSparseTriplet.cpp b/src/LinAlg/hiopMatrixSparseTriplet.cpp
index 6b81c4f..9676b1d 100644
--- a/src/LinAlg/hiopMatrixSparseTriplet.cpp
+++ b/src/LinAlg/hiopMatrixSparseTriplet.cpp
@@ -76,8 +76,15 @@ void hiopMatrixSparseTriplet::timesVec(double beta,
                                        const double* x) const
 {
   // y= beta*y
-  for (int i = 0; i < nrows_; i++) {
-    y[i] *= beta;
+  if(beta == 0.) {
+    // as for BLAS, the content of y (possibly NaN or Inf) is irrelevant
+    for (int i = 0; i < nrows_; i++) {
+      y[i] = 0.;
+    }
+  } else {
+    for (int i = 0; i < nrows_; i++) {
+      y[i] *= beta;
+    }
   }
 
   // y += alpha*this*x
@@ -113,8 +120,15 @@ void hiopMatrixSparseTriplet::transTimesVec(double beta,
                                             const double* x) const
 {
   // y:= beta*y
-  for (int i = 0; i < ncols_; i++) {
-    y[i] *= beta;
+  if(beta == 0.) {
+    // as for BLAS, the content of y (possibly NaN or Inf) is irrelevant
+    for (int i = 0; i < ncols_; i++) {
+      y[i] = 0.;
+    }
+  } else {
+    for (int i = 0; i < ncols_; i++) {
+      y[i] *= beta;
+    }
   }
 
   // y += alpha*this^T*x
@@ -943,8 +957,15 @@ void hiopMatrixSymSparseTriplet::timesVec(double beta,  double* y,
 {
   assert(ncols_ == nrows_);
   // y:= beta*y
-  for (int i = 0; i < nrows_; i++) {
-    y[i] *= beta;
+  if(beta == 0.) {
+    // as for BLAS, the content of y (possibly NaN or Inf) is irrelevant
+    for (int i = 0; i < nrows_; i++) {
+      y[i] = 0.;
+    }
+  } else {
+    for (int i = 0; i < nrows_; i++) {
+      y[i] *= beta;
+    }
   }
 
   // y += alpha*this*x
-- 
2.43.0


From 40e7a2fa78a6b89f545a8b342d6084af51cac197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:21 +0000
Subject: [PATCH 38/52] fix: soft feasibility restoration keeps the slacks
 positive

---
 src/Optimization/hiopAlgFilterIPM.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Optimization/hiopAlgFilterIPM.cpp b/src/Optimization/hiopAlgFilterIPM.cpp
index 4309c6c..d57c413 100644
--- a/src/Optimization/hiopAlgFilterIPM.cpp
+++ b/src/Optimization/hiopAlgFilterIPM.cpp
@@ -3404,7 +3404,7 @@ bool hiopAlgFilterIPMBase::solve_soft_feasibility_restoration(hiopKKTLinSys* kkt
     // Compute trial point
     bret = it_trial->takeStep_primals(*it_curr, *soft_dir, alpha_primal_soft, alpha_dual_soft); 
     assert(bret);
-    it_trial->determineSlacks(); // TODO: adjust small slacks in soft FR?
+    const int num_adjusted_slacks = it_trial->compute_safe_slacks(*it_curr, _mu);
     
     //evaluate the problem at the trial iterate (functions only)
     if(!this->evalNlp_funcOnly(*it_trial, _f_nlp_trial, *_c_trial, *_d_trial)) {
@@ -3440,6 +3440,10 @@ bool hiopAlgFilterIPMBase::solve_soft_feasibility_restoration(hiopKKTLinSys* kkt
       num_soft_fr++;
     } else {
       // continue the regular iterate from the trial point  
+      if(num_adjusted_slacks > 0) {
+        nlp->log->printf(hovWarning, "%d slacks are too small. Adjust corresponding variable slacks!\n", num_adjusted_slacks);
+        nlp->adjust_bounds(*it_trial);
+      }
       bret = true;
       break;
     }
-- 
2.43.0


From f8994b7b2682fdd7fa53eea4ad7594af85342293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:21 +0000
Subject: [PATCH 39/52] fix: the Krylov solvers return the solution in the
 iterate they are called with

---
 src/LinAlg/hiopKrylovSolver.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/LinAlg/hiopKrylovSolver.cpp b/src/LinAlg/hiopKrylovSolver.cpp
index 135fb84..dc1cf9f 100644
--- a/src/LinAlg/hiopKrylovSolver.cpp
+++ b/src/LinAlg/hiopKrylovSolver.cpp
@@ -139,9 +139,9 @@ namespace hiop {
 
 bool hiopPCGSolver::solve(hiopIterate* xsol, const hiopResidual* bresid)
 {
-  if(nullptr == b_) {
-    b_ = new hiopVectorCompoundPD(xsol);
-  }
+  // b_ refers to the vectors of xsol, which may differ from the one of the previous call
+  delete b_;
+  b_ = new hiopVectorCompoundPD(xsol);
   b_->copy_from_resid(bresid);
 
   return solve(b_);
@@ -394,9 +394,9 @@ bool hiopPCGSolver::solve(hiopVector* b)
 
 bool hiopBiCGStabSolver::solve(hiopIterate* xsol, const hiopResidual* bresid)
 {
-  if(nullptr == b_) {
-    b_ = new hiopVectorCompoundPD(xsol);
-  }
+  // b_ refers to the vectors of xsol, which may differ from the one of the previous call
+  delete b_;
+  b_ = new hiopVectorCompoundPD(xsol);
   b_->copy_from_resid(bresid);
 
   return solve(b_);
-- 
2.43.0


From 85bae654bb1120e6a93cf48c04f632d2ae9a5b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:22 +0000
Subject: [PATCH 40/52] fix: adjusting small slacks with zero multipliers does
 not make the other slacks NaN

---
 src/Optimization/hiopIterate.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Optimization/hiopIterate.cpp b/src/Optimization/hiopIterate.cpp
index 2cff027..e6922e2 100644
--- a/src/Optimization/hiopIterate.cpp
+++ b/src/Optimization/hiopIterate.cpp
@@ -450,6 +450,9 @@ int hiopIterate::adjust_small_slacks(hiopVector& slack,
 
       arg2.setToConstant_w_patternSelect(mu, select);
       arg2.componentDiv_w_selectPattern(slack_dual, select);
+      // the duals can be zero (e.g., in the starting procedure); infinite entries would make NaN of the slacks that are
+      // not adjusted
+      arg2.component_min(1e20);
 
       arg3.setToConstant_w_patternSelect(small_val, select);
 
-- 
2.43.0


From ca6d2e67c51da061c302e0a95dfbb2d8434e2d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:58 +0000
Subject: [PATCH 41/52] fix: a solve restarted from a checkpoint continues
 where it was saved, and unusable checkpoints are not used

The checkpoints of the quasi-Newton algorithm hold the complete state of the algorithm, are loaded on all
ranks or on none, are used by one run only, and a failed load leaves the initial state.
---
 src/Optimization/hiopAlgFilterIPM.cpp   | 204 +++++++++++++++++++-----
 src/Optimization/hiopAlgFilterIPM.hpp   |  27 ++++
 src/Optimization/hiopFilter.hpp         |  21 +++
 src/Optimization/hiopNlpFormulation.cpp |   9 ++
 src/Optimization/hiopNlpFormulation.hpp |   3 +
 5 files changed, 221 insertions(+), 43 deletions(-)

diff --git a/src/Optimization/hiopAlgFilterIPM.cpp b/src/Optimization/hiopAlgFilterIPM.cpp
index d57c413..fd18627 100644
--- a/src/Optimization/hiopAlgFilterIPM.cpp
+++ b/src/Optimization/hiopAlgFilterIPM.cpp
@@ -988,6 +988,26 @@ hiopSolveStatus hiopAlgFilterIPMQuasiNewton::run()
   solve_started_ = true;
   resetSolverStatus();
 
+  //the state that was loaded, if any, is used by this run only
+  bool state_loaded = load_state_api_called_;
+  load_state_api_called_ = false;
+#ifdef HIOP_USE_AXOM
+  if(!state_loaded && nlp->options->GetString("checkpoint_load_on_start") == "yes") {
+    //checkpoint load from file: will populate it_curr, _Hess_lagr, and algorithmic parameters
+    state_loaded = load_state_from_file(nlp->options->GetString("checkpoint_file"));
+    load_state_api_called_ = false;
+    if(!state_loaded) {
+      nlp->log->printf(hovWarning, "Using default starting procedure (no checkpoint load!).\n");
+    }
+  }
+#else
+  if(nlp->options->GetString("checkpoint_load_on_start") == "yes") {
+    nlp->log->printf(hovWarning,
+                     "Unexpected checkpoint misconfiguration. "
+                     "Will use user-provided starting point.\n"); 
+  }
+#endif
+
   //types of linear algebra objects are known now
   hiopHessianLowRank* Hess = dynamic_cast<hiopHessianLowRank*>(_Hess_Lagr);
 
@@ -1017,7 +1037,7 @@ hiopSolveStatus hiopAlgFilterIPMQuasiNewton::run()
   // - load checkpoint API (method load_state_from_sidre_group) called before calling this method
   // - checkpoint from file (option "checkpoint_load_on_start")
   //
-  if(nlp->options->GetString("checkpoint_load_on_start") != "yes" && !load_state_api_called_) {
+  if(!state_loaded) {
     //this also evaluates the nlp
     if(!startingProcedure(*it_curr, _f_nlp, *_c, *_d, *_grad_f, *_Jac_c, *_Jac_d)) {
       nlp->runStats.tmOptimizTotal.stop();
@@ -1026,42 +1046,25 @@ hiopSolveStatus hiopAlgFilterIPMQuasiNewton::run()
     _mu=mu0;
     iter_num_total_ = 0;
   } else {
-    if(!load_state_api_called_) {
-      //
-      //checkpoint load from file
-      //
-#ifdef HIOP_USE_AXOM      
-      //load from file: will populate it_curr, _Hess_lagr, and algorithmic parameters
-      auto chkpnt_ok = load_state_from_file(nlp->options->GetString("checkpoint_file"));
-      if(!chkpnt_ok) {
-        nlp->log->printf(hovWarning, "Using default starting procedure (no checkpoint load!).\n");
-        iter_num_total_ = 0;
-        //fall back on the default starting procedure (it also evaluates the nlp)
-        if(!startingProcedure(*it_curr, _f_nlp, *_c, *_d, *_grad_f, *_Jac_c, *_Jac_d)) {
-          nlp->runStats.tmOptimizTotal.stop();
-          return solver_status_ = Error_In_User_Function;
-        }
-        _mu=mu0;
-        iter_num_total_ = 0;
-      }
-#else
-      nlp->log->printf(hovWarning,
-                       "Unexpected checkpoint misconfiguration. "
-                       "Will use user-provided starting point.\n"); 
-      if(!startingProcedure(*it_curr, _f_nlp, *_c, *_d, *_grad_f, *_Jac_c, *_Jac_d)) {
-        nlp->runStats.tmOptimizTotal.stop();
-        return solver_status_ = Error_In_User_Function;
-      }
-      _mu=mu0;
-      iter_num_total_ = 0;
-#endif
+    //the starting procedure decides upon the scaling of the problem and the adjustments of its bounds, which
+    //are the same as for the solve that saved the checkpoint; the starting point itself is not used
+    if(!startingProcedure(*it_trial, _f_nlp, *_c, *_d, *_grad_f, *_Jac_c, *_Jac_d)) {
+      nlp->runStats.tmOptimizTotal.stop();
+      return solver_status_ = Error_In_User_Function;
     }
+    //the bounds change during a solve
+    nlp->restore_bounds(loaded_bounds_[0].data(),
+                        loaded_bounds_[1].data(),
+                        loaded_bounds_[2].data(),
+                        loaded_bounds_[3].data());
     //additionally: need to evaluate the nlp
     if(!this->evalNlp_noHess(*it_curr, _f_nlp, *_c, *_d, *_grad_f, *_Jac_c, *_Jac_d)) {
       nlp->log->printf(hovError, "Failure in evaluating user NLP functions at loaded checkpoint.");
       nlp->runStats.tmOptimizTotal.stop();
       return solver_status_ = Error_In_User_Function;
     }
+    _mu = loaded_alg_params_[0];
+    iter_num_total_ = loaded_alg_params_[1];
     solver_status_ = NlpSolve_SolveNotCalled;
   }
 
@@ -1103,6 +1106,18 @@ hiopSolveStatus hiopAlgFilterIPMQuasiNewton::run()
 
   _err_nlp_optim0=-1.; _err_nlp_feas0=-1.; _err_nlp_complem0=-1;
 
+  if(state_loaded) {
+    //the parameters of the algorithm continue with the loaded values
+    _tau = loaded_alg_params_[4];
+    theta_max = loaded_alg_params_[5];
+    theta_min = loaded_alg_params_[6];
+    n_accep_iters_ = (int)loaded_alg_params_[7];
+    _err_nlp_optim0 = loaded_alg_params_[8];
+    _err_nlp_feas0 = loaded_alg_params_[9];
+    _err_nlp_complem0 = loaded_alg_params_[10];
+    filter.set_entries(loaded_filter_);
+  }
+
   // --- Algorithm status 'algStatus ----
   //-1 couldn't solve the problem (most likely because small search step. Restauration phase likely needed)
   // 0 stopped due to tolerances, including acceptable tolerance, or relative tolerance
@@ -1429,7 +1444,7 @@ hiopSolveStatus hiopAlgFilterIPMQuasiNewton::run()
 
     //post line-search stuff
     //filter is augmented whenever the switching condition or Armijo rule do not hold for the trial point that was just accepted
-    if(nlp->options->GetString("force_resto")=="yes" && !within_FR_ && iter_num_ == 1) {
+    if(nlp->options->GetString("force_resto")=="yes" && !within_FR_ && iter_num_total_ == 1) {
       use_fr = apply_feasibility_restoration(kkt);
       if(use_fr) {
         // continue iterations if FR is accepted
@@ -1619,14 +1634,22 @@ bool hiopAlgFilterIPMQuasiNewton::load_state_from_file(const ::std::string& path
 {
   try {
     sidre::DataStore ds;
-
-    sidre::IOManager reader(this->get_nlp()->get_comm());
-    auto path2 = SidreHelper::check_path(path);
-    reader.read(ds.getRoot(), path2, false);
-    nlp->log->printf(hovScalars, "Loaded checkpoint file [%s].\n", path2.c_str());
-
-    const sidre::Group* group = ds.getRoot()->getGroup("HiOp quasi-Newton alg state");
-    this->load_state_from_sidre_group(*group);
+    const sidre::Group* group = nullptr;
+    ::std::string error;
+    try {
+      sidre::IOManager reader(this->get_nlp()->get_comm());
+      auto path2 = SidreHelper::check_path(path);
+      reader.read(ds.getRoot(), path2, false);
+      nlp->log->printf(hovScalars, "Loaded checkpoint file [%s].\n", path2.c_str());
+
+      group = ds.getRoot()->getGroup("HiOp quasi-Newton alg state");
+      if(nullptr == group) {
+        error = "Could not find the group with HiOp's state in the file.\n";
+      }
+    } catch(const std::exception& exp) {
+      error = exp.what();
+    }
+    this->load_state_on_all_ranks(group, error);
     return true;
   } catch(const std::exception& exp) {
     nlp->log->printf(hovError, "Error in loading checkpoint from file '%s'\n", path.c_str());
@@ -1643,6 +1666,12 @@ void hiopAlgFilterIPMQuasiNewton::save_state_to_sidre_group(::axom::sidre::Group
   //create views for each member that needs to be saved
   SidreHelper::copy_iterate_to_views(group, "alg_iterate_", *it_curr);
   
+  //bounds of the problem, which may have been adjusted by the algorithm
+  SidreHelper::copy_vec_to_view(group, "nlp_xl", nlp->get_xl());
+  SidreHelper::copy_vec_to_view(group, "nlp_xu", nlp->get_xu());
+  SidreHelper::copy_vec_to_view(group, "nlp_dl", nlp->get_dl());
+  SidreHelper::copy_vec_to_view(group, "nlp_du", nlp->get_du());
+
   //state of quasi-Newton Hessian approximation
   hiopHessianLowRank& hqn = dynamic_cast<hiopHessianLowRank&>(*_Hess_Lagr);
   const double hqn_params[] = {(double)hqn.l_max,
@@ -1694,10 +1723,26 @@ void hiopAlgFilterIPMQuasiNewton::save_state_to_sidre_group(::axom::sidre::Group
   MPI_Comm_size(get_nlp()->get_comm(), &nranks);
 #endif
   constexpr double version =  HIOP_VERSION_MAJOR*100 + HIOP_VERSION_MINOR*10 + HIOP_VERSION_PATCH;
-  const double alg_params[] = {_mu, (double)iter_num_total_, (double)nranks, version};
+  const double alg_params[] = {_mu,
+                               (double)iter_num_total_,
+                               (double)nranks,
+                               version,
+                               _tau,
+                               theta_max,
+                               theta_min,
+                               (double)n_accep_iters_,
+                               _err_nlp_optim0,
+                               _err_nlp_feas0,
+                               _err_nlp_complem0};
   const size_type nparams = sizeof(alg_params) / sizeof(double);
   SidreHelper::copy_array_to_view(group, "alg_params", alg_params, nparams);
 
+  //filter: number of values followed by the values
+  const ::std::vector<double> filter_entries = filter.get_entries();
+  ::std::vector<double> filter_view(1, (double)filter_entries.size());
+  filter_view.insert(filter_view.end(), filter_entries.begin(), filter_entries.end());
+  SidreHelper::copy_array_to_view(group, "alg_filter", filter_view.data(), filter_view.size());
+
   nlp->log->printf(hovScalars,
                    "Saved checkpoint to sidre::Group : ver %d.%d.%d on %d MPI ranks at "
                    "mu=%12.5e from iter=%d.\n",
@@ -1712,18 +1757,78 @@ void hiopAlgFilterIPMQuasiNewton::save_state_to_sidre_group(::axom::sidre::Group
 
 void hiopAlgFilterIPMQuasiNewton::load_state_from_sidre_group(const sidre::Group& group)
 {
+  load_state_on_all_ranks(&group, "");
+}
+
+void hiopAlgFilterIPMQuasiNewton::load_state_on_all_ranks(const sidre::Group* group, ::std::string error)
+{
+  if(solve_started_) {
+    //a solve was done before: the state is to be loaded into objects that do not have its changes
+    nlp->discard_changes_of_previous_solve();
+    nlp->finalizeInitialization();
+    reInitializeNlpObjects();
+  }
+
+  if(nullptr != group) {
+    try {
+      load_local_state(*group);
+    } catch(const std::exception& exp) {
+      error = exp.what();
+    }
+  }
+  bool loaded = nullptr != group && error.empty();
+
+#ifdef HIOP_USE_MPI
+  //all ranks need to have loaded the state of the same iteration
+  double extremes[3] = {0., 0., 0.};
+  double extremes_all[3];
+  if(loaded) {
+    extremes[0] = 1.;
+    extremes[1] = loaded_alg_params_[1];
+    extremes[2] = -loaded_alg_params_[1];
+  }
+  int ierr = MPI_Allreduce(extremes, extremes_all, 3, MPI_DOUBLE, MPI_MIN, nlp->get_comm());
+  assert(MPI_SUCCESS == ierr);
+  if(error.empty()) {
+    if(extremes_all[0] != 1.) {
+      error = "The state could not be loaded on at least one of the other MPI ranks.\n";
+    } else if(extremes_all[1] != -extremes_all[2]) {
+      error = "The states of the MPI ranks were saved at different iterations.\n";
+    }
+  }
+  loaded = error.empty();
+#endif
+
+  if(!loaded) {
+    //do not leave a partially loaded state behind
+    reInitializeNlpObjects();
+    resetSolverStatus();
+    throw std::runtime_error(error);
+  }
   load_state_api_called_ = true;
+}
 
+void hiopAlgFilterIPMQuasiNewton::load_local_state(const sidre::Group& group)
+{
   //
   //algorithmic parameters
   //
   //!!!note: nparams needs to match the nparams from save_state_to_data_store
-  const int nparams = 4; 
+  const int nparams = 11;
   double alg_params[nparams];
   SidreHelper::copy_array_from_view(group, "alg_params", alg_params, nparams);
   //!!! dev note: match order in save_state_to_data_store
+  loaded_alg_params_.assign(alg_params, alg_params + nparams);
   _mu = alg_params[0];
   iter_num_total_ = alg_params[1];
+
+  const sidre::View* filter_view = group.getView("alg_filter");
+  ::std::vector<double> filter_values(nullptr == filter_view ? 1 : filter_view->getNumElements());
+  SidreHelper::copy_array_from_view(group, "alg_filter", filter_values.data(), filter_values.size());
+  if(filter_values.empty() || filter_values[0] != filter_values.size() - 1.) {
+    throw std::runtime_error("The number of values in the sidre::View 'alg_filter' is not the one saved.\n");
+  }
+  loaded_filter_.assign(filter_values.begin() + 1, filter_values.end());
   
   int nranks=1;
 #ifdef HIOP_USE_MPI  
@@ -1754,6 +1859,17 @@ void hiopAlgFilterIPMQuasiNewton::load_state_from_sidre_group(const sidre::Group
   //
   SidreHelper::copy_iterate_from_views(group, "alg_iterate_", *it_curr);
 
+  //
+  //bounds
+  //
+  const char* bounds_names[4] = {"nlp_xl", "nlp_xu", "nlp_dl", "nlp_du"};
+  const hiopVector* bounds[4] = {&nlp->get_xl(), &nlp->get_xu(), &nlp->get_dl(), &nlp->get_du()};
+  for(int i = 0; i < 4; ++i) {
+    const size_type size = bounds[i]->get_local_size();
+    loaded_bounds_[i].resize(size);
+    SidreHelper::copy_array_from_view(group, bounds_names[i], loaded_bounds_[i].data(), size);
+  }
+
   //
   //state of quasi-Newton Hessian approximation
   //
@@ -1764,8 +1880,10 @@ void hiopAlgFilterIPMQuasiNewton::load_state_from_sidre_group(const sidre::Group
   SidreHelper::copy_array_from_view(group, "Hess_quasiNewton_params", hqn_params, nhqn_params);
 
   const size_type lim_mem_length = (size_type) hqn_params[1];
-  //ensure the internals are allocated for this mem length
-  hqn.alloc_for_limited_mem(lim_mem_length);
+  //ensure the internals are allocated for this mem length (negative when no update was done before the save)
+  if(lim_mem_length >= 0) {
+    hqn.alloc_for_limited_mem(lim_mem_length);
+  }
   
   hqn.l_max = (size_type) hqn_params[0];
   hqn.l_curr = lim_mem_length;
diff --git a/src/Optimization/hiopAlgFilterIPM.hpp b/src/Optimization/hiopAlgFilterIPM.hpp
index 20c55c1..06f4d44 100644
--- a/src/Optimization/hiopAlgFilterIPM.hpp
+++ b/src/Optimization/hiopAlgFilterIPM.hpp
@@ -385,8 +385,12 @@ public:
    * @exception std::runtime indicates the group does not contain a view expected by this 
    * method or the view's number of elements mismatches the size of the corresponding HiOp
    * state. The latter can occur if the file was saved with a different number of MPI ranks.
+   * The exception is thrown on all ranks and leaves the algorithm in its initial state.
    *
    * @details 
+   * This is a collective method: it should be called by all ranks. The state is used by the 
+   * next call of `run`.
+   *
    * Copies views from the sidre::Group passed as argument to HiOp algorithm's state variables
    * and parameters. The group should be created by first calling save_state_to_sidre_group 
    * for a problem/NLP of the same sizes as the problem for which this method is called. 
@@ -429,6 +433,20 @@ private:
 #ifdef HIOP_USE_AXOM  
   ///@brief The options-based logic for saving checkpoint and the call to save_state().
   void checkpointing_stuff();
+
+  /**
+   * @brief Load state from the group on all ranks or on none.
+   *
+   * @param group the group or nullptr when it is not available on this rank
+   * @param error describes why the group is not available 
+   *
+   * @exception std::runtime on all ranks when the state could not be loaded on one of them or the ranks
+   * found states of different iterations; the algorithm is then brought back in its initial state.
+   */
+  void load_state_on_all_ranks(const ::axom::sidre::Group* group, ::std::string error);
+
+  ///@brief The part of load_state_from_sidre_group that is done by each rank on its own.
+  void load_local_state(const ::axom::sidre::Group& group);
 #endif // HIOP_USE_AXOM
 
 private:
@@ -436,6 +454,15 @@ private:
   ///@brief Indicates whether load checkpoint API was called previous to run method.
   bool load_state_api_called_;
 
+  ///@brief Algorithmic parameters of the loaded state, see save_state_to_sidre_group for their order.
+  ::std::vector<double> loaded_alg_params_;
+
+  ///@brief Filter entries of the loaded state.
+  ::std::vector<double> loaded_filter_;
+
+  ///@brief Bounds of the loaded state: xl, xu, dl, and du.
+  ::std::vector<double> loaded_bounds_[4];
+
 private:
   hiopAlgFilterIPMQuasiNewton() : hiopAlgFilterIPMBase(NULL) {};
   hiopAlgFilterIPMQuasiNewton(const hiopAlgFilterIPMQuasiNewton& ) : hiopAlgFilterIPMBase(NULL){};
diff --git a/src/Optimization/hiopFilter.hpp b/src/Optimization/hiopFilter.hpp
index 421febb..9ea8914 100644
--- a/src/Optimization/hiopFilter.hpp
+++ b/src/Optimization/hiopFilter.hpp
@@ -51,6 +51,7 @@
 
 #include <cstdio>
 #include <list>
+#include <vector>
 #include <cassert>
 
 namespace hiop
@@ -74,6 +75,26 @@ public:
   
   bool contains(const double& theta, const double& phi) const;
 
+  /// @brief Returns the entries, as consecutive pairs (theta,phi).
+  inline std::vector<double> get_entries() const
+  {
+    std::vector<double> pairs;
+    for(const FilterEntry& e : entries) {
+      pairs.push_back(e.theta);
+      pairs.push_back(e.phi);
+    }
+    return pairs;
+  }
+
+  /// @brief Replaces the entries by the ones returned by get_entries().
+  inline void set_entries(const std::vector<double>& pairs)
+  {
+    entries.clear();
+    for(size_t i = 0; i + 1 < pairs.size(); i += 2) {
+      entries.push_back(FilterEntry(pairs[i], pairs[i + 1]));
+    }
+  }
+
   void print(FILE* file, const char* msg) const;
 private:
   struct FilterEntry { 
diff --git a/src/Optimization/hiopNlpFormulation.cpp b/src/Optimization/hiopNlpFormulation.cpp
index 8b5c3d7..c5cc67f 100644
--- a/src/Optimization/hiopNlpFormulation.cpp
+++ b/src/Optimization/hiopNlpFormulation.cpp
@@ -1467,6 +1467,15 @@ void hiopNlpFormulation::reset_bounds(double bound_relax_perturb)
   }
 }
 
+void hiopNlpFormulation::restore_bounds(const double* xl, const double* xu, const double* dl, const double* du)
+{
+  modified_by_solve_ = true;
+  xl_->copyFrom(xl);
+  xu_->copyFrom(xu);
+  dl_->copyFrom(dl);
+  du_->copyFrom(du);
+}
+
 /* ***********************************************************************************
  *    hiopNlpDenseConstraints class implementation 
  * ***********************************************************************************
diff --git a/src/Optimization/hiopNlpFormulation.hpp b/src/Optimization/hiopNlpFormulation.hpp
index 3dde5f6..6c252a1 100644
--- a/src/Optimization/hiopNlpFormulation.hpp
+++ b/src/Optimization/hiopNlpFormulation.hpp
@@ -284,6 +284,9 @@ public:
   /// @brief reset variable/constraint bounds in the elastic_mode
   void reset_bounds(double bound_relax_perturb);
 
+  /// @brief Set the (local) bounds to the ones of a saved state of a solve of this problem
+  void restore_bounds(const double* xl, const double* xu, const double* dl, const double* du);
+
   /* outputing and debug-related functionality*/
   hiopLogger* log;
   hiopRunStats runStats;
-- 
2.43.0


From e739637714e3d3bd4b14a390c20c9278913c6338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:59 +0000
Subject: [PATCH 42/52] fix: sparse XYcYd KKT system uses the current diagonal
 and supports the default linear solver mode

Dd_inv accumulated the contents of the previous factorization, contained the dual regularization when recovering
the direction of the slacks, and with linsol_mode=stable (the default) the solve aborted.
---
 src/Optimization/hiopKKTLinSysSparse.cpp | 32 ++++++++++++++++++++----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/src/Optimization/hiopKKTLinSysSparse.cpp b/src/Optimization/hiopKKTLinSysSparse.cpp
index c41a857..6e9c93a 100644
--- a/src/Optimization/hiopKKTLinSysSparse.cpp
+++ b/src/Optimization/hiopKKTLinSysSparse.cpp
@@ -163,7 +163,7 @@ namespace hiop
        */
 
       // Dd = (Sdl)^{-1}Vu + (Sdu)^{-1}Vu + delta_wd * I
-      Dd_inv_->axpy(1., *delta_wd_);
+      Dd_inv_->copyFrom(*delta_wd_);
       Dd_inv_->axdzpy_w_pattern(1.0, *iter_->vl, *iter_->sdl, nlp_->get_idl());
       Dd_inv_->axdzpy_w_pattern(1.0, *iter_->vu, *iter_->sdu, nlp_->get_idu());
 
@@ -171,9 +171,11 @@ namespace hiop
       assert(true==Dd_inv_->allPositive());
 #endif
       Dd_inv_->invert();
-      Dd_inv_->axpy(1., *delta_cd_);
 
-      Msys->copySubDiagonalFrom(nx+neq, nineq, *Dd_inv_, dest_nnz_st, -1); dest_nnz_st += nineq;
+      //Dd_inv_ is also used in forming the right-hand side and recovering dd and should not contain delta_cd
+      ryd_tilde_->copyFrom(*Dd_inv_);
+      ryd_tilde_->axpy(1., *delta_cd_);
+      Msys->copySubDiagonalFrom(nx+neq, nineq, *ryd_tilde_, dest_nnz_st, -1); dest_nnz_st += nineq;
 
 
       nlp_->log->write("KKT_SPARSE_XYcYd linsys:", *Msys, hovMatrices);
@@ -271,9 +273,29 @@ namespace hiop
     if(nullptr==linSys_) {
       int n = nx + neq + nineq;
 
-      assert(false == safe_mode_ && "KKT_SPARSE_XYcYd linsys does not support safe mode.");
-
       auto compute_mode = nlp_->options->GetString("compute_mode");
+
+      if(safe_mode_) {
+        assert( (compute_mode == "hybrid" || compute_mode == "cpu" || compute_mode == "auto") &&
+                "KKT_SPARSE_XYcYd linsys: safe mode not currently supported with gpu compute mode.");
+
+        //for now we can only rely on MA57 as the safe mode linear solver 
+#if defined(HIOP_USE_COINHSL)
+        linSys_ = new hiopLinSolverSymSparseMA57(n, nnz, nlp_);
+        nlp_->log->printf(hovWarning,
+                          "KKT_SPARSE_XYcYd linsys: alloc MA57 on CPU size %d (%d cons) (safe_mode=%d)\n",
+                          n,
+                          neq+nineq,
+                          safe_mode_);                             
+        return dynamic_cast<hiopLinSolverSymSparse*> (linSys_);
+#else // end of if defined(HIOP_USE_COINHSL)
+        assert(false &&
+               "HiOp was not built with the safe(r) sparse linear solver MA57 and cannot switch to "
+               "safe mode as requested. ");
+        return nullptr;
+#endif
+      } // end of if(safe_mode_)
+
       auto linear_solver = nlp_->options->GetString("linear_solver_sparse");
       std::string linsol_actual = "[?]";
       if(compute_mode == "cpu") {
-- 
2.43.0


From dfafe5b54f5b5a9ebd0e067a0511cb00d1ea34c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:59 +0000
Subject: [PATCH 43/52] fix: failing evaluations of the sparsity patterns of
 sparse problems are reported

---
 src/Optimization/hiopNlpFormulation.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/Optimization/hiopNlpFormulation.cpp b/src/Optimization/hiopNlpFormulation.cpp
index c5cc67f..74781f0 100644
--- a/src/Optimization/hiopNlpFormulation.cpp
+++ b/src/Optimization/hiopNlpFormulation.cpp
@@ -2053,6 +2053,10 @@ bool hiopNlpSparse::eval_Jac_c_d_interface_impl(hiopVector& x,
                                      cons_Jac->i_row(), 
                                      cons_Jac->j_col(), 
                                      nullptr);
+      if(!bret) {
+        runStats.tmEvalJac_con.stop();
+        return false;
+      }
       num_jac_eval_++;
     }
     
@@ -2140,6 +2144,10 @@ bool hiopNlpSparse::eval_Hess_Lagr(const hiopVector& x,
                                       pHessL->i_row(),
                                       pHessL->j_col(),
                                       nullptr);
+      if(!bret) {
+        runStats.tmEvalHessL.stop();
+        return false;
+      }
       num_hess_eval_++;
     }
 
-- 
2.43.0


From f186851c508cc66bc98914b6a91202f8d4db8086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:59 +0000
Subject: [PATCH 44/52] fix: CSR matrices without nonzeros are formed

---
 src/LinAlg/hiopMatrixSparseCSRSeq.cpp | 37 +++++++++++++++++----------
 1 file changed, 24 insertions(+), 13 deletions(-)

diff --git a/src/LinAlg/hiopMatrixSparseCSRSeq.cpp b/src/LinAlg/hiopMatrixSparseCSRSeq.cpp
index e9d4373..314800b 100644
--- a/src/LinAlg/hiopMatrixSparseCSRSeq.cpp
+++ b/src/LinAlg/hiopMatrixSparseCSRSeq.cpp
@@ -823,10 +823,11 @@ void hiopMatrixSparseCSRSeq::form_from_symbolic(const hiopMatrixSparseTriplet& M
   }
 
   assert(nnz_>=0);
-  if(nnz_<=0) {
-    return;
+  if(nullptr == irowptr_) {
+    //matrices without rows or columns are not allocated by the constructor
+    alloc();
   }
-  
+
   assert(irowptr_);
   assert(jcolind_);
   assert(values_);
@@ -887,10 +888,11 @@ void hiopMatrixSparseCSRSeq::form_transpose_from_symbolic(const hiopMatrixSparse
   }
 
   assert(nnz_>=0);
-  if(nnz_<=0) {
-    return;
+  if(nullptr == irowptr_) {
+    //matrices without rows or columns are not allocated by the constructor
+    alloc();
   }
-  
+
   assert(irowptr_);
   assert(jcolind_);
   assert(values_);
@@ -950,7 +952,9 @@ void hiopMatrixSparseCSRSeq::form_transpose_from_symbolic(const hiopMatrixSparse
   for(int i=nrows_-1; i>=1; --i) {
     row_starts_[i] = row_starts_[i-1];
   }
-  row_starts_[0]=0;
+  if(nrows_>0) {
+    row_starts_[0]=0;
+  }
 #ifndef NDEBUG
   for(int i=0; i<nrows_; i++) {
     for(int itnz=irowptr_[i]+1; itnz<irowptr_[i+1]; ++itnz) {
@@ -1001,7 +1005,9 @@ void hiopMatrixSparseCSRSeq::form_transpose_from_numeric(const hiopMatrixSparseT
   for(int i=nrows_-1; i>=1; --i) {
     row_starts_[i] = row_starts_[i-1];
   }
-  row_starts_[0]=0;
+  if(nrows_>0) {
+    row_starts_[0]=0;
+  }
 }
 
 void hiopMatrixSparseCSRSeq::form_transpose_from_symbolic(const hiopMatrixSparseCSR& M_in)
@@ -1018,10 +1024,11 @@ void hiopMatrixSparseCSRSeq::form_transpose_from_symbolic(const hiopMatrixSparse
   }
 
   assert(nnz_>=0);
-  if(nnz_<=0) {
-    return;
+  if(nullptr == irowptr_) {
+    //matrices without rows or columns are not allocated by the constructor
+    alloc();
   }
-  
+
   assert(irowptr_);
   assert(jcolind_);
   assert(values_);
@@ -1083,7 +1090,9 @@ void hiopMatrixSparseCSRSeq::form_transpose_from_symbolic(const hiopMatrixSparse
   for(int i=nrows_-1; i>=1; --i) {
     row_starts_[i] = row_starts_[i-1];
   }
-  row_starts_[0]=0;
+  if(nrows_>0) {
+    row_starts_[0]=0;
+  }
 #ifndef NDEBUG
   for(int i=0; i<nrows_; i++) {
     for(int itnz=irowptr_[i]+1; itnz<irowptr_[i+1]; ++itnz) {
@@ -1138,7 +1147,9 @@ void hiopMatrixSparseCSRSeq::form_transpose_from_numeric(const hiopMatrixSparseC
   for(int i=nrows_-1; i>=1; --i) {
     row_starts_[i] = row_starts_[i-1];
   }
-  row_starts_[0]=0;
+  if(nrows_>0) {
+    row_starts_[0]=0;
+  }
 }
 
 
-- 
2.43.0


From 62ef587aa8623b13d42b731db7ef29cac40fa92c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:53 +0000
Subject: [PATCH 45/52] fix: the C interface passes on whether the evaluation
 point is new

---
 src/Interface/chiopInterface.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/Interface/chiopInterface.hpp b/src/Interface/chiopInterface.hpp
index d75dd56..5637dd3 100644
--- a/src/Interface/chiopInterface.hpp
+++ b/src/Interface/chiopInterface.hpp
@@ -144,13 +144,13 @@ public:
     };
     bool eval_f(const size_type& n, const double* x, bool new_x, double& obj_value)
     {
-      cprob->eval_f(n, (double *) x, 0, &obj_value, cprob->user_data);
+      cprob->eval_f(n, (double *) x, new_x, &obj_value, cprob->user_data);
       return true;
     };
 
     bool eval_grad_f(const size_type& n, const double* x, bool new_x, double* gradf)
     {
-      cprob->eval_grad_f(n, (double *) x, 0, gradf, cprob->user_data);
+      cprob->eval_grad_f(n, (double *) x, new_x, gradf, cprob->user_data);
 
       return true;
     };
@@ -331,13 +331,13 @@ class cppUserProblemSparse : public hiopInterfaceSparse
 
     bool eval_f(const size_type& n, const double* x, bool new_x, double& obj_value)
     {
-      cprob_->eval_f_(n, (double *) x, 0, &obj_value, cprob_->user_data_);
+      cprob_->eval_f_(n, (double *) x, new_x, &obj_value, cprob_->user_data_);
       return true;
     };
 
     bool eval_grad_f(const size_type& n, const double* x, bool new_x, double* gradf)
     {
-      cprob_->eval_grad_f_(n, (double *) x, 0, gradf, cprob_->user_data_);
+      cprob_->eval_grad_f_(n, (double *) x, new_x, gradf, cprob_->user_data_);
 
       return true;
     };
@@ -516,13 +516,13 @@ public:
 
     bool eval_f(const size_type& n, const double* x, bool new_x, double& obj_value)
     {
-      cprob->eval_f(n, (double *) x, 0, &obj_value, cprob->user_data);
+      cprob->eval_f(n, (double *) x, new_x, &obj_value, cprob->user_data);
       return true;
     };
 
     bool eval_grad_f(const size_type& n, const double* x, bool new_x, double* gradf)
     {
-      cprob->eval_grad_f(n, (double *) x, 0, gradf, cprob->user_data);
+      cprob->eval_grad_f(n, (double *) x, new_x, gradf, cprob->user_data);
 
       return true;
     };
-- 
2.43.0


From 858cbdbc81a3407a71bd72be88f8c524b7a2eab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:44 +0000
Subject: [PATCH 46/52] fix: the condensed KKT system is expected to be
 positive definite also without RAJA

---
 src/Optimization/hiopAlgFilterIPM.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/Optimization/hiopAlgFilterIPM.cpp b/src/Optimization/hiopAlgFilterIPM.cpp
index fd18627..00a0d89 100644
--- a/src/Optimization/hiopAlgFilterIPM.cpp
+++ b/src/Optimization/hiopAlgFilterIPM.cpp
@@ -2248,14 +2248,12 @@ decideAndCreateFactAcceptor(hiopPDPerturbation* p, hiopNlpFormulation* nlp, hiop
     return new hiopFactAcceptorInertiaFreeDWD(p, nlp->m_eq()+nlp->m_ineq());
   } else {
 #ifdef HIOP_SPARSE    
-#ifdef HIOP_USE_RAJA
     if(nullptr != dynamic_cast<hiopKKTLinSysCondensedSparse*>(kkt)) {
       // for LinSysCondensedSparse correct inertia is different
       assert(nullptr != dynamic_cast<hiopNlpSparseIneq*>(nlp) &&
              "wrong combination of optimization objects was created");
       return new hiopFactAcceptorIC(p, 0);      
     }
-#endif
 #endif    
     return new hiopFactAcceptorIC(p, nlp->m_eq()+nlp->m_ineq());
 
-- 
2.43.0


From d41ec3182d63601256ab9ca064357a4de48b8ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:30 +0000
Subject: [PATCH 47/52] fix: the sparsity patterns of sparse problems are
 evaluated for newly allocated matrices

A further solve with the same sparse formulation used matrices with uninitialized patterns.
---
 src/Optimization/hiopNlpFormulation.cpp |  4 ++--
 src/Optimization/hiopNlpFormulation.hpp | 10 ++++++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/Optimization/hiopNlpFormulation.cpp b/src/Optimization/hiopNlpFormulation.cpp
index 74781f0..c6b2ae9 100644
--- a/src/Optimization/hiopNlpFormulation.cpp
+++ b/src/Optimization/hiopNlpFormulation.cpp
@@ -2131,7 +2131,7 @@ bool hiopNlpSparse::eval_Hess_Lagr(const hiopVector& x,
 
     int nnzHSS = pHessL->numberOfNonzeros();
 
-    if(0==num_hess_eval_)
+    if(hess_with_pattern_ != &Hess_L)
     {
       bret = interface.eval_Hess_Lagr(n_vars_,
                                       n_cons_,
@@ -2148,7 +2148,7 @@ bool hiopNlpSparse::eval_Hess_Lagr(const hiopVector& x,
         runStats.tmEvalHessL.stop();
         return false;
       }
-      num_hess_eval_++;
+      hess_with_pattern_ = &Hess_L;
     }
 
     bret = interface.eval_Hess_Lagr(n_vars_,
diff --git a/src/Optimization/hiopNlpFormulation.hpp b/src/Optimization/hiopNlpFormulation.hpp
index 6c252a1..e20b91a 100644
--- a/src/Optimization/hiopNlpFormulation.hpp
+++ b/src/Optimization/hiopNlpFormulation.hpp
@@ -594,7 +594,7 @@ class hiopNlpSparse : public hiopNlpFormulation
 public:
   hiopNlpSparse(hiopInterfaceSparse& interface_, const char* option_file = nullptr)
     : hiopNlpFormulation(interface_, option_file), interface(interface_),
-      num_jac_eval_{0}, num_hess_eval_{0}
+      num_jac_eval_{0}, hess_with_pattern_{nullptr}
   {
     buf_lambda_ = LinearAlgebraFactory::create_vector(options->GetString("mem_space"), 0);
   }
@@ -635,11 +635,15 @@ public:
   }
   virtual hiopMatrix* alloc_Jac_cons()
   {
+    // the pattern of the new matrix needs to be evaluated
+    num_jac_eval_ = 0;
     return LinearAlgebraFactory::create_matrix_sparse(options->GetString("mem_space"),n_cons_, n_vars_, nnz_sparse_Jaceq_ + nnz_sparse_Jacineq_);
     //return new hiopMatrixSparseTriplet(n_cons_, n_vars_, nnz_sparse_Jaceq_ + nnz_sparse_Jacineq_);
   }
   virtual hiopMatrix* alloc_Hess_Lagr()
   {
+    // the pattern of the new matrix needs to be evaluated
+    hess_with_pattern_ = nullptr;
     return LinearAlgebraFactory::create_matrix_sym_sparse(options->GetString("mem_space"),n_vars_, nnz_sparse_Hess_Lagr_);
     //return new hiopMatrixSymSparseTriplet(n_vars_, nnz_sparse_Hess_Lagr_);
   }
@@ -671,8 +675,10 @@ protected:
   int nnz_sparse_Jaceq_;
   int nnz_sparse_Jacineq_;
   int nnz_sparse_Hess_Lagr_;
+  /// Number of evaluations of the sparsity pattern of 'cons_Jac_'
   int num_jac_eval_;
-  int num_hess_eval_;
+  /// Hessian for which the sparsity pattern was evaluated last
+  const hiopMatrix* hess_with_pattern_;
 
   hiopVector* buf_lambda_;
 };
-- 
2.43.0


From 2f4efd358d9e7b4acab8b331f918fb68ce90937f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:43 +0000
Subject: [PATCH 48/52] fix: the Fortran binding releases the copy of the
 starting point

---
 src/Interface/hiopFortranInterface.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Interface/hiopFortranInterface.c b/src/Interface/hiopFortranInterface.c
index c1953e2..68348d8 100644
--- a/src/Interface/hiopFortranInterface.c
+++ b/src/Interface/hiopFortranInterface.c
@@ -340,6 +340,7 @@ void FC_GLOBAL(deletehiopsparseprob, DELETEHIOPSPARSEPROB) (void** f_prob_in)
   free(f_prob->xupp_);
   free(f_prob->clow_);
   free(f_prob->cupp_);
+  free(f_prob->x0_);
   free(f_prob->c_prob_->solution_);
   free(f_prob->c_prob_);
   free(f_prob);
@@ -526,6 +527,7 @@ void FC_GLOBAL(deletehiopdenseprob, DELETEHIOPDENSEPROB) (void** f_prob_in)
   free(f_prob->xupp);
   free(f_prob->clow);
   free(f_prob->cupp);
+  free(f_prob->x0);
   free(f_prob->c_prob->solution);
   free(f_prob->c_prob);
   free(f_prob);
-- 
2.43.0


From b4cff6735e2f3230423ef9529cfb501dd6696839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:43 +0000
Subject: [PATCH 49/52] fix: switching to the fast KKT system releases the one
 in use

---
 src/Optimization/hiopAlgFilterIPM.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Optimization/hiopAlgFilterIPM.cpp b/src/Optimization/hiopAlgFilterIPM.cpp
index 00a0d89..26b4889 100644
--- a/src/Optimization/hiopAlgFilterIPM.cpp
+++ b/src/Optimization/hiopAlgFilterIPM.cpp
@@ -2174,7 +2174,7 @@ hiopAlgFilterIPMNewton::switch_to_fast_KKT(hiopKKTLinSys* kkt_curr,
     {
       linsol_safe_mode_on = false;
 
-      delete kkt;
+      delete kkt_curr;
       kkt = new hiopKKTLinSysCondensedSparse(nlp);
       switched = true;
 
-- 
2.43.0


From b67e983f3438e4418678dac9694426da65cd8da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:09 +0000
Subject: [PATCH 50/52] fix: a problem is not called infeasible at a point that
 satisfies its constraints

---
 src/Optimization/hiopAlgFilterIPM.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/Optimization/hiopAlgFilterIPM.cpp b/src/Optimization/hiopAlgFilterIPM.cpp
index 26b4889..dbb1a08 100644
--- a/src/Optimization/hiopAlgFilterIPM.cpp
+++ b/src/Optimization/hiopAlgFilterIPM.cpp
@@ -912,6 +912,14 @@ void hiopAlgFilterIPMBase::displayTerminationMsg()
                        strStatsReport.c_str());
       break;
     }
+  case Feasible_Not_Optimal:
+    {
+      nlp->log->printf(hovSummary,
+                       "The point found is feasible but not optimal. Probable cause: inaccurate gradients/Jacobians "
+                       "or tolerances that are too tight.\n%s\n",
+                       strStatsReport.c_str());
+      break;
+    }
   case Err_Step_Computation:
   {
       nlp->log->printf(hovSummary,
@@ -3371,7 +3379,9 @@ bool hiopAlgFilterIPMBase::solve_feasibility_restoration(hiopKKTLinSys* kkt, hio
     // FR succeeds
     return true;
   } else if(FR_status == Solve_Success || FR_status == Solve_Acceptable_Level) {
-    solver_status_ = Infeasible_Problem;
+    // the infeasibility cannot be reduced further, which only means that the problem is (locally) infeasible
+    // when the constraints are violated at the current point
+    solver_status_ = _err_cons_violation <= eps_tol ? Feasible_Not_Optimal : Infeasible_Problem;
     return false;
   } else if(FR_status == Error_In_User_Function) {
     solver_status_ = Error_In_User_Function;
-- 
2.43.0


From f1ce23febbbdf6528c1130470416e6e63d43e6fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:17 +0000
Subject: [PATCH 51/52] fix: a warm start that the user does not provide leaves
 a normal start

---
 src/Optimization/hiopAlgFilterIPM.cpp   | 7 +++++--
 src/Optimization/hiopNlpFormulation.cpp | 6 +-----
 2 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/Optimization/hiopAlgFilterIPM.cpp b/src/Optimization/hiopAlgFilterIPM.cpp
index dbb1a08..1e133d3 100644
--- a/src/Optimization/hiopAlgFilterIPM.cpp
+++ b/src/Optimization/hiopAlgFilterIPM.cpp
@@ -316,8 +316,11 @@ int hiopAlgFilterIPMBase::startingProcedure(hiopIterate& it_ini,
                                         *it_ini.get_d(),
                                         *it_ini.get_vl(),
                                         *it_ini.get_vu());
-    warmstart_avail = duals_avail = slacks_avail = true;
-  } else {
+    // a warm start needs all the variables; without them the solve starts as usual
+    warmstart_avail = duals_avail = slacks_avail = ret_bool;
+  }
+
+  if(!warmstart_avail) {
     ret_bool = nlp->get_starting_point(*it_ini.get_x(),
                                        duals_avail,
                                        *it_ini.get_zl(),
diff --git a/src/Optimization/hiopNlpFormulation.cpp b/src/Optimization/hiopNlpFormulation.cpp
index c6b2ae9..702d118 100644
--- a/src/Optimization/hiopNlpFormulation.cpp
+++ b/src/Optimization/hiopNlpFormulation.cpp
@@ -875,7 +875,7 @@ bool hiopNlpFormulation::get_warmstart_point(hiopVector& x0_for_hiop,
                                             d_for_user,
                                             vl_for_user,
                                             vu_for_user);
-  {
+  if(bret) {
     assert(n_cons_eq_   == yc0_for_hiop.get_size() && "when did the cons change?");
     assert(n_cons_ineq_ == yd0_for_hiop.get_size() && "when did the cons change?");
     assert(n_cons_eq_+n_cons_ineq_ == n_cons_);
@@ -886,10 +886,6 @@ bool hiopNlpFormulation::get_warmstart_point(hiopVector& x0_for_hiop,
     lambdas->copy_to_two_vec_w_pattern(yc0_for_hiop, *cons_eq_mapping_, yd0_for_hiop, *cons_ineq_mapping_);
   }
   
-  if(!bret) {
-    bret = interface_base.get_starting_point(nlp_transformations_.n_pre(), x0_for_user->local_data());
-  }
-  
   if(bret) {
     nlp_transformations_.apply_to_x(*x0_for_user, x0_for_hiop);
   }
-- 
2.43.0


From d8e2667e09a5309baed20610aad95256258555bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:17 +0000
Subject: [PATCH 52/52] fix: timesMatTrans of mixed dense-sparse matrices
 honours alpha

---
 src/LinAlg/hiopMatrixMDS.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/LinAlg/hiopMatrixMDS.hpp b/src/LinAlg/hiopMatrixMDS.hpp
index 9998bc8..f8c42b4 100644
--- a/src/LinAlg/hiopMatrixMDS.hpp
+++ b/src/LinAlg/hiopMatrixMDS.hpp
@@ -95,8 +95,8 @@ public:
   {
     const hiopMatrixMDS &X_mds = dynamic_cast<const hiopMatrixMDS&>(X);
     
-    mDe->timesMatTrans(beta, W, 1.0, *X_mds.de_mat());
-    mSp->timesMatTrans(1.0, W, 1.0, *X_mds.sp_mat());
+    mDe->timesMatTrans(beta, W, alpha, *X_mds.de_mat());
+    mSp->timesMatTrans(1.0, W, alpha, *X_mds.sp_mat());
   }
 
 
-- 
2.43.0

