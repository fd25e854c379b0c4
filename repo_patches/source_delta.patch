From 00ec02f4e5d2e4afbefb483cb39f0a6da9b570e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:30 +0000
Subject: [PATCH 001/104] fix: kriging variance with linear/quadratic trend
 solved a lower-triangular system as upper

---
 smt/surrogate_models/krg_based.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/smt/surrogate_models/krg_based.py b/smt/surrogate_models/krg_based.py
index 38f750a..e35f708 100644
--- a/smt/surrogate_models/krg_based.py
+++ b/smt/surrogate_models/krg_based.py
@@ -751,6 +751,7 @@ class KrgBased(SurrogateModel):
             self.optimal_par["G"].T,
             np.dot(self.optimal_par["Ft"].T, rt)
             - self._regression_types[self.options["poly"]](x).T,
+            lower=True,
         )
 
         A = self.optimal_par["sigma2"]
-- 
2.43.0


From 1dfea06ab6ea3b2363f1d27b2dbe345dbc1b9fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:02 +0000
Subject: [PATCH 002/104] fix: QP derivatives mixed query points and outputs
 when there are several outputs

---
 smt/surrogate_models/qp.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/smt/surrogate_models/qp.py b/smt/surrogate_models/qp.py
index d8492e4..027ae66 100644
--- a/smt/surrogate_models/qp.py
+++ b/smt/surrogate_models/qp.py
@@ -116,19 +116,18 @@ class QP(SurrogateModel):
         dim = self.nx
 
         linear_coef = self.coef[1 + kx, :]
-        quad_coef = 2 * self.coef[1 + dim + kx, :] * x[:, kx]
-        neval = np.size(quad_coef, 0)
-        cross_coef = np.zeros(neval)
+        quad_coef = 2 * np.outer(x[:, kx], self.coef[1 + dim + kx, :])
+        cross_coef = np.zeros(quad_coef.shape)
 
         for i in range(dim):
             if i > kx:
                 k = int(
                     2 * dim + 2 + (kx) * dim - ((kx + 1) * (kx)) / 2 + (i - (kx + 2))
                 )
-                cross_coef += self.coef[k, :] * x[:, i]
+                cross_coef += np.outer(x[:, i], self.coef[k, :])
             elif i < kx:
                 k = int(2 * dim + 2 + (i) * dim - ((i + 1) * (i)) / 2 + (kx - (i + 2)))
-                cross_coef += self.coef[k, :] * x[:, i]
+                cross_coef += np.outer(x[:, i], self.coef[k, :])
 
         y = (linear_coef + quad_coef + cross_coef).reshape((x.shape[0], self.ny))
         return y
-- 
2.43.0


From d5780a16cb029752bbd088ada9bfa4645f307853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:27 +0000
Subject: [PATCH 003/104] fix: GENN Jacobian lost its example axis for a single
 example

With one query point, or one sample in a mini-batch, the Jacobian came
back with two axes: prediction of derivatives and training both failed.
---
 smt/utils/neural_net/fwd_prop.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/smt/utils/neural_net/fwd_prop.py b/smt/utils/neural_net/fwd_prop.py
index 28cc49e..109da8e 100644
--- a/smt/utils/neural_net/fwd_prop.py
+++ b/smt/utils/neural_net/fwd_prop.py
@@ -198,7 +198,4 @@ def L_grads_forward(X, parameters, activations):
         # Store partial
         JL[:, j, :] = A_prime_j
 
-    if m == 1:
-        JL = JL[:, :, 0]
-
     return JL, J_caches
-- 
2.43.0


From fac98c0abbbbcc2974a5a48129c8bf331a282efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:27 +0000
Subject: [PATCH 004/104] fix: GENN Jacobian scaled outputs along the input
 axis

---
 smt/utils/neural_net/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smt/utils/neural_net/model.py b/smt/utils/neural_net/model.py
index 3afba81..164d4e3 100644
--- a/smt/utils/neural_net/model.py
+++ b/smt/utils/neural_net/model.py
@@ -434,7 +434,7 @@ class Model(object):
         Y_norm, _ = L_model_forward(X_norm, self.parameters, self.activations)
         J_norm, _ = L_grads_forward(X_norm, self.parameters, self.activations)
 
-        J = (J_norm * sigma_y / sigma_x).reshape(
+        J = (J_norm * sigma_y.reshape(-1, 1, 1) / sigma_x.reshape(1, -1, 1)).reshape(
             self.number_of_outputs, self.number_of_inputs, number_of_examples
         )
 
-- 
2.43.0


From 37d44049f2d3ed34cf01fa73a7804113868aad31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:46 +0000
Subject: [PATCH 005/104] fix: MFK derivatives with a linear trend summed the
 trend over all inputs

---
 smt/applications/mfk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smt/applications/mfk.py b/smt/applications/mfk.py
index 3cb50d9..4168aa1 100644
--- a/smt/applications/mfk.py
+++ b/smt/applications/mfk.py
@@ -590,7 +590,7 @@ class MFK(KrgBased):
             df = np.zeros([n_eval, 1])
         elif self.options["poly"] == "linear":
             df = np.zeros((n_eval, self.nx + 1))
-            df[:, 1:] = 1
+            df[:, kx + 1] = 1
         else:
             raise ValueError(
                 "The derivative is only available for ordinary kriging or "
-- 
2.43.0


From 8b3f67eb5814eacefe871403cb2000f528bef753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:57 +0000
Subject: [PATCH 006/104] fix: likelihood gradient failed for estimated noise,
 so TNC kept its start

---
 smt/surrogate_models/krg_based.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/smt/surrogate_models/krg_based.py b/smt/surrogate_models/krg_based.py
index e35f708..f782ca7 100644
--- a/smt/surrogate_models/krg_based.py
+++ b/smt/surrogate_models/krg_based.py
@@ -380,6 +380,11 @@ class KrgBased(SurrogateModel):
         nb_theta = len(theta)
         grad_red = np.zeros(nb_theta)
 
+        # With noise evaluation, the last hyperparameters are noise variances
+        corr_theta = theta
+        if self.options["eval_noise"] and not self.options["use_het_noise"]:
+            corr_theta = theta[0 : self.D.shape[1]]
+
         dr_all = []
         tr_all = []
         dmu_all = []
@@ -389,16 +394,19 @@ class KrgBased(SurrogateModel):
 
         for i_der in range(nb_theta):
             # Compute R derivatives
-            dr = self._correlation_types[self.options["corr"]](
-                theta, self.D, grad_ind=i_der
-            )
+            if i_der < len(corr_theta):
+                dr = self._correlation_types[self.options["corr"]](
+                    corr_theta, self.D, grad_ind=i_der
+                )
+                dR = np.zeros((self.nt, self.nt))
+                dR[self.ij[:, 0], self.ij[:, 1]] = dr[:, 0]
+                dR[self.ij[:, 1], self.ij[:, 0]] = dr[:, 0]
+            else:
+                dr = np.zeros((self.D.shape[0], 1))
+                dR = np.eye(self.nt)
 
             dr_all.append(dr)
 
-            dR = np.zeros((self.nt, self.nt))
-            dR[self.ij[:, 0], self.ij[:, 1]] = dr[:, 0]
-            dR[self.ij[:, 1], self.ij[:, 0]] = dr[:, 0]
-
             # Compute beta derivatives
             Cinv_dR_gamma = linalg.solve_triangular(C, np.dot(dR, gamma), lower=True)
             dbeta = -linalg.solve_triangular(G, np.dot(Q.T, Cinv_dR_gamma))
-- 
2.43.0


From 6c161354bf4ac20096c413729f3f947be03c87b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:58 +0000
Subject: [PATCH 007/104] fix: likelihood gradient failed for several outputs,
 so TNC kept its start

---
 smt/surrogate_models/krg_based.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/smt/surrogate_models/krg_based.py b/smt/surrogate_models/krg_based.py
index f782ca7..70b9dcb 100644
--- a/smt/surrogate_models/krg_based.py
+++ b/smt/surrogate_models/krg_based.py
@@ -435,9 +435,13 @@ class KrgBased(SurrogateModel):
             )
             dsigma_all.append(dsigma_2)
 
-            # Compute reduced log likelihood derivatives
+            # Compute reduced log likelihood derivatives (variances summed over outputs)
+            dsigma_2_sum = (np.diag(dsigma_2) / self.y_std ** 2.0).sum()
+            sigma_2_sum = (sigma_2 / self.y_std ** 2.0).sum()
             grad_red[i_der] = (
-                -self.nt / np.log(10) * (dsigma_2 / sigma_2 + np.trace(tr) / self.nt)
+                -self.nt
+                / np.log(10)
+                * (dsigma_2_sum / sigma_2_sum + np.trace(tr) / self.nt)
             )
 
         par["dr"] = dr_all
-- 
2.43.0


From 089aa122a5549124e04447f81ae6541a5abebb16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:38 +0000
Subject: [PATCH 008/104] fix: multi-fidelity likelihood gradient used other
 degrees of freedom than the likelihood

---
 smt/surrogate_models/krg_based.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/smt/surrogate_models/krg_based.py b/smt/surrogate_models/krg_based.py
index 70b9dcb..cb55901 100644
--- a/smt/surrogate_models/krg_based.py
+++ b/smt/surrogate_models/krg_based.py
@@ -385,6 +385,11 @@ class KrgBased(SurrogateModel):
         if self.options["eval_noise"] and not self.options["use_het_noise"]:
             corr_theta = theta[0 : self.D.shape[1]]
 
+        # Same degrees of freedom as in the likelihood
+        n_dof = self.nt
+        if self.name in ["MFK", "MFKPLS", "MFKPLSK"]:
+            n_dof = self.nt - self.p - self.q
+
         dr_all = []
         tr_all = []
         dmu_all = []
@@ -425,7 +430,7 @@ class KrgBased(SurrogateModel):
 
             # Compute Sigma2 Derivatives
             dsigma_2 = (
-                (1 / self.nt)
+                (1 / n_dof)
                 * (
                     -dmu.T.dot(gamma)
                     - gamma.T.dot(dmu)
@@ -439,9 +444,9 @@ class KrgBased(SurrogateModel):
             dsigma_2_sum = (np.diag(dsigma_2) / self.y_std ** 2.0).sum()
             sigma_2_sum = (sigma_2 / self.y_std ** 2.0).sum()
             grad_red[i_der] = (
-                -self.nt
+                -1.0
                 / np.log(10)
-                * (dsigma_2_sum / sigma_2_sum + np.trace(tr) / self.nt)
+                * (n_dof * dsigma_2_sum / sigma_2_sum + np.trace(tr))
             )
 
         par["dr"] = dr_all
-- 
2.43.0


From 75b16cf1720c3667eca807bd037eea3ac0325538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:04 +0000
Subject: [PATCH 009/104] fix: IDW weights overflowed or all vanished, giving
 NaN

---
 smt/src/idw/idw.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/smt/src/idw/idw.cpp b/smt/src/idw/idw.cpp
index 089be6c..e84ddb9 100644
--- a/smt/src/idw/idw.cpp
+++ b/smt/src/idw/idw.cpp
@@ -39,7 +39,7 @@ void IDW::compute_jac(int n, double* x, double* jac) {
   int min_loc;
 
   for (int i = 0; i < n; i++) {
-    min_val = 1.;
+    min_val = INFINITY;
     min_loc = 0;
     for (int it = 0; it < nt; it++) {
       r2 = 0.;
@@ -51,7 +51,7 @@ void IDW::compute_jac(int n, double* x, double* jac) {
         min_val = r2;
         min_loc = it;
       }
-      w[it] = pow(r2, -p / 2.);
+      w[it] = r2;
     }
 
     if (min_val == 0.) {
@@ -61,8 +61,10 @@ void IDW::compute_jac(int n, double* x, double* jac) {
       jac[i * nt + min_loc] = 1.;
     }
     else {
+      // relative to the nearest point, so that weights neither overflow nor all vanish
       sum = 0;
       for (int it = 0; it < nt; it++) {
+        w[it] = pow(w[it] / min_val, -p / 2.);
         sum += w[it];
       }
       for (int it = 0; it < nt; it++) {
@@ -77,7 +79,7 @@ void IDW::compute_jac_derivs(int n, int kx, double* x, double* jac) {
   int min_loc;
 
   for (int i = 0; i < n; i++) {
-    min_val = 1.;
+    min_val = INFINITY;
     min_loc = 0;
     for (int it = 0; it < nt; it++) {
       r2 = 0.;
@@ -92,8 +94,8 @@ void IDW::compute_jac_derivs(int n, int kx, double* x, double* jac) {
         min_val = r2;
         min_loc = it;
       }
-      w[it] = pow(r2, -p / 2.);
-      dw_dx[it] = -p / 2. * pow(r2, -p / 2. - 1.) * dr2_dx;
+      w[it] = r2;
+      dw_dx[it] = dr2_dx;
     }
 
     if (min_val == 0.) {
@@ -105,6 +107,9 @@ void IDW::compute_jac_derivs(int n, int kx, double* x, double* jac) {
       sum = 0;
       dsum_dx = 0;
       for (int it = 0; it < nt; it++) {
+        r2 = w[it] / min_val;
+        w[it] = pow(r2, -p / 2.);
+        dw_dx[it] = -p / 2. * pow(r2, -p / 2. - 1.) * (dw_dx[it] / min_val);
         sum += w[it];
         dsum_dx += dw_dx[it];
       }
-- 
2.43.0


From 22d2a6157982f080143b958065c6445fabd8a570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:16 +0000
Subject: [PATCH 010/104] fix: QP normal equations lost all accuracy for inputs
 far from the origin

---
 smt/surrogate_models/qp.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/smt/surrogate_models/qp.py b/smt/surrogate_models/qp.py
index 027ae66..b1a58f0 100644
--- a/smt/surrogate_models/qp.py
+++ b/smt/surrogate_models/qp.py
@@ -55,7 +55,9 @@ class QP(SurrogateModel):
             )
 
         X = self._response_surface(x)
-        self.coef = np.dot(np.linalg.inv(np.dot(X.T, X)), (np.dot(X.T, y)))
+        # QR rather than normal equations, which square the condition number
+        Q, R = np.linalg.qr(X)
+        self.coef = np.linalg.solve(R, np.dot(Q.T, y))
 
     def _train(self):
         """
-- 
2.43.0


From c700579ac9929ba6dfcae26bebf195488037886b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:32 +0000
Subject: [PATCH 011/104] fix: COBYLA could return hyperparameters outside
 their bounds

---
 smt/surrogate_models/krg_based.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/smt/surrogate_models/krg_based.py b/smt/surrogate_models/krg_based.py
index cb55901..fef402d 100644
--- a/smt/surrogate_models/krg_based.py
+++ b/smt/surrogate_models/krg_based.py
@@ -1051,6 +1051,11 @@ class KrgBased(SurrogateModel):
                         optimal_theta_res = optimal_theta_res_2
 
                     optimal_theta = optimal_theta_res["x"]
+                    # COBYLA may return a point outside its inequality constraints
+                    bounds_arr = np.array(bounds_hyp)
+                    optimal_theta = np.clip(
+                        optimal_theta, bounds_arr[:, 0], bounds_arr[:, 1]
+                    )
 
                     if self.name not in ["MGP"]:
                         optimal_theta = 10 ** optimal_theta
-- 
2.43.0


From fbbb393193b3ef28a4e3158944e8d82746966dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:33 +0000
Subject: [PATCH 012/104] fix: grad_weight had no effect in RMTS

---
 smt/surrogate_models/rmts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smt/surrogate_models/rmts.py b/smt/surrogate_models/rmts.py
index de7c46c..4d9db34 100644
--- a/smt/surrogate_models/rmts.py
+++ b/smt/surrogate_models/rmts.py
@@ -167,7 +167,7 @@ class RMTS(SurrogateModel):
             if kx == 0:
                 c = 1.0
             else:
-                self.options["grad_weight"] / xlimits.shape[0]
+                c = self.options["grad_weight"] / xlimits.shape[0]
 
             full_jac = self._compute_jac(kx, 0, xt)
             full_jac_dict[kx] = (full_jac, full_jac.T.tocsc(), c)
-- 
2.43.0


From 6230fb882e20167e775570d900fb111e342da3c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:33 +0000
Subject: [PATCH 013/104] fix: RMTS derivatives outside the domain were not
 those of its values without extrapolation

---
 smt/surrogate_models/rmts.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/smt/surrogate_models/rmts.py b/smt/surrogate_models/rmts.py
index 4d9db34..8bab69f 100644
--- a/smt/surrogate_models/rmts.py
+++ b/smt/surrogate_models/rmts.py
@@ -536,6 +536,12 @@ class RMTS(SurrogateModel):
 
                 data += data_tmp
 
+        elif kx != 0:
+            # Without extrapolation, the prediction is constant outside the domain.
+            xlower, xupper = options["xlimits"][kx - 1]
+            isexternal = (x[:, kx - 1] < xlower) | (x[:, kx - 1] > xupper)
+            data[isexternal[rows]] = 0.0
+
         mtx = scipy.sparse.csc_matrix((data, (rows, cols)), shape=(n, num["coeff"]))
         return mtx
 
-- 
2.43.0


From 0e581c4b338dcba4d03a55cc8b6e0774c76da278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:35 +0000
Subject: [PATCH 014/104] fix: RMTS output derivatives used the last output's
 system for every output

---
 smt/surrogate_models/rmts.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/smt/surrogate_models/rmts.py b/smt/surrogate_models/rmts.py
index 8bab69f..2570190 100644
--- a/smt/surrogate_models/rmts.py
+++ b/smt/surrogate_models/rmts.py
@@ -549,7 +549,7 @@ class RMTS(SurrogateModel):
         # dy_dyt = dy_dw * (dR_dw)^{-1} * dR_dyt
 
         n = x.shape[0]
-        nw = self.mtx.shape[0]
+        nw = self.sol.shape[0]
         nx = x.shape[1]
         ny = self.sol.shape[1]
 
@@ -560,7 +560,14 @@ class RMTS(SurrogateModel):
             dy_dw = dy_dw * self.full_dof2coeff
         dy_dw = dy_dw.todense()
 
-        dR_dw = self.mtx
+        # The system matrix depends on the output when approx_order > 2.
+        solvers = []
+        for ind_y in range(ny):
+            yt_dict = self._get_yt_dict(ind_y)
+            dR_dw = self._opt_hess(self.sol[:, ind_y], p, yt_dict)
+            solver = get_solver(self.options["derivative_solver"])
+            solver._setup(dR_dw, self.printer)
+            solvers.append(solver)
 
         dy_dyt = {}
         for kx in self.training_points[None]:
@@ -573,13 +580,10 @@ class RMTS(SurrogateModel):
                     self.sol[:, ind_y], p, yt_dict, kx
                 )
 
-            solver = get_solver(self.options["derivative_solver"])
-            solver._setup(dR_dw, self.printer)
-
             dw_dyt = np.zeros((nw, nt, ny))
             for ind_t in range(nt):
                 for ind_y in range(ny):
-                    solver._solve(
+                    solvers[ind_y]._solve(
                         dR_dyt[:, ind_t, ind_y], dw_dyt[:, ind_t, ind_y], ind_y=ind_y
                     )
                     dw_dyt[:, ind_t, ind_y] *= -1.0
-- 
2.43.0


From 0484a41051a8591b95478ee0632cb3409141bb63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:50 +0000
Subject: [PATCH 015/104] fix: RMTS training failed when the start already
 solves the problem (zero outputs)

---
 smt/surrogate_models/rmts.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/smt/surrogate_models/rmts.py b/smt/surrogate_models/rmts.py
index 2570190..7f00087 100644
--- a/smt/surrogate_models/rmts.py
+++ b/smt/surrogate_models/rmts.py
@@ -412,6 +412,7 @@ class RMTS(SurrogateModel):
         with self.printer._timed_context(
             "Solving for degrees of freedom", "total_solution"
         ):
+            self.mtx = None
             self.sol = self._solve()
 
         if self.full_dof2coeff is not None:
-- 
2.43.0


From 7611e9da2e1f9f7ea7dc17564abcd9f35b14ba9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:51 +0000
Subject: [PATCH 016/104] fix: MOE kept references to the caller's training
 arrays

---
 smt/applications/moe.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/smt/applications/moe.py b/smt/applications/moe.py
index ff373ef..2f16388 100644
--- a/smt/applications/moe.py
+++ b/smt/applications/moe.py
@@ -21,6 +21,7 @@ except:
     from sklearn.mixture import GaussianMixture
 from scipy.stats import multivariate_normal
 
+from smt.utils.checks import ensure_2d_array
 from smt.utils.options_dictionary import OptionsDictionary
 from smt.applications.application import SurrogateBasedApplication
 from smt.utils.misc import compute_rms_error
@@ -190,8 +191,8 @@ class MOE(SurrogateBasedApplication):
             An optional label for the group of training points being set.
             This is only used in special situations (e.g., multi-fidelity applications).
         """
-        self.xt = xt
-        self.yt = yt
+        self.xt = np.array(ensure_2d_array(xt, "xt"))
+        self.yt = np.array(ensure_2d_array(yt, "yt"))
 
     def train(self):
         """
-- 
2.43.0


From ac112210e4028856fbff712904cc8fe61e5e532d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:12 +0000
Subject: [PATCH 017/104] fix: RBF overwrote its d0 option with a list for the
 current number of inputs

---
 smt/surrogate_models/rbf.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/smt/surrogate_models/rbf.py b/smt/surrogate_models/rbf.py
index dc0f3da..eb9e8bd 100644
--- a/smt/surrogate_models/rbf.py
+++ b/smt/surrogate_models/rbf.py
@@ -60,9 +60,8 @@ class RBF(SurrogateModel):
         options = self.options
 
         nx = self.training_points[None][0][0].shape[1]
-        if isinstance(options["d0"], (int, float)):
-            options["d0"] = [options["d0"]] * nx
-        options["d0"] = np.array(np.atleast_1d(options["d0"]), dtype=float)
+        # one scaling per input; the option itself stays as the user gave it
+        d0 = np.array(np.broadcast_to(options["d0"], (nx,)), dtype=float)
 
         self.printer.max_print_depth = options["max_print_depth"]
 
@@ -92,7 +91,7 @@ class RBF(SurrogateModel):
             nt,
             num["dof"],
             options["poly_degree"],
-            options["d0"],
+            d0,
             xt.flatten(),
         )
 
-- 
2.43.0


From 49373dca6c78bd155f2cd9c0abb988ead9650dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:12 +0000
Subject: [PATCH 018/104] fix: RMTB and RMTC overwrote their per-dimension
 options during training

---
 smt/surrogate_models/rmtb.py | 13 ++++++-------
 smt/surrogate_models/rmtc.py | 11 +++++------
 smt/surrogate_models/rmts.py |  2 +-
 3 files changed, 12 insertions(+), 14 deletions(-)

diff --git a/smt/surrogate_models/rmtb.py b/smt/surrogate_models/rmtb.py
index f0b6b19..c6434fe 100644
--- a/smt/surrogate_models/rmtb.py
+++ b/smt/surrogate_models/rmtb.py
@@ -59,20 +59,19 @@ class RMTB(RMTS):
         options = self.options
         nx = self.training_points[None][0][0].shape[1]
 
-        for name in ["smoothness", "num_ctrl_pts", "order"]:
-            if isinstance(options[name], (int, float)):
-                options[name] = [options[name]] * nx
-            options[name] = np.atleast_1d(options[name])
-
         self.printer.max_print_depth = options["max_print_depth"]
 
         num = {}
         # number of inputs and outputs
         num["x"] = self.training_points[None][0][0].shape[1]
         num["y"] = self.training_points[None][0][1].shape[1]
-        num["order_list"] = np.array(options["order"], int)
+        # options given per dimension or once for all; they stay as the user gave them
+        num["smoothness"] = np.broadcast_to(options["smoothness"], (nx,))
+        num["order_list"] = np.array(np.broadcast_to(options["order"], (nx,)), int)
         num["order"] = np.prod(num["order_list"])
-        num["ctrl_list"] = np.array(options["num_ctrl_pts"], int)
+        num["ctrl_list"] = np.array(
+            np.broadcast_to(options["num_ctrl_pts"], (nx,)), int
+        )
         num["ctrl"] = np.prod(num["ctrl_list"])
         num["elem_list"] = np.array(num["ctrl_list"] - num["order_list"] + 1, int)
         num["elem"] = np.prod(num["elem_list"])
diff --git a/smt/surrogate_models/rmtc.py b/smt/surrogate_models/rmtc.py
index 7a43602..9949442 100644
--- a/smt/surrogate_models/rmtc.py
+++ b/smt/surrogate_models/rmtc.py
@@ -52,19 +52,18 @@ class RMTC(RMTS):
         options = self.options
         nx = self.training_points[None][0][0].shape[1]
 
-        for name in ["smoothness", "num_elements"]:
-            if isinstance(options[name], (int, float)):
-                options[name] = [options[name]] * nx
-            options[name] = np.atleast_1d(options[name])
-
         self.printer.max_print_depth = options["max_print_depth"]
 
         num = {}
         # number of inputs and outputs
         num["x"] = self.training_points[None][0][0].shape[1]
         num["y"] = self.training_points[None][0][1].shape[1]
+        # options given per dimension or once for all; they stay as the user gave them
+        num["smoothness"] = np.broadcast_to(options["smoothness"], (nx,))
         # number of elements
-        num["elem_list"] = np.array(options["num_elements"], int)
+        num["elem_list"] = np.array(
+            np.broadcast_to(options["num_elements"], (nx,)), int
+        )
         num["elem"] = np.prod(num["elem_list"])
         # number of terms/coefficients per element
         num["term_list"] = 4 * np.ones(num["x"], int)
diff --git a/smt/surrogate_models/rmts.py b/smt/surrogate_models/rmts.py
index 7f00087..ade144a 100644
--- a/smt/surrogate_models/rmts.py
+++ b/smt/surrogate_models/rmts.py
@@ -219,7 +219,7 @@ class RMTS(SurrogateModel):
             full_hess += sq_mtx[kx] * (
                 elem_vol
                 / total_vol
-                * self.options["smoothness"][kx]
+                * num["smoothness"][kx]
                 / (xlimits[kx, 1] - xlimits[kx, 0]) ** 4
             )
 
-- 
2.43.0


From cca13deb7dccf9eff963c13f79bfb8797a0dd643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:20 +0000
Subject: [PATCH 019/104] fix: training a Kriging model changed its options, so
 that a later training differed or failed

---
 smt/applications/mfk.py           | 10 +++++++---
 smt/surrogate_models/krg_based.py | 18 +++++++++++++++---
 smt/surrogate_models/krg_mgp.py   |  2 +-
 3 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/smt/applications/mfk.py b/smt/applications/mfk.py
index 4168aa1..fde6bc2 100644
--- a/smt/applications/mfk.py
+++ b/smt/applications/mfk.py
@@ -685,19 +685,23 @@ class MFK(KrgBased):
         else:
             if len(self.options["theta0"]) != d:
                 if len(self.options["theta0"]) == 1:
-                    self.options["theta0"] *= np.ones((self.nlvl, d))
+                    self.options["theta0"] = self.options["theta0"] * np.ones(
+                        (self.nlvl, d)
+                    )
                 elif len(self.options["theta0"]) == self.nlvl:
                     self.options["theta0"] = np.array(self.options["theta0"]).reshape(
                         -1, 1
                     )
-                    self.options["theta0"] *= np.ones((1, d))
+                    self.options["theta0"] = self.options["theta0"] * np.ones((1, d))
                 else:
                     raise ValueError(
                         "the length of theta0 (%s) should be equal to the number of dim (%s) or levels of fidelity (%s)."
                         % (len(self.options["theta0"]), d, self.nlvl)
                     )
             else:
-                self.options["theta0"] *= np.ones((self.nlvl, 1))
+                self.options["theta0"] = self.options["theta0"] * np.ones(
+                    (self.nlvl, 1)
+                )
 
         if len(self.options["noise0"]) != self.nlvl:
             if len(self.options["noise0"]) == 1:
diff --git a/smt/surrogate_models/krg_based.py b/smt/surrogate_models/krg_based.py
index fef402d..a6a126b 100644
--- a/smt/surrogate_models/krg_based.py
+++ b/smt/surrogate_models/krg_based.py
@@ -195,7 +195,19 @@ class KrgBased(SurrogateModel):
         """
         # outputs['sol'] = self.sol
 
-        self._new_train()
+        # Training adapts these options to its data (length of theta0 and noise0,
+        # second step of KPLSK, ...): put back what the user gave, so that the next
+        # training starts from it again.
+        options = {
+            name: self.options[name]
+            for name in ["theta0", "noise0", "eval_noise", "n_comp"]
+            if name in self.options
+        }
+        self.nb_ill_matrix = 5
+        try:
+            self._new_train()
+        finally:
+            self.options.update(options)
 
     def _reduced_likelihood_function(self, theta):
         """
@@ -1176,7 +1188,7 @@ class KrgBased(SurrogateModel):
 
         if len(self.options["theta0"]) != d:
             if len(self.options["theta0"]) == 1:
-                self.options["theta0"] *= np.ones(d)
+                self.options["theta0"] = self.options["theta0"] * np.ones(d)
             else:
                 raise ValueError(
                     "the length of theta0 (%s) should be equal to the number of dim (%s)."
@@ -1186,7 +1198,7 @@ class KrgBased(SurrogateModel):
         if self.options["use_het_noise"] and not self.options["eval_noise"]:
             if len(self.options["noise0"]) != self.nt:
                 if len(self.options["noise0"]) == 1:
-                    self.options["noise0"] *= np.ones(self.nt)
+                    self.options["noise0"] = self.options["noise0"] * np.ones(self.nt)
                 else:
                     raise ValueError(
                         "for the heteroscedastic case, the length of noise0 (%s) should be equal to the number of observations (%s)."
diff --git a/smt/surrogate_models/krg_mgp.py b/smt/surrogate_models/krg_mgp.py
index 8040e98..4f6fb76 100644
--- a/smt/surrogate_models/krg_mgp.py
+++ b/smt/surrogate_models/krg_mgp.py
@@ -510,7 +510,7 @@ class MGP(KrgBased):
 
         if len(self.options["theta0"]) != d:
             if len(self.options["theta0"]) == 1:
-                self.options["theta0"] *= np.ones(d)
+                self.options["theta0"] = self.options["theta0"] * np.ones(d)
             else:
                 raise ValueError(
                     "the number of dim %s should be equal to the length of theta0 %s."
-- 
2.43.0


From 93481e02ebedc4e5d84792be92ca4feb844cfcf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:20 +0000
Subject: [PATCH 020/104] fix: GEKPLS with extra points could not be trained
 twice

---
 smt/surrogate_models/gekpls.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smt/surrogate_models/gekpls.py b/smt/surrogate_models/gekpls.py
index 392dedb..ec15962 100644
--- a/smt/surrogate_models/gekpls.py
+++ b/smt/surrogate_models/gekpls.py
@@ -49,7 +49,7 @@ class GEKPLS(KPLS):
                 self.options["extra_points"],
             )
             if self.options["extra_points"] != 0:
-                self.nt *= self.options["extra_points"] + 1
+                self.nt = X.shape[0] * (self.options["extra_points"] + 1)
                 X = np.vstack((X, XX))
                 y = np.vstack((y, yy))
 
-- 
2.43.0


From 71a8e89a28729592e6518d4056831b775a541404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:34 +0000
Subject: [PATCH 021/104] fix: MFK with a single fidelity level failed with the
 default noise0

---
 smt/applications/mfk.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/smt/applications/mfk.py b/smt/applications/mfk.py
index fde6bc2..ff69dda 100644
--- a/smt/applications/mfk.py
+++ b/smt/applications/mfk.py
@@ -712,6 +712,12 @@ class MFK(KrgBased):
                     % (len(self.options["noise0"]), self.nlvl)
                 )
 
+        # one vector per level, separate from the arrays of the caller
+        self.options["noise0"] = [
+            np.array(np.atleast_1d(noise), dtype=float)
+            for noise in self.options["noise0"]
+        ]
+
         for i in range(self.nlvl):
             if self.options["use_het_noise"]:
                 if len(self.X[i]) == len(np.unique(self.X[i])):
-- 
2.43.0


From 30693d1094cf1b84dc37be61126c006fe9d2ce47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:50 +0000
Subject: [PATCH 022/104] fix: update_training_values kept the old number of
 outputs

---
 smt/surrogate_models/surrogate_model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/smt/surrogate_models/surrogate_model.py b/smt/surrogate_models/surrogate_model.py
index 32e4e08..64342a5 100644
--- a/smt/surrogate_models/surrogate_model.py
+++ b/smt/surrogate_models/surrogate_model.py
@@ -164,6 +164,7 @@ class SurrogateModel(object, metaclass=ABCMeta):
                 + "set_training_values."
             )
 
+        self.ny = yt.shape[1]
         self.training_points[name][kx][1] = np.array(yt)
 
     def set_training_derivatives(
-- 
2.43.0


From 190bcaec4b6290244ddbae6bb1f146ad12f433f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:50 +0000
Subject: [PATCH 023/104] fix: update_training_derivatives checked the data of
 the variable before

---
 smt/surrogate_models/surrogate_model.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/smt/surrogate_models/surrogate_model.py b/smt/surrogate_models/surrogate_model.py
index 64342a5..62ea61e 100644
--- a/smt/surrogate_models/surrogate_model.py
+++ b/smt/surrogate_models/surrogate_model.py
@@ -226,13 +226,13 @@ class SurrogateModel(object, metaclass=ABCMeta):
 
         dyt_dxt = ensure_2d_array(dyt_dxt, "dyt_dxt")
 
-        if kx not in self.training_points[name]:
+        if kx + 1 not in self.training_points[name]:
             raise ValueError(
-                "The training points must be set first with set_training_values "
-                + "before calling update_training_values."
+                "The training points must be set first with set_training_derivatives "
+                + "before calling update_training_derivatives."
             )
 
-        xt = self.training_points[name][kx][0]
+        xt = self.training_points[name][kx + 1][0]
         if xt.shape[0] != dyt_dxt.shape[0]:
             raise ValueError(
                 "The number of training points does not agree with the earlier call of "
-- 
2.43.0


From 0d4ac6bc2f4b7eeb913be4b31d7d9f4900158beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:30 +0000
Subject: [PATCH 024/104] fix: the seed of GENN did not make its training
 repeatable

---
 smt/surrogate_models/genn.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/smt/surrogate_models/genn.py b/smt/surrogate_models/genn.py
index ac20253..95d3260 100644
--- a/smt/surrogate_models/genn.py
+++ b/smt/surrogate_models/genn.py
@@ -189,6 +189,8 @@ class GENN(SurrogateModel):
         n_y = Y.shape[0]
 
         # Train neural net
+        if seed is not None:
+            np.random.seed(seed)  # the initial weights are random too
         self.model = Model.initialize(n_x, n_y, deep, wide)
         self.model.train(
             X=X,
-- 
2.43.0


From d72d4363d747fd2f7d84f190e2700a851fa4828c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:30 +0000
Subject: [PATCH 025/104] fix: GENN training_data scaled the Jacobian along the
 wrong axes

---
 smt/utils/neural_net/model.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/smt/utils/neural_net/model.py b/smt/utils/neural_net/model.py
index 164d4e3..b5540e0 100644
--- a/smt/utils/neural_net/model.py
+++ b/smt/utils/neural_net/model.py
@@ -98,7 +98,13 @@ class Model(object):
     def training_data(self):
         X = self._X_norm * self._scale_factors["x"][1] + self._scale_factors["x"][0]
         Y = self._Y_norm * self._scale_factors["y"][1] + self._scale_factors["y"][0]
-        J = self._J_norm * self._scale_factors["y"][1] / self._scale_factors["x"][1]
+        J = self._J_norm
+        if J is not None:
+            J = (
+                J
+                * np.reshape(self._scale_factors["y"][1], (-1, 1, 1))
+                / np.reshape(self._scale_factors["x"][1], (1, -1, 1))
+            )
         return X, Y, J
 
     def __init__(self, **kwargs):
-- 
2.43.0


From ae96a44e0e52d57429c4a6345520e1b529b00b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:30 +0000
Subject: [PATCH 026/104] fix: GENN normalisation divided constant rows by zero

---
 smt/utils/neural_net/data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/smt/utils/neural_net/data.py b/smt/utils/neural_net/data.py
index 91f058c..03088a0 100644
--- a/smt/utils/neural_net/data.py
+++ b/smt/utils/neural_net/data.py
@@ -179,7 +179,7 @@ def normalize_data(X, Y, J=None, is_classification=False):
     sigma_x = np.ones((n_x, 1))
     for i in range(0, n_x):
         mu_x[i] = np.mean(X[i])
-        sigma_x[i] = np.std(X[i])
+        sigma_x[i] = np.std(X[i]) or 1.0  # constant rows are only shifted
         X_norm[i] = (X[i] - mu_x[i]) / sigma_x[i]
 
     # Normalize outputs
@@ -190,7 +190,7 @@ def normalize_data(X, Y, J=None, is_classification=False):
     else:
         for i in range(0, n_y):
             mu_y[i] = np.mean(Y[i])
-            sigma_y[i] = np.std(Y[i])
+            sigma_y[i] = np.std(Y[i]) or 1.0
             Y_norm[i] = (Y[i] - mu_y[i]) / sigma_y[i]
 
     # Normalize partials
-- 
2.43.0


From 9218296c58ff00f53666b69663f721449a5cb59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:20 +0000
Subject: [PATCH 027/104] fix: a refused update of training data left an empty
 group behind

---
 smt/surrogate_models/surrogate_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/smt/surrogate_models/surrogate_model.py b/smt/surrogate_models/surrogate_model.py
index 62ea61e..3f68ad1 100644
--- a/smt/surrogate_models/surrogate_model.py
+++ b/smt/surrogate_models/surrogate_model.py
@@ -151,7 +151,7 @@ class SurrogateModel(object, metaclass=ABCMeta):
 
         kx = 0
 
-        if kx not in self.training_points[name]:
+        if kx not in self.training_points.get(name, {}):
             raise ValueError(
                 "The training points must be set first with set_training_values "
                 + "before calling update_training_values."
@@ -226,7 +226,7 @@ class SurrogateModel(object, metaclass=ABCMeta):
 
         dyt_dxt = ensure_2d_array(dyt_dxt, "dyt_dxt")
 
-        if kx + 1 not in self.training_points[name]:
+        if kx + 1 not in self.training_points.get(name, {}):
             raise ValueError(
                 "The training points must be set first with set_training_derivatives "
                 + "before calling update_training_derivatives."
-- 
2.43.0


From 27a74fcfd0640625c1d7f9735b0c87e2586b670d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:24 +0000
Subject: [PATCH 028/104] fix: MFK variances failed when the trend at a level
 was ill-conditioned

---
 smt/applications/mfk.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/smt/applications/mfk.py b/smt/applications/mfk.py
index ff69dda..d537842 100644
--- a/smt/applications/mfk.py
+++ b/smt/applications/mfk.py
@@ -12,7 +12,6 @@ from copy import deepcopy
 
 import numpy as np
 from scipy.linalg import solve_triangular
-from scipy import linalg
 from scipy.spatial.distance import cdist
 
 from packaging import version
@@ -526,9 +525,11 @@ class MFK(KrgBased):
             sigma2 = self.optimal_par[i]["sigma2"] / self.y_std ** 2
             q = self.q_all[i]
             u_ = solve_triangular(G.T, f - np.dot(Ft.T, r_t), lower=True)
+            # inverse of G^T G without squaring its condition number
+            G_inv = solve_triangular(G, np.eye(G.shape[0]))
             sigma2_rho = np.dot(
                 g,
-                sigma2 * linalg.inv(np.dot(G.T, G))[:q, :q]
+                sigma2 * np.dot(G_inv, G_inv.T)[:q, :q]
                 + np.dot(beta[:q], beta[:q].T),
             )
             sigma2_rho = (sigma2_rho * g).sum(axis=1)
-- 
2.43.0


From ed866773e15bb9a218b4b29024d63772aa71365b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:33 +0000
Subject: [PATCH 029/104] fix: MFK with optim_var left its filtered values as
 training data

---
 smt/applications/mfk.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/smt/applications/mfk.py b/smt/applications/mfk.py
index d537842..4065cc2 100644
--- a/smt/applications/mfk.py
+++ b/smt/applications/mfk.py
@@ -338,6 +338,7 @@ class MFK(KrgBased):
     def _new_train_finalize(self, lvl):
         if self.options["eval_noise"] and self.options["optim_var"]:
             X = self.X
+            values = {name: pts[0][1] for name, pts in self.training_points.items()}
             for lvl in range(self.nlvl - 1):
                 self.set_training_values(
                     X[lvl], self._predict_intermediate_values(X[lvl], lvl + 1), name=lvl
@@ -347,6 +348,9 @@ class MFK(KrgBased):
             )
             self.options["eval_noise"] = False
             self._new_train()
+            # the filtered values are for this training only
+            for name, y in values.items():
+                self.training_points[name][0][1] = y
 
     def _componentwise_distance(self, dx, opt=0):
         d = componentwise_distance(dx, self.options["corr"], self.nx)
-- 
2.43.0


From 5b7f6b440b0c0a242ff27636f852ee035ebbccf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:24 +0000
Subject: [PATCH 030/104] fix: FullFactorial normalised the caller's weights in
 place

---
 smt/sampling_methods/full_factorial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smt/sampling_methods/full_factorial.py b/smt/sampling_methods/full_factorial.py
index b6a3856..0fc63bb 100644
--- a/smt/sampling_methods/full_factorial.py
+++ b/smt/sampling_methods/full_factorial.py
@@ -48,7 +48,7 @@ class FullFactorial(ScaledSamplingMethod):
             weights = np.ones(nx) / nx
         else:
             weights = np.atleast_1d(self.options["weights"])
-            weights /= np.sum(weights)
+            weights = weights / np.sum(weights)
 
         num_list = np.ones(nx, int)
         while np.prod(num_list) < nt:
-- 
2.43.0


From eb73a25d480d7c063f0b81d92e08563ae932d11b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:24 +0000
Subject: [PATCH 031/104] fix: LHS with the ese criterion failed for one point
 and for some pairs of points

---
 smt/sampling_methods/lhs.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/smt/sampling_methods/lhs.py b/smt/sampling_methods/lhs.py
index 3742894..a151b14 100644
--- a/smt/sampling_methods/lhs.py
+++ b/smt/sampling_methods/lhs.py
@@ -308,10 +308,8 @@ class LHS(ScaledSamplingMethod):
         outer_loop = min(int(1.5 * dim), 30)
         inner_loop = min(20 * dim, 100)
 
-        D0 = pdist(P0)
-        R0 = np.corrcoef(P0)
-        corr0 = np.max(np.abs(R0[R0 != 1]))
-        phip0 = self._PhiP(P0)
+        if nt == 1:
+            return P0  # nothing to exchange
 
         P, historic = self._maximinESE(
             P0,
-- 
2.43.0


From c08bf9c54199cd9f099105812d0e8e9d74c7b06b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:37 +0000
Subject: [PATCH 032/104] fix: declare the options of the MOE wrapper with
 their defaults

---
 smt/applications/moe.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/smt/applications/moe.py b/smt/applications/moe.py
index 2f16388..2df82e1 100644
--- a/smt/applications/moe.py
+++ b/smt/applications/moe.py
@@ -53,15 +53,11 @@ class MOESurrogateModel(SurrogateModel):
         # Copy over options from MOE object
         self.moe = moe = MOE()
         for key, data in moe.options._declared_entries.items():
-            self.options._declared_entries[key] = data
-
-            value = moe.options[key]
-            if value is not None:
-                self.options[key] = value
+            self.options.declare(key, **data)
 
     def _setup(self):
         for key in self.moe.options._declared_entries:
-            if key in self.options:
+            if self.options[key] is not None:
                 self.moe.options[key] = self.options[key]
 
         # self.supports['derivatives'] = self.options['derivatives_support']  # Interface not yet implemented
-- 
2.43.0


From 19705f3a7231f0f78af10e0df8c3c9f69cc317e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:37 +0000
Subject: [PATCH 033/104] fix: accept an array for an option that declares
 values and types

---
 smt/utils/options_dictionary.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/smt/utils/options_dictionary.py b/smt/utils/options_dictionary.py
index c3b2b7c..9f3f5d9 100644
--- a/smt/utils/options_dictionary.py
+++ b/smt/utils/options_dictionary.py
@@ -82,8 +82,8 @@ class OptionsDictionary(object):
         types = self._declared_entries[name]["types"]
 
         if values is not None and types is not None:
-            assert value in values or isinstance(
-                value, types
+            assert (
+                isinstance(value, types) or value in values
             ), "Option %s: value and type of %s are both invalid - " % (
                 name,
                 value,
-- 
2.43.0


From e4613712f585321229782ea7f15a5f2ffb9abb66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:37 +0000
Subject: [PATCH 034/104] fix: make OptionsDictionary.clone a deep copy as
 documented

---
 smt/utils/options_dictionary.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/smt/utils/options_dictionary.py b/smt/utils/options_dictionary.py
index 9f3f5d9..6a8b2bf 100644
--- a/smt/utils/options_dictionary.py
+++ b/smt/utils/options_dictionary.py
@@ -3,6 +3,7 @@ Author: Dr. John T. Hwang <hwangjt@umich.edu>
         
 This package is distributed under New BSD license.
 """
+from copy import deepcopy
 
 
 class OptionsDictionary(object):
@@ -31,8 +32,8 @@ class OptionsDictionary(object):
             Deep-copied clone.
         """
         clone = self.__class__()
-        clone._dict = dict(self._dict)
-        clone._declared_entries = dict(self._declared_entries)
+        clone._dict = deepcopy(self._dict)
+        clone._declared_entries = deepcopy(self._declared_entries)
         return clone
 
     def __getitem__(self, name):
-- 
2.43.0


From c05a0ac6c0a8bf9434a49eac5b524ae6fc247213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:10 +0000
Subject: [PATCH 035/104] fix: LpNorm derivative for orders above 2

---
 smt/problems/lp_norm.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/smt/problems/lp_norm.py b/smt/problems/lp_norm.py
index 25048c5..604bb04 100644
--- a/smt/problems/lp_norm.py
+++ b/smt/problems/lp_norm.py
@@ -44,7 +44,6 @@ class LpNorm(Problem):
         if kx is None:
             y[:, 0] = lp_norm
         else:
-            norm_p = np.linalg.norm(x, ord=p)
             y[:, 0] = np.sign(x[:, kx]) * (np.absolute(x[:, kx]) / lp_norm) ** (p - 1)
 
         return y
-- 
2.43.0


From 2a7fc4b25e23355ee567c7612c479ed8273a0c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:29 +0000
Subject: [PATCH 036/104] fix: dense Cholesky solve with a non-contiguous
 solution vector

---
 smt/utils/linear_solvers.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/smt/utils/linear_solvers.py b/smt/utils/linear_solvers.py
index 75939e6..9f37c70 100644
--- a/smt/utils/linear_solvers.py
+++ b/smt/utils/linear_solvers.py
@@ -154,11 +154,8 @@ class DenseCholeskySolver(LinearSolver):
                 sol = np.array(rhs)
 
             with printer._timed_context("Back solving (%i x %i mtx)" % self.mtx.shape):
-                sol[:] = rhs
-                scipy.linalg.solve_triangular(
-                    self.upper, sol, overwrite_b=True, trans="T"
-                )
-                scipy.linalg.solve_triangular(self.upper, sol, overwrite_b=True)
+                tmp = scipy.linalg.solve_triangular(self.upper, rhs, trans="T")
+                sol[:] = scipy.linalg.solve_triangular(self.upper, tmp)
 
         return sol
 
-- 
2.43.0


From a2895319ddaff0c7cc6f747a87b363f073922219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:29 +0000
Subject: [PATCH 037/104] fix: LinearSolver._clone dropped the options of the
 solver

---
 smt/utils/linear_solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smt/utils/linear_solvers.py b/smt/utils/linear_solvers.py
index 9f37c70..e4f431a 100644
--- a/smt/utils/linear_solvers.py
+++ b/smt/utils/linear_solvers.py
@@ -117,7 +117,7 @@ class LinearSolver(object):
 
     def _clone(self):
         clone = self.__class__()
-        clone.options.update(clone.options._dict)
+        clone.options.update(self.options._dict)
         return clone
 
     @contextlib.contextmanager
-- 
2.43.0


From 10d3584ed954f46448a2f8d7cc81f0f116b75b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:51 +0000
Subject: [PATCH 038/104] fix: krylov-dense had no preconditioner

---
 smt/utils/linear_solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smt/utils/linear_solvers.py b/smt/utils/linear_solvers.py
index e4f431a..9be5d1d 100644
--- a/smt/utils/linear_solvers.py
+++ b/smt/utils/linear_solvers.py
@@ -30,7 +30,7 @@ VALID_SOLVERS = (
 def get_solver(solver):
     if solver == "dense-lu":
         return DenseLUSolver()
-    elif solver == "dense-chol":
+    elif solver == "dense-chol" or solver == "dense":
         return DenseCholeskySolver()
     elif solver == "krylov-dense":
         return KrylovSolver(pc="dense")
-- 
2.43.0


From f748741d67b45e5fffb99d9a8c053b4cd0b7d750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:51 +0000
Subject: [PATCH 039/104] fix: multigrid solves depended on the previous
 right-hand side

---
 smt/utils/linear_solvers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/smt/utils/linear_solvers.py b/smt/utils/linear_solvers.py
index 9be5d1d..f6fa19c 100644
--- a/smt/utils/linear_solvers.py
+++ b/smt/utils/linear_solvers.py
@@ -460,6 +460,7 @@ class MultigridSolver(LinearSolver):
         res = rhs - mtx.dot(sol)
         res_coarse = mg_op.T.dot(res)
         self.mg_rhs[ind_level + 1][:] = res_coarse
+        self.mg_sol[ind_level + 1][:] = 0.0
 
     def _smooth_and_restrict(self, ind_level, ind_cycle, ind_y):
         mg_op = self.mg_ops[ind_level]
@@ -474,6 +475,7 @@ class MultigridSolver(LinearSolver):
         res = rhs - mtx.dot(sol)
         res_coarse = mg_op.T.dot(res)
         self.mg_rhs[ind_level + 1][:] = res_coarse
+        self.mg_sol[ind_level + 1][:] = 0.0
 
     def _coarse_solve(self, ind_cycle, ind_y):
         sol = self.mg_sol[-1]
@@ -510,6 +512,7 @@ class MultigridSolver(LinearSolver):
             self.callback.rhs = rhs
 
             self.mg_rhs[0][:] = rhs
+            self.mg_sol[0][:] = 0.0
 
             for ind_level in range(len(self.mg_ops)):
                 self._restrict(ind_level)
-- 
2.43.0


From 174550e3c271c857629803c7f7626337eec353eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:52 +0000
Subject: [PATCH 040/104] fix: Krylov solver returns the best iterate instead
 of the last

---
 smt/utils/linear_solvers.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/smt/utils/linear_solvers.py b/smt/utils/linear_solvers.py
index f6fa19c..0810315 100644
--- a/smt/utils/linear_solvers.py
+++ b/smt/utils/linear_solvers.py
@@ -66,6 +66,8 @@ class Callback(object):
         self.mtx = None
         self.rhs = None
         self.norm0 = 1.0
+        self.best_norm = np.inf
+        self.best_sol = None
 
     def _print_norm(self, norm):
         if self.counter == 0:
@@ -92,6 +94,9 @@ class Callback(object):
     def _print_sol(self, sol):
         res = self.mtx.dot(sol) - self.rhs
         norm = np.linalg.norm(res)
+        if norm < self.best_norm:
+            self.best_norm = norm
+            self.best_sol = np.array(sol)
         self._print_norm(norm)
 
 
@@ -294,6 +299,8 @@ class KrylovSolver(LinearSolver):
                 self.callback.ind_y = ind_y
                 self.callback.mtx = self.mtx
                 self.callback.rhs = rhs
+                self.callback.best_norm = np.inf
+                self.callback.best_sol = None
 
                 self.callback._print_sol(sol)
                 tmp, info = self.solver(
@@ -305,6 +312,11 @@ class KrylovSolver(LinearSolver):
                     **self.solver_kwargs
                 )
 
+                # The tolerance can be below the attainable accuracy; the iterates
+                # then drift away again, so return the best one instead of the last
+                if not np.linalg.norm(self.mtx.dot(tmp) - rhs) <= self.callback.best_norm:
+                    tmp = self.callback.best_sol
+
             sol[:] = tmp
 
         return sol
-- 
2.43.0


From eccf7c7f69c614835553b49c9cd5d97d1e038a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:51 +0000
Subject: [PATCH 041/104] fix: dense-lu solver refused the sparse matrices of
 RMTS

---
 smt/utils/linear_solvers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/smt/utils/linear_solvers.py b/smt/utils/linear_solvers.py
index 0810315..5c407f0 100644
--- a/smt/utils/linear_solvers.py
+++ b/smt/utils/linear_solvers.py
@@ -169,6 +169,8 @@ class DenseLUSolver(LinearSolver):
     def _setup(self, mtx, printer, mg_matrices=[]):
         self.printer = printer
         with self._active(self.options["print_init"]) as printer:
+            if scipy.sparse.issparse(mtx):
+                mtx = mtx.toarray()
             self.mtx = mtx
             assert isinstance(mtx, np.ndarray), "mtx is of type %s" % type(mtx)
 
-- 
2.43.0


From 747fee6c4d0185e18850e14c02a5ab6c028c0e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:53 +0000
Subject: [PATCH 042/104] fix: gmres solver iterated below round-off

---
 smt/utils/linear_solvers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/smt/utils/linear_solvers.py b/smt/utils/linear_solvers.py
index 5c407f0..c0302a7 100644
--- a/smt/utils/linear_solvers.py
+++ b/smt/utils/linear_solvers.py
@@ -281,7 +281,8 @@ class KrylovSolver(LinearSolver):
                 self.solver = scipy.sparse.linalg.gmres
                 self.callback_func = self.callback._print_res
                 self.solver_kwargs = {
-                    "tol": self.options["atol"],
+                    # iterating below round-off breaks gmres down
+                    "tol": max(self.options["atol"], 1e-13),
                     "maxiter": self.options["ilimit"],
                     "restart": min(self.options["ilimit"], mtx.shape[0]),
                 }
-- 
2.43.0


From 6be72a6aa9308cc266af2dd82314b380e796f9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:04 +0000
Subject: [PATCH 043/104] fix: Krylov preconditioners started from the residual
 instead of zero

---
 smt/utils/linear_solvers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/smt/utils/linear_solvers.py b/smt/utils/linear_solvers.py
index c0302a7..5f772ac 100644
--- a/smt/utils/linear_solvers.py
+++ b/smt/utils/linear_solvers.py
@@ -253,7 +253,8 @@ class KrylovSolver(LinearSolver):
                 pc_solver._setup(mtx, printer, mg_matrices=mg_matrices)
                 self.pc_solver = pc_solver
                 self.pc_op = scipy.sparse.linalg.LinearOperator(
-                    mtx.shape, matvec=pc_solver._solve
+                    mtx.shape,
+                    matvec=lambda rhs: pc_solver._solve(rhs, np.zeros(rhs.shape)),
                 )
             else:
                 self.pc_solver = None
-- 
2.43.0


From 795b4b708a7c3b925796bed96090075226bac3e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:49 +0000
Subject: [PATCH 044/104] fix: bracketed line searches returned None after 20
 expansions

---
 smt/utils/line_search.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/smt/utils/line_search.py b/smt/utils/line_search.py
index 3981415..7c47c1e 100644
--- a/smt/utils/line_search.py
+++ b/smt/utils/line_search.py
@@ -167,6 +167,9 @@ class BracketedLineSearch(LineSearch):
                 p2 = self._phi(a2)
                 dp2 = self._dphi(a2)
 
+        # Still descending at the largest step allowed
+        return self.x + a1 * self.dx
+
     def _zoom(self, a1, p1, dp1, a2, p2, dp2):
         """
         Find a solution in the interval, [a1, a2], assuming that phi(a1) < phi(a2).
-- 
2.43.0


From e0b200099a70565962361fc189564cee600010fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:49 +0000
Subject: [PATCH 045/104] fix: zoom of the bracketed line search could loop
 forever

---
 smt/utils/line_search.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/smt/utils/line_search.py b/smt/utils/line_search.py
index 7c47c1e..3b60879 100644
--- a/smt/utils/line_search.py
+++ b/smt/utils/line_search.py
@@ -174,8 +174,12 @@ class BracketedLineSearch(LineSearch):
         """
         Find a solution in the interval, [a1, a2], assuming that phi(a1) < phi(a2).
         """
-        while True:
-            a, p, dp = self._compute_minimum(a1, p1, dp1, a2, p2, dp2)
+        for ind in range(100):
+            if ind < 20:
+                a, p, dp = self._compute_minimum(a1, p1, dp1, a2, p2, dp2)
+            else:
+                # The interpolation is too slow so bisect from here on
+                a, p, dp = self._compute_midpoint(a1, a2)
 
             if not self._func_decreased(a) or p > p1:
                 # If still lower than initial f or still higher than low
@@ -196,10 +200,16 @@ class BracketedLineSearch(LineSearch):
                 p1 = p
                 dp1 = dp
 
+        # The interval has shrunk to round-off; its lower end has decreased
+        return self.x + a1 * self.dx
+
     def _compute_minimum(self, a1, p1, dp1, a2, p2, dp2):
         """
         Estimate the minimum as the midpoint.
         """
+        return self._compute_midpoint(a1, a2)
+
+    def _compute_midpoint(self, a1, a2):
         a = 0.5 * a1 + 0.5 * a2
         p = self._phi(a)
         dp = self._dphi(a)
-- 
2.43.0


From f7d8b0068aac2735e2d10eb03cf92602472cae62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:49 +0000
Subject: [PATCH 046/104] fix: quadratic line search with a degenerate or
 ill-conditioned interpolant

---
 smt/utils/line_search.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/smt/utils/line_search.py b/smt/utils/line_search.py
index 3b60879..b02ad0a 100644
--- a/smt/utils/line_search.py
+++ b/smt/utils/line_search.py
@@ -222,16 +222,15 @@ class QuadraticLineSearch(BracketedLineSearch):
     """
 
     def _compute_minimum(self, a1, p1, dp1, a2, p2, dp2):
-        quadratic_mtx = np.zeros((3, 3))
-        quadratic_mtx[0, :] = [1.0, a1, a1 ** 2]
-        quadratic_mtx[1, :] = [1.0, a2, a2 ** 2]
-        quadratic_mtx[2, :] = [0.0, 1.0, 2 * a1]
-        c0, c1, c2 = np.linalg.solve(quadratic_mtx, [p1, p2, dp1])
-
-        d0 = c1
-        d1 = 2 * c2
-
-        a = -d0 / d1
+        # p1 + dp1 (a - a1) + c2 (a - a1)^2 interpolates p2 at a2
+        h = a2 - a1
+        c2 = (p2 - p1 - dp1 * h) / h ** 2 if h != 0 else 0.0
+        if not c2 > 0:
+            return self._compute_midpoint(a1, a2)
+
+        a = a1 - dp1 / (2 * c2)
+        if not min(a1, a2) < a < max(a1, a2):
+            return self._compute_midpoint(a1, a2)
         p = self._phi(a)
         dp = self._dphi(a)
         return a, p, dp
-- 
2.43.0


From e415ee4acc502151a4878d42b46b21be07849acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:49 +0000
Subject: [PATCH 047/104] fix: cubic line search without an interior minimum of
 the interpolant

---
 smt/utils/line_search.py | 42 ++++++++++++++++------------------------
 1 file changed, 17 insertions(+), 25 deletions(-)

diff --git a/smt/utils/line_search.py b/smt/utils/line_search.py
index b02ad0a..a2e6216 100644
--- a/smt/utils/line_search.py
+++ b/smt/utils/line_search.py
@@ -242,31 +242,23 @@ class CubicLineSearch(BracketedLineSearch):
     """
 
     def _compute_minimum(self, a1, p1, dp1, a2, p2, dp2):
-        cubic_mtx = np.zeros((4, 4))
-        cubic_mtx[0, :] = [1.0, a1, a1 ** 2, a1 ** 3]
-        cubic_mtx[1, :] = [1.0, a2, a2 ** 2, a2 ** 3]
-        cubic_mtx[2, :] = [0.0, 1.0, 2 * a1, 3 * a1 ** 2]
-        cubic_mtx[3, :] = [0.0, 1.0, 2 * a2, 3 * a2 ** 2]
-        c0, c1, c2, c3 = np.linalg.solve(cubic_mtx, [p1, p2, dp1, dp2])
-
-        d0 = c1
-        d1 = 2 * c2
-        d2 = 3 * c3
-        r1, r2 = np.roots([d2, d1, d0])
+        # Cubic in t = (a - a1) / (a2 - a1)
+        h = a2 - a1
+        c1 = dp1 * h
+        c2 = 3 * (p2 - p1) - 2 * dp1 * h - dp2 * h
+        c3 = 2 * (p1 - p2) + dp1 * h + dp2 * h
 
         a = None
         p = max(p1, p2)
-        if (a1 <= r1 <= a2 or a2 <= r1 <= a1) and np.isreal(r1):
-            px = self._phi(r1)
-            if px < p:
-                a = r1
-                p = px
-                dp = self._dphi(r1)
-        if (a1 <= r2 <= a2 or a2 <= r2 <= a1) and np.isreal(r2):
-            px = self._phi(r2)
-            if px < p:
-                a = r2
-                p = px
-                dp = self._dphi(r2)
-
-        return a, p, dp
+        if np.all(np.isfinite([c1, c2, c3])):
+            for t in np.roots([3 * c3, 2 * c2, c1]):
+                if np.isreal(t) and 0 < np.real(t) < 1:
+                    ax = a1 + np.real(t) * h
+                    px = self._phi(ax)
+                    if px < p:
+                        a = ax
+                        p = px
+
+        if a is None:
+            return self._compute_midpoint(a1, a2)
+        return a, p, self._dphi(a)
-- 
2.43.0


From a6c305e3f7e9c12ddfe0731aeba2333ab35b3670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:37 +0000
Subject: [PATCH 048/104] fix: compute_rms_error of the training derivatives

---
 smt/utils/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smt/utils/misc.py b/smt/utils/misc.py
index 7ae6257..e2842c1 100644
--- a/smt/utils/misc.py
+++ b/smt/utils/misc.py
@@ -37,7 +37,7 @@ def compute_rms_error(sm, xe=None, ye=None, kx=None):
         if kx is None:
             kx2 = 0
         else:
-            kx2 += 1
+            kx2 = kx + 1
         if kx2 not in sm.training_points[None]:
             raise ValueError(
                 "There is no training point data available for kx %s" % kx2
-- 
2.43.0


From 877b3c3b5f19018582cc5d8cdea0a3ed6dc9b7d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:37 +0000
Subject: [PATCH 049/104] fix: scaling of a constant column to the unit
 interval

---
 smt/utils/kriging_utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/smt/utils/kriging_utils.py b/smt/utils/kriging_utils.py
index bbd53f6..4722822 100644
--- a/smt/utils/kriging_utils.py
+++ b/smt/utils/kriging_utils.py
@@ -69,6 +69,7 @@ def standardization(X, y, scale_X_to_unit=False):
         X_offset = np.min(X, axis=0)
         X_max = np.max(X, axis=0)
         X_scale = X_max - X_offset
+        X_scale[X_scale == 0.0] = 1.0
     else:
         X_offset = np.mean(X, axis=0)
         X_scale = X.std(axis=0, ddof=1)
-- 
2.43.0


From d3e18cf05c1f3e25a1f59e4d92d2daccf2eae2e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:37 +0000
Subject: [PATCH 050/104] fix: standardization of constant columns whose mean
 is rounded

---
 smt/utils/kriging_utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/smt/utils/kriging_utils.py b/smt/utils/kriging_utils.py
index 4722822..2c52ca7 100644
--- a/smt/utils/kriging_utils.py
+++ b/smt/utils/kriging_utils.py
@@ -73,11 +73,12 @@ def standardization(X, y, scale_X_to_unit=False):
     else:
         X_offset = np.mean(X, axis=0)
         X_scale = X.std(axis=0, ddof=1)
-        X_scale[X_scale == 0.0] = 1.0
+        # the deviation of a constant column can be round-off instead of zero
+        X_scale[np.ptp(X, axis=0) == 0.0] = 1.0
 
     y_mean = np.mean(y, axis=0)
     y_std = y.std(axis=0, ddof=1)
-    y_std[y_std == 0.0] = 1.0
+    y_std[np.ptp(y, axis=0) == 0.0] = 1.0
 
     # scale X and y
     X = (X - X_offset) / X_scale
-- 
2.43.0


From 629e09c7481ffd7d1402f4c540e10387856ae195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:12 +0000
Subject: [PATCH 051/104] fix: GEKPLS with one input variable

---
 smt/utils/kriging_utils.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/smt/utils/kriging_utils.py b/smt/utils/kriging_utils.py
index 2c52ca7..d9e4342 100644
--- a/smt/utils/kriging_utils.py
+++ b/smt/utils/kriging_utils.py
@@ -694,6 +694,12 @@ def ge_compute_pls(X, y, n_comp, pts, delta_x, xlimits, extra_points):
             for j in range(1, dim + 1):
                 sign[:, j - 1] = sign[:, j - 1] * pts[None][j][1][i, 0]
             _y = y[i, :] + np.sum(sign, axis=1).reshape((sign.shape[0], 1))
+        elif dim == 1:
+            # center, right, left
+            step = delta_x * (xlimits[0, 1] - xlimits[0, 0])
+            sign = np.array([[0.0], [step], [-step]])
+            _X = X[i, :] + sign
+            _y = y[i, :] + sign * pts[None][1][1][i, 0]
         else:
             _X = np.zeros((9, dim))
             _y = np.zeros((9, 1))
-- 
2.43.0


From 64391d4ba89bfac3af87bfd6dbb490fef4167780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:08 +0000
Subject: [PATCH 052/104] fix: discrepancy variance of MFKPLS and MFKPLSK was
 halved

---
 smt/applications/mfk.py | 24 ++++++------------------
 1 file changed, 6 insertions(+), 18 deletions(-)

diff --git a/smt/applications/mfk.py b/smt/applications/mfk.py
index 4065cc2..6cb438b 100644
--- a/smt/applications/mfk.py
+++ b/smt/applications/mfk.py
@@ -520,7 +520,6 @@ class MFK(KrgBased):
             f = np.vstack((g.T * mu[:, i - 1], f0.T))
 
             Ft = solve_triangular(C, F, lower=True)
-            yt = solve_triangular(C, self.y_norma_all[i], lower=True)
             r_t = solve_triangular(C, r_.T, lower=True)
             G = self.optimal_par[i]["G"]
             beta = self.optimal_par[i]["beta"]
@@ -539,23 +538,12 @@ class MFK(KrgBased):
             sigma2_rho = (sigma2_rho * g).sum(axis=1)
             sigma2_rhos.append(sigma2_rho)
 
-            if self.name in ["MFKPLS", "MFKPLSK"]:
-                p = self.p_all[i]
-                Q_ = (np.dot((yt - np.dot(Ft, beta)).T, yt - np.dot(Ft, beta)))[0, 0]
-                MSE[:, i] = (
-                    sigma2_rho * MSE[:, i - 1]
-                    + Q_ / (2 * (self.nt_all[i] - p - q))
-                    # * (1 + self.optimal_noise_all[i] - (r_t ** 2).sum(axis=0))
-                    * (1 - (r_t ** 2).sum(axis=0))
-                    + sigma2 * (u_ ** 2).sum(axis=0)
-                )
-            else:
-                MSE[:, i] = sigma2_rho * MSE[:, i - 1] + sigma2 * (
-                    # 1 + self.optimal_noise_all[i] - (r_t ** 2).sum(axis=0) + (u_ ** 2).sum(axis=0)
-                    1
-                    - (r_t ** 2).sum(axis=0)
-                    + (u_ ** 2).sum(axis=0)
-                )
+            MSE[:, i] = sigma2_rho * MSE[:, i - 1] + sigma2 * (
+                # 1 + self.optimal_noise_all[i] - (r_t ** 2).sum(axis=0) + (u_ ** 2).sum(axis=0)
+                1
+                - (r_t ** 2).sum(axis=0)
+                + (u_ ** 2).sum(axis=0)
+            )
 
         # scaled predictor
         MSE *= self.y_std ** 2
-- 
2.43.0


From c42b7f67b72e8b990f0257804c65c7d7c4fd10a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:41 +0000
Subject: [PATCH 053/104] fix: variances of three or more fidelity levels
 ignored the mean of the level below

---
 smt/applications/mfk.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/smt/applications/mfk.py b/smt/applications/mfk.py
index 6cb438b..1146b24 100644
--- a/smt/applications/mfk.py
+++ b/smt/applications/mfk.py
@@ -523,8 +523,10 @@ class MFK(KrgBased):
             r_t = solve_triangular(C, r_.T, lower=True)
             G = self.optimal_par[i]["G"]
             beta = self.optimal_par[i]["beta"]
+            gamma = self.optimal_par[i]["gamma"]
 
             # scaled predictor
+            mu[:, i] = (np.dot(f.T, beta) + np.dot(r_, gamma)).ravel()
             sigma2 = self.optimal_par[i]["sigma2"] / self.y_std ** 2
             q = self.q_all[i]
             u_ = solve_triangular(G.T, f - np.dot(Ft.T, r_t), lower=True)
-- 
2.43.0


From 15dac349340e6d63ba435356538bafd35f0e8d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:31 +0000
Subject: [PATCH 054/104] fix: MFK refused one noise per level for
 heteroscedastic data

---
 smt/applications/mfk.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/smt/applications/mfk.py b/smt/applications/mfk.py
index 1146b24..4e8342e 100644
--- a/smt/applications/mfk.py
+++ b/smt/applications/mfk.py
@@ -718,7 +718,9 @@ class MFK(KrgBased):
                 if len(self.X[i]) == len(np.unique(self.X[i])):
                     if len(self.options["noise0"][i]) != self.nt_all[i]:
                         if len(self.options["noise0"][i]) == 1:
-                            self.options["noise0"][i] *= np.ones(self.nt_all[i])
+                            self.options["noise0"][i] = self.options["noise0"][
+                                i
+                            ] * np.ones(self.nt_all[i])
                         else:
                             raise ValueError(
                                 "for the level of fidelity %s, the length of noise0 (%s) should be equal to the number of observations (%s)."
-- 
2.43.0


From 2c6989fdfeda9070d5fb3b76caa4a7c17ecc616e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:31 +0000
Subject: [PATCH 055/104] fix: optim_var kept the initial guess of the noise

---
 smt/applications/mfk.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/smt/applications/mfk.py b/smt/applications/mfk.py
index 4e8342e..7cfe64a 100644
--- a/smt/applications/mfk.py
+++ b/smt/applications/mfk.py
@@ -347,6 +347,8 @@ class MFK(KrgBased):
                 X[-1], self._predict_intermediate_values(X[-1], self.nlvl)
             )
             self.options["eval_noise"] = False
+            # the filtered values are free of noise
+            self.options["noise0"] = [0.0]
             self._new_train()
             # the filtered values are for this training only
             for name, y in values.items():
-- 
2.43.0


From 9a0294849407141ca0fe9b53ce2d2d7d7a225ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:21 +0000
Subject: [PATCH 056/104] fix: MFK counted distinct coordinates instead of
 distinct points

---
 smt/applications/mfk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smt/applications/mfk.py b/smt/applications/mfk.py
index 7cfe64a..7992e49 100644
--- a/smt/applications/mfk.py
+++ b/smt/applications/mfk.py
@@ -717,7 +717,7 @@ class MFK(KrgBased):
 
         for i in range(self.nlvl):
             if self.options["use_het_noise"]:
-                if len(self.X[i]) == len(np.unique(self.X[i])):
+                if len(self.X[i]) == len(np.unique(self.X[i], axis=0)):
                     if len(self.options["noise0"][i]) != self.nt_all[i]:
                         if len(self.options["noise0"][i]) == 1:
                             self.options["noise0"][i] = self.options["noise0"][
-- 
2.43.0


From f73be31f0c97ec2b87a231024e2dbfe3631a1cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:12 +0000
Subject: [PATCH 057/104] fix: MOE refused the training derivatives used for
 clustering

---
 smt/applications/moe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smt/applications/moe.py b/smt/applications/moe.py
index 2df82e1..d20645a 100644
--- a/smt/applications/moe.py
+++ b/smt/applications/moe.py
@@ -203,7 +203,7 @@ class MOE(SurrogateBasedApplication):
             self.x = x = self.options["xt"]
             self.y = y = self.options["yt"]
         self.c = c = self.options["ct"]
-        if not self.c:
+        if self.c is None:
             self.c = c = y
 
         self.n_clusters = self.options["n_clusters"]
-- 
2.43.0


From ac7ea7e1fa7b954e36c91245c6aed33432700ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:12 +0000
Subject: [PATCH 058/104] fix: MOE did not refuse an empty list of experts

---
 smt/applications/moe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smt/applications/moe.py b/smt/applications/moe.py
index d20645a..da696fd 100644
--- a/smt/applications/moe.py
+++ b/smt/applications/moe.py
@@ -364,7 +364,7 @@ class MOE(SurrogateBasedApplication):
                 if name not in self.options["deny"]
             }
         if not prototypes:
-            ValueError(
+            raise ValueError(
                 "List of possible experts is empty: check support, allow and deny options wrt"
             )
         return {name: self._surrogate_type[name] for name in prototypes}
-- 
2.43.0


From 65fc4c2d51cc621351a186e514089456c2d98fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:12 +0000
Subject: [PATCH 059/104] fix: MOE chose its experts by the differences of all
 pairs of test points

---
 smt/applications/moe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smt/applications/moe.py b/smt/applications/moe.py
index da696fd..22a0b51 100644
--- a/smt/applications/moe.py
+++ b/smt/applications/moe.py
@@ -547,7 +547,7 @@ class MOE(SurrogateBasedApplication):
             sm.set_training_values(training_values[:, 0:dim], training_values[:, dim])
             sm.train()
 
-            expected = test_values[:, dim]
+            expected = test_values[:, dim : dim + 1]
             actual = sm.predict_values(test_values[:, 0:dim])
             l_two = np.linalg.norm(expected - actual, 2)
             # l_two_rel = l_two / np.linalg.norm(expected, 2)
-- 
2.43.0


From 45ca077ba811ae2787f6b2e5a222b6b27417183f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:12 +0000
Subject: [PATCH 060/104] fix: cluster probabilities of MOE vanished far from
 the clusters

---
 smt/applications/moe.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/smt/applications/moe.py b/smt/applications/moe.py
index 22a0b51..7790049 100644
--- a/smt/applications/moe.py
+++ b/smt/applications/moe.py
@@ -699,14 +699,11 @@ class MOE(SurrogateBasedApplication):
             x membership probability for each cluster
         """
         weights = np.array(self.cluster.weights_)
-        rvs = np.array([distribs[k].pdf(x) for k in range(len(weights))])
+        logs = np.array([distribs[k].logpdf(x) for k in range(len(weights))])
 
-        probs = weights * rvs
-        rad = np.sum(probs)
-
-        if rad > 0:
-            probs = probs / rad
-        return probs
+        # relative to the largest one: the densities of remote points underflow
+        probs = weights * np.exp(logs - np.max(logs))
+        return probs / np.sum(probs)
 
     def _proba_cluster(self, x, distribs=None):
         """
-- 
2.43.0


From d8845e3fd681c7ef063c9c6e8c8c0624fb5c6ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:41 +0000
Subject: [PATCH 061/104] fix: VFM removed the entry deriv from the
 dictionaries of the caller

---
 smt/applications/vfm.py | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/smt/applications/vfm.py b/smt/applications/vfm.py
index 610e2af..943e589 100644
--- a/smt/applications/vfm.py
+++ b/smt/applications/vfm.py
@@ -158,9 +158,12 @@ class VFM(SurrogateBasedApplication):
         self._check_param()
 
         # Train the low fidelity model
-        self.LF_deriv = self.options["options_LF"]["deriv"]
-        del self.options["options_LF"]["deriv"]
-        sm_LF = self.options["name_model_LF"](**self.options["options_LF"])
+        # (the dictionaries belong to the caller)
+        options_LF = dict(self.options["options_LF"])
+        options_bridge = dict(self.options["options_bridge"])
+        self.LF_deriv = options_LF.pop("deriv", False)
+        self.B_deriv = options_bridge.pop("deriv", False)
+        sm_LF = self.options["name_model_LF"](**options_LF)
         sm_LF.options["print_global"] = False
         sm_LF.set_training_values(X_LF, y_LF)
         if self.LF_deriv:
@@ -172,8 +175,6 @@ class VFM(SurrogateBasedApplication):
         # compute the bridge data
         if self.options["type_bridge"] == "Multiplicative":
             y_bridge = y_HF / sm_LF.predict_values(X_HF)
-            self.B_deriv = self.options["options_bridge"]["deriv"]
-            del self.options["options_bridge"]["deriv"]
             if self.B_deriv:
                 dy_bridge = np.zeros(dy_HF.shape)
                 for i in range(sm_LF.nx):
@@ -189,8 +190,6 @@ class VFM(SurrogateBasedApplication):
                     ).reshape(y_HF.shape[0])
         elif self.options["type_bridge"] == "Additive":
             y_bridge = y_HF - sm_LF.predict_values(X_HF)
-            self.B_deriv = self.options["options_bridge"]["deriv"]
-            del self.options["options_bridge"]["deriv"]
             if self.B_deriv:
                 dy_bridge = np.zeros(dy_HF.shape)
                 for i in range(sm_LF.nx):
@@ -202,7 +201,7 @@ class VFM(SurrogateBasedApplication):
             raise ValueError("Only Additive and Multiplicative bridges are available")
 
         # Construct of the bridge function
-        sm_bridge = self.options["name_model_bridge"](**self.options["options_bridge"])
+        sm_bridge = self.options["name_model_bridge"](**options_bridge)
         sm_bridge.set_training_values(X_HF, y_bridge)
         if self.B_deriv and self.options["dy_HF"] is not None:
             for i in range(sm_bridge.nx):
@@ -268,9 +267,3 @@ class VFM(SurrogateBasedApplication):
                     "%s was given."
                     % (self._surrogate_type.keys(), self.options["name_model_bridge"])
                 )
-
-        # Initialize the parameter deriv
-        if "deriv" not in self.options["options_LF"].keys():
-            self.options["options_LF"]["deriv"] = False
-        if "deriv" not in self.options["options_bridge"].keys():
-            self.options["options_bridge"]["deriv"] = False
-- 
2.43.0


From 7f7d724f3282006ae7abc582fc1b49064ec5069b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:53 +0000
Subject: [PATCH 062/104] fix: categorical variable with several levels
 selected at once

---
 smt/applications/mixed_integer.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/smt/applications/mixed_integer.py b/smt/applications/mixed_integer.py
index ba5d4c2..0c1b4c3 100644
--- a/smt/applications/mixed_integer.py
+++ b/smt/applications/mixed_integer.py
@@ -126,11 +126,11 @@ def cast_to_discrete_values(xtypes, x):
 
         elif isinstance(xtyp, tuple) and xtyp[0] == ENUM:
             # Categorial : The biggest level is selected.
+            # (the first one in case of a tie)
             xenum = ret[:, x_col : x_col + xtyp[1]]
-            maxx = np.max(xenum, axis=1).reshape((-1, 1))
-            mask = xenum < maxx
-            xenum[mask] = 0
-            xenum[~mask] = 1
+            best = np.argmax(xenum, axis=1)
+            xenum[:] = 0
+            xenum[np.arange(len(xenum)), best] = 1
             x_col = x_col + xtyp[1]
         else:
             _raise_value_error(xtyp)
-- 
2.43.0


From cd703a95efd5c2cc947508ae858dab7a3916b214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:53 +0000
Subject: [PATCH 063/104] fix: integer variables were truncated instead of
 rounded

---
 smt/applications/mixed_integer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smt/applications/mixed_integer.py b/smt/applications/mixed_integer.py
index 0c1b4c3..55f84aa 100644
--- a/smt/applications/mixed_integer.py
+++ b/smt/applications/mixed_integer.py
@@ -195,7 +195,7 @@ def cast_to_mixed_integer(xtypes, xlimits, x):
         if xtyp == FLOAT:
             res.append(xi)
         elif xtyp == INT:
-            res.append(int(xi))
+            res.append(int(np.round(xi)))
         elif isinstance(xtyp, tuple) and xtyp[0] == ENUM:
             res.append(xlimits[i][int(xi)])
         else:
-- 
2.43.0


From a031cfbe14fdc6a88503779a99f8ea7b9f3393c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:53 +0000
Subject: [PATCH 064/104] fix: mixed-integer surrogate dropped the name of the
 training set

---
 smt/applications/mixed_integer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smt/applications/mixed_integer.py b/smt/applications/mixed_integer.py
index 55f84aa..8a16f45 100644
--- a/smt/applications/mixed_integer.py
+++ b/smt/applications/mixed_integer.py
@@ -288,7 +288,7 @@ class MixedIntegerSurrogateModel(SurrogateModel):
             xt2 = unfold_with_enum_mask(self._xtypes, xt)
         else:
             xt2 = xt
-        super().set_training_values(xt2, yt)
+        super().set_training_values(xt2, yt, name)
         self._surrogate.set_training_values(xt2, yt, name)
 
     def update_training_values(self, yt, name=None):
-- 
2.43.0


From e02dba73f44b8329138f3c5a0ec04fbc3a80dd43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:53 +0000
Subject: [PATCH 065/104] fix: mixed-integer surrogate was trained on
 infeasible points

---
 smt/applications/mixed_integer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/smt/applications/mixed_integer.py b/smt/applications/mixed_integer.py
index 8a16f45..a12f918 100644
--- a/smt/applications/mixed_integer.py
+++ b/smt/applications/mixed_integer.py
@@ -288,6 +288,7 @@ class MixedIntegerSurrogateModel(SurrogateModel):
             xt2 = unfold_with_enum_mask(self._xtypes, xt)
         else:
             xt2 = xt
+        xt2 = cast_to_discrete_values(self._xtypes, xt2)
         super().set_training_values(xt2, yt, name)
         self._surrogate.set_training_values(xt2, yt, name)
 
-- 
2.43.0


From c63661b58715e70ab46f55fa9d05d5346c6393b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:53 +0000
Subject: [PATCH 066/104] fix: EGO evaluated the initial mixed design in the
 relaxed space

---
 smt/applications/ego.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/smt/applications/ego.py b/smt/applications/ego.py
index bfecfad..ea9e7a9 100644
--- a/smt/applications/ego.py
+++ b/smt/applications/ego.py
@@ -288,7 +288,10 @@ class EGO(SurrogateBasedApplication):
 
         ydoe = self.options["ydoe"]
         if ydoe is None:
-            y_doe = self._evaluator.run(fun, x_doe)
+            x_to_compute = x_doe
+            if self.mixint:
+                x_to_compute = self.mixint.fold_with_enum_index(x_to_compute)
+            y_doe = self._evaluator.run(fun, x_to_compute)
         else:  # to save time if y_doe is already given to EGO
             y_doe = ydoe
 
-- 
2.43.0


From 158c8fa86c29a563a935511b4050694768a99ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:53 +0000
Subject: [PATCH 067/104] fix: EGO evaluated the objective at fractional values
 of integer variables

---
 smt/applications/ego.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/smt/applications/ego.py b/smt/applications/ego.py
index ea9e7a9..3d51bc7 100644
--- a/smt/applications/ego.py
+++ b/smt/applications/ego.py
@@ -161,6 +161,9 @@ class EGO(SurrogateBasedApplication):
                     )
                     break
                 elif success:
+                    if self.mixint:
+                        # project the relaxed point to a feasible one
+                        x_et_k = self.mixint.cast_to_discrete_values(x_et_k)
                     self.log(
                         "Internal optimization succeeded at EGO iter = {}.{}".format(
                             k, p
-- 
2.43.0


From 1ed4595698086964589bb53a167084e3cdc6e197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:53 +0000
Subject: [PATCH 068/104] fix: EGO discarded a successful last internal
 optimization

---
 smt/applications/ego.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smt/applications/ego.py b/smt/applications/ego.py
index 3d51bc7..9b048d9 100644
--- a/smt/applications/ego.py
+++ b/smt/applications/ego.py
@@ -371,7 +371,7 @@ class EGO(SurrogateBasedApplication):
                 self.log("New start point for the internal optimization")
                 n_optim += 1
 
-        if n_optim >= n_max_optim:
+        if not success:
             # self.log("Internal optimization failed at EGO iter = {}".format(k))
             return np.atleast_2d(0), False
         ind_min = np.argmin(obj_success)
-- 
2.43.0


From 3cfde2e7c4dc00c0c13de79a5117a064d2086584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:53 +0000
Subject: [PATCH 069/104] fix: KBRand strategy of EGO ignored random_state

---
 smt/applications/ego.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/smt/applications/ego.py b/smt/applications/ego.py
index 9b048d9..6c3f7dc 100644
--- a/smt/applications/ego.py
+++ b/smt/applications/ego.py
@@ -254,6 +254,13 @@ class EGO(SurrogateBasedApplication):
         ndarray: initial coord-y doe = fun(xdoe)
 
         """
+        # Random draws of the KBRand strategy
+        self._random = self.options["random_state"]
+        if self._random is None:
+            self._random = np.random
+        elif not isinstance(self._random, np.random.RandomState):
+            self._random = np.random.RandomState(self._random)
+
         # Set the model
         self.gpr = self.options["surrogate"]
         self.xlimits = self.options["xlimits"]
@@ -410,7 +417,7 @@ class EGO(SurrogateBasedApplication):
             conf = -3.0
 
         if qEI == "KBRand":
-            conf = np.random.randn()
+            conf = self._random.randn()
         pred = self.gpr.predict_values(x)
         var = self.gpr.predict_variances(x)
 
-- 
2.43.0


From d695b2a7aa8aec3d9ea3885dcc19184634eb2cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:53 +0000
Subject: [PATCH 070/104] fix: expected improvement was NaN at points without
 uncertainty

---
 smt/applications/ego.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/smt/applications/ego.py b/smt/applications/ego.py
index 6c3f7dc..022ff0f 100644
--- a/smt/applications/ego.py
+++ b/smt/applications/ego.py
@@ -202,12 +202,12 @@ class EGO(SurrogateBasedApplication):
         f_min = np.min(y_data)
         pred = self.gpr.predict_values(points)
         sig = np.sqrt(self.gpr.predict_variances(points))
-        args0 = (f_min - pred) / sig
+        # where nothing is uncertain the improvement is known
+        known = sig == 0.0
+        args0 = (f_min - pred) / np.where(known, 1.0, sig)
         args1 = (f_min - pred) * norm.cdf(args0)
         args2 = sig * norm.pdf(args0)
-        if sig.size == 1 and sig == 0.0:  # can be use only if one point is computed
-            return 0.0
-        ei = args1 + args2
+        ei = np.where(known, np.maximum(f_min - pred, 0.0), args1 + args2)
         # penalize the points already evaluated with tunneling
         if enable_tunneling:
             for i in range(len(points)):
-- 
2.43.0


From c018823c59282749c625aae44296820c6bbaeea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:41 +0000
Subject: [PATCH 071/104] fix: Adam ignored its tuning parameters

---
 smt/utils/neural_net/optimizer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/smt/utils/neural_net/optimizer.py b/smt/utils/neural_net/optimizer.py
index 4d36f8f..3272ca6 100644
--- a/smt/utils/neural_net/optimizer.py
+++ b/smt/utils/neural_net/optimizer.py
@@ -267,10 +267,10 @@ class Adam(Optimizer):
         self.v = None
         self.s = None
 
-    def _update_current_design(self, learning_rate=0.05, beta_1=0.9, beta_2=0.99):
+    def _update_current_design(self, learning_rate=0.05):
         """Adam update"""
-        self.beta_1 = beta_1
-        self.beta_2 = beta_2
+        beta_1 = self.beta_1
+        beta_2 = self.beta_2
         t = self._current_iteration + 1
 
         if self.v is None:
-- 
2.43.0


From e35ea4c13309b73aacf579678e64bd9e1e5f975c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:41 +0000
Subject: [PATCH 072/104] fix: hyperbolic tangent of large numbers was NaN

---
 smt/utils/neural_net/activation.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/smt/utils/neural_net/activation.py b/smt/utils/neural_net/activation.py
index 78eb14f..0d3e185 100644
--- a/smt/utils/neural_net/activation.py
+++ b/smt/utils/neural_net/activation.py
@@ -61,10 +61,7 @@ class Sigmoid(Activation):
 
 class Tanh(Activation):
     def evaluate(self, z):
-        numerator = np.exp(z) - np.exp(-z)
-        denominator = np.exp(z) + np.exp(-z)
-        a = np.divide(numerator, denominator)
-        return a
+        return np.tanh(z)
 
     def first_derivative(self, z):
         a = self.evaluate(z)
-- 
2.43.0


From 7e62a0294010028932b5179b60eb512e5183fa13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:01 +0000
Subject: [PATCH 073/104] fix: GENN kept validation points as training points

---
 smt/surrogate_models/genn.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/smt/surrogate_models/genn.py b/smt/surrogate_models/genn.py
index 95d3260..1c6802a 100644
--- a/smt/surrogate_models/genn.py
+++ b/smt/surrogate_models/genn.py
@@ -242,7 +242,8 @@ class GENN(SurrogateModel):
         :param dyv_dxv: np.ndarray[n, ny], dydx validation derivatives
         """
         # Store current training points
-        training_points = self.training_points
+        training_points = self.training_points.copy()
+        sizes = self.nt, self.nx, self.ny
 
         # Replace training points with test (validation) points
         load_smt_data(self, xv, yv, dyv_dxv)
@@ -255,6 +256,7 @@ class GENN(SurrogateModel):
 
         # Restore training points
         self.training_points = training_points
+        self.nt, self.nx, self.ny = sizes
 
 
 def run_example(is_gradient_enhancement=True):  # pragma: no cover
-- 
2.43.0


From 72acecac557af90db9b066ca2c10620cba1b948f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:01 +0000
Subject: [PATCH 074/104] fix: GENN accepted derivatives at points other than
 the training points

---
 smt/surrogate_models/genn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smt/surrogate_models/genn.py b/smt/surrogate_models/genn.py
index 1c6802a..8d5f189 100644
--- a/smt/surrogate_models/genn.py
+++ b/smt/surrogate_models/genn.py
@@ -99,7 +99,7 @@ def smt_to_genn(training_points):
         assert dyt_dxt.shape[1] == n_y
 
         # Assert that derivatives provided are for the same training points
-        assert xt.all() == X.all()
+        assert np.array_equal(xt, X)
 
         # Assign training derivative but transpose to match neural net implementation
         J[:, k, :] = dyt_dxt
-- 
2.43.0


From 6b75fe68baf034eee489283b1476fc22b7df42e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:01 +0000
Subject: [PATCH 075/104] fix: gradient of the GENN loss used unclipped
 coefficients

---
 smt/utils/neural_net/bwd_prop.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/smt/utils/neural_net/bwd_prop.py b/smt/utils/neural_net/bwd_prop.py
index 7af5550..4ecf939 100644
--- a/smt/utils/neural_net/bwd_prop.py
+++ b/smt/utils/neural_net/bwd_prop.py
@@ -206,6 +206,10 @@ def L_model_backward(AL, Y, AL_prime, Y_prime, caches, J_caches, lambd, gamma):
     _, m = AL.shape
     Y = Y.reshape(AL.shape)  # after this line, Y is the same shape as AL
 
+    # Same limits as in the cost function
+    lambd = max(0.0, lambd)
+    gamma = min(max(0.0, gamma), 1.0)
+
     # Initializing the back propagation
     dA, dA_prime = initialize_back_prop(AL, Y, AL_prime, Y_prime)
 
-- 
2.43.0


From e98c116f55b1f2e4941f4d35d398183a3158b82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:01 +0000
Subject: [PATCH 076/104] fix: GENN could not be trained without derivatives

---
 smt/surrogate_models/genn.py     | 11 ++++++-----
 smt/utils/neural_net/bwd_prop.py |  3 +++
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/smt/surrogate_models/genn.py b/smt/surrogate_models/genn.py
index 8d5f189..320a767 100644
--- a/smt/surrogate_models/genn.py
+++ b/smt/surrogate_models/genn.py
@@ -62,7 +62,8 @@ def smt_to_genn(training_points):
     Returns:
     :return X -- a numpy matrix of input features of shape (n_x, m) where n_x = no. of inputs, m = no. of train examples
     :return Y -- a numpy matrix of output labels of shape (n_y, m) where n_y = no. of outputs
-    :return J -- a numpy array of size (n_y, n_x, m) representing the Jacobian of Y w.r.t. X:
+    :return J -- a numpy array of size (n_y, n_x, m) representing the Jacobian of Y w.r.t. X
+                 (None without training derivatives, which turns off gradient-enhancement):
 
         dY1/dX1 = J[0][0][:]
         dY1/dX2 = J[0][1][:]
@@ -87,6 +88,10 @@ def smt_to_genn(training_points):
     X = xt
     Y = yt
 
+    # Without training derivatives there is no Jacobian
+    if len(training_points[None]) == 1:
+        return X.T, Y.T, None
+
     # Loop to retrieve each partial derivative from SMT training_points
     J = np.zeros((m, n_x, n_y))
     for k in range(0, n_x):
@@ -166,10 +171,6 @@ class GENN(SurrogateModel):
         # Convert training data to format expected by neural net module
         X, Y, J = smt_to_genn(self.training_points)
 
-        # If there are no training derivatives, turn off gradient-enhancement
-        if type(J) == np.ndarray and J.size == 0:
-            self.options["gamma"] = 0.0
-
         # Get hyperparameters from SMT API
         alpha = self.options["alpha"]
         beta1 = self.options["beta1"]
diff --git a/smt/utils/neural_net/bwd_prop.py b/smt/utils/neural_net/bwd_prop.py
index 4ecf939..a224bca 100644
--- a/smt/utils/neural_net/bwd_prop.py
+++ b/smt/utils/neural_net/bwd_prop.py
@@ -210,6 +210,9 @@ def L_model_backward(AL, Y, AL_prime, Y_prime, caches, J_caches, lambd, gamma):
     lambd = max(0.0, lambd)
     gamma = min(max(0.0, gamma), 1.0)
 
+    if Y_prime is None:
+        Y_prime, gamma = AL_prime, 0.0  # no derivative data
+
     # Initializing the back propagation
     dA, dA_prime = initialize_back_prop(AL, Y, AL_prime, Y_prime)
 
-- 
2.43.0


From 7c39ce5b781a8a44eae4cea3843da103b05a6e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:01 +0000
Subject: [PATCH 077/104] fix: parameters loaded in a neural network were used
 with an offset

---
 smt/utils/neural_net/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smt/utils/neural_net/model.py b/smt/utils/neural_net/model.py
index b5540e0..dce67fe 100644
--- a/smt/utils/neural_net/model.py
+++ b/smt/utils/neural_net/model.py
@@ -112,7 +112,7 @@ class Model(object):
         self._layer_dims = list()
         self._activations = list()
         self._training_history = dict()
-        self._scale_factors = {"x": (1, 1), "y": (1, 1)}
+        self._scale_factors = {"x": (np.zeros(1), np.ones(1)), "y": (np.zeros(1), np.ones(1))}
         self._X_norm = None
         self._Y_norm = None
         self._J_norm = None
-- 
2.43.0


From 061bc1196dd4861df11afc374c299b79cb805c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:02 +0000
Subject: [PATCH 078/104] fix: finite differences changed the parameters they
 were taken at

---
 smt/utils/neural_net/optimizer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/smt/utils/neural_net/optimizer.py b/smt/utils/neural_net/optimizer.py
index 3272ca6..1b293e0 100644
--- a/smt/utils/neural_net/optimizer.py
+++ b/smt/utils/neural_net/optimizer.py
@@ -24,8 +24,10 @@ def finite_difference(parameters, fun=None, dx=1e-6):
     :return: dy: the derivative of fun with respect to x
     """
     grads = dict()
+    parameters = parameters.copy()  # leave the dictionary of the caller alone
     for key in parameters.keys():
         x = np.copy(parameters[key])
+        parameters[key] = np.copy(x)
         n, p = x.shape
         dy = np.zeros((n, p))
         for i in range(0, n):
-- 
2.43.0


From b45b1cc392d05eb073585ac97983dfad6ada84bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:54 +0000
Subject: [PATCH 079/104] fix: gradient of the GENN loss applied gamma once per
 layer

---
 smt/utils/neural_net/bwd_prop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smt/utils/neural_net/bwd_prop.py b/smt/utils/neural_net/bwd_prop.py
index a224bca..294941b 100644
--- a/smt/utils/neural_net/bwd_prop.py
+++ b/smt/utils/neural_net/bwd_prop.py
@@ -142,7 +142,7 @@ def linear_activation_backward(dA, dA_prime, cache, J_cache, lambd, gamma):
                 * np.sum(dA_prime_j * G_prime_prime * Z_prime_j, axis=1, keepdims=True)
             )
             dA_prev += gamma * np.dot(W.T, dA_prime_j * G_prime_prime * Z_prime_j)
-            dA_prime_prev[:, j, :] = gamma * np.dot(W.T, dA_prime_j * G_prime)
+            dA_prime_prev[:, j, :] = np.dot(W.T, dA_prime_j * G_prime)
 
     return dA_prev, dW, db, dA_prime_prev
 
-- 
2.43.0


From 94ad082faa75f222a28d41c6caac3b5ff40df361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:25 +0000
Subject: [PATCH 080/104] fix: GENN still kept validation points as training
 points

---
 smt/surrogate_models/genn.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/smt/surrogate_models/genn.py b/smt/surrogate_models/genn.py
index 320a767..b00486b 100644
--- a/smt/surrogate_models/genn.py
+++ b/smt/surrogate_models/genn.py
@@ -6,6 +6,8 @@ Author: Steven H. Berguin <steven.berguin@gtri.gatech.edu>
 This package is distributed under New BSD license.
 """
 
+from collections import defaultdict
+
 from smt.surrogate_models.surrogate_model import SurrogateModel
 from smt.utils.neural_net.model import Model
 
@@ -243,7 +245,8 @@ class GENN(SurrogateModel):
         :param dyv_dxv: np.ndarray[n, ny], dydx validation derivatives
         """
         # Store current training points
-        training_points = self.training_points.copy()
+        training_points = self.training_points
+        self.training_points = defaultdict(dict)
         sizes = self.nt, self.nx, self.ny
 
         # Replace training points with test (validation) points
-- 
2.43.0


From 004df91a1d9bd79a50137a5ef0088b347af4ece6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:42 +0000
Subject: [PATCH 081/104] fix: models with a linear solver object could not be
 trained twice

---
 smt/utils/caching.py | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/smt/utils/caching.py b/smt/utils/caching.py
index dd7a02c..b6d7af3 100644
--- a/smt/utils/caching.py
+++ b/smt/utils/caching.py
@@ -31,7 +31,17 @@ def cached_operation(inputs_dict, data_dir, desc=""):
     outputs_dict : dict
         Dictionary containing the outputs of the operation.
     """
-    checksum = _caching_checksum(inputs_dict)
+    checksum = None
+    if data_dir:
+        try:
+            checksum = _caching_checksum(inputs_dict)
+        except (TypeError, AttributeError, pickle.PicklingError):
+            pass  # e.g. a linear solver object that holds a factorization
+
+    if checksum is None:
+        yield {}
+        return
+
     filename = "%s/%s_%s.dat" % (data_dir, desc, checksum)
     try:
         with open(filename, "rb") as f:
@@ -43,7 +53,7 @@ def cached_operation(inputs_dict, data_dir, desc=""):
 
     yield outputs_dict
 
-    if not load_successful and data_dir:
+    if not load_successful:
         with open(filename, "wb") as f:
             pickle.dump(outputs_dict, f)
 
@@ -68,12 +78,12 @@ def _caching_checksum(obj):
     except:
         pass
 
-    self_pkl = pickle.dumps(obj)
-    checksum = hashlib.md5(self_pkl).hexdigest()
-
     try:
-        obj["self"].printer = tmp
-    except:
-        pass
+        self_pkl = pickle.dumps(obj)
+    finally:
+        try:
+            obj["self"].printer = tmp
+        except:
+            pass
 
-    return checksum
+    return hashlib.md5(self_pkl).hexdigest()
-- 
2.43.0


From ef415554f570ac360f79cccc6014053a9a998a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:42 +0000
Subject: [PATCH 082/104] fix: RBF loaded from the cache had no output
 derivatives

---
 smt/surrogate_models/rbf.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/smt/surrogate_models/rbf.py b/smt/surrogate_models/rbf.py
index eb9e8bd..76c7e78 100644
--- a/smt/surrogate_models/rbf.py
+++ b/smt/surrogate_models/rbf.py
@@ -138,11 +138,13 @@ class RBF(SurrogateModel):
         with cached_operation(inputs, self.options["data_dir"]) as outputs:
             self.rbfc = tmp
 
-            if outputs:
+            if "mtx" in outputs:
                 self.sol = outputs["sol"]
+                self.mtx = outputs["mtx"]
             else:
                 self._new_train()
                 outputs["sol"] = self.sol
+                outputs["mtx"] = self.mtx
 
     def _predict_values(self, x):
         """
-- 
2.43.0


From d287e7e939a62a9cfe4593c4d5249d003b690476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:15 +0000
Subject: [PATCH 083/104] fix: derivatives with respect to an input that does
 not exist were returned

---
 smt/surrogate_models/surrogate_model.py | 3 ++-
 smt/utils/checks.py                     | 5 +++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/smt/surrogate_models/surrogate_model.py b/smt/surrogate_models/surrogate_model.py
index 3f68ad1..bf52113 100644
--- a/smt/surrogate_models/surrogate_model.py
+++ b/smt/surrogate_models/surrogate_model.py
@@ -12,7 +12,7 @@ from abc import ABCMeta, abstractmethod
 
 from smt.utils.printer import Printer
 from smt.utils.options_dictionary import OptionsDictionary
-from smt.utils.checks import check_support, check_nx, ensure_2d_array
+from smt.utils.checks import check_support, check_nx, check_kx, ensure_2d_array
 
 
 class SurrogateModel(object, metaclass=ABCMeta):
@@ -329,6 +329,7 @@ class SurrogateModel(object, metaclass=ABCMeta):
         check_support(self, "derivatives")
         x = ensure_2d_array(x, "x")
         check_nx(self.nx, x)
+        check_kx(self.nx, kx)
         n = x.shape[0]
         self.printer.active = (
             self.options["print_global"] and self.options["print_prediction"]
diff --git a/smt/utils/checks.py b/smt/utils/checks.py
index 509ed1e..acfc897 100644
--- a/smt/utils/checks.py
+++ b/smt/utils/checks.py
@@ -33,3 +33,8 @@ def check_nx(nx, x):
             raise ValueError(
                 "x should have shape [:, {}] and not {}".format(nx, x.shape)
             )
+
+
+def check_kx(nx, kx):
+    if not 0 <= kx < nx:
+        raise ValueError("kx should be between 0 and {} and not {}".format(nx - 1, kx))
-- 
2.43.0


From aaa8f9ee65cc8fc30113cdc11c2c3a9d35bdb695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:15 +0000
Subject: [PATCH 084/104] fix: training derivatives with kx = -1 replaced the
 training values

---
 smt/surrogate_models/surrogate_model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/smt/surrogate_models/surrogate_model.py b/smt/surrogate_models/surrogate_model.py
index bf52113..545cbcc 100644
--- a/smt/surrogate_models/surrogate_model.py
+++ b/smt/surrogate_models/surrogate_model.py
@@ -197,6 +197,7 @@ class SurrogateModel(object, metaclass=ABCMeta):
 
         if not isinstance(kx, int):
             raise ValueError("kx must be an int")
+        check_kx(xt.shape[1], kx)
 
         self.training_points[name][kx + 1] = [np.array(xt), np.array(dyt_dxt)]
 
@@ -226,7 +227,7 @@ class SurrogateModel(object, metaclass=ABCMeta):
 
         dyt_dxt = ensure_2d_array(dyt_dxt, "dyt_dxt")
 
-        if kx + 1 not in self.training_points.get(name, {}):
+        if kx < 0 or kx + 1 not in self.training_points.get(name, {}):
             raise ValueError(
                 "The training points must be set first with set_training_derivatives "
                 + "before calling update_training_derivatives."
-- 
2.43.0


From 7a192a4b35a371e3a4cf606d5b6d6889e5f881fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:15 +0000
Subject: [PATCH 085/104] fix: problems returned derivatives with respect to
 variables they do not have

---
 smt/problems/problem.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/smt/problems/problem.py b/smt/problems/problem.py
index 85a482d..8ad1294 100644
--- a/smt/problems/problem.py
+++ b/smt/problems/problem.py
@@ -9,7 +9,7 @@ from typing import Optional
 import numpy as np
 
 from smt.utils.options_dictionary import OptionsDictionary
-from smt.utils.checks import ensure_2d_array
+from smt.utils.checks import check_kx, ensure_2d_array
 
 
 class Problem(object):
@@ -79,6 +79,7 @@ class Problem(object):
         if kx is not None:
             if not isinstance(kx, int) or kx < 0:
                 raise TypeError("kx should be None or a non-negative int.")
+            check_kx(self.options["ndim"], kx)
 
         y = self._evaluate(x, kx)
 
-- 
2.43.0


From 4b0ff911d1fd571d32745b0ef10db4410b473eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:15 +0000
Subject: [PATCH 086/104] fix: mixed-integer models ignored columns they have
 no variable for

---
 smt/applications/mixed_integer.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/smt/applications/mixed_integer.py b/smt/applications/mixed_integer.py
index a12f918..e85bc30 100644
--- a/smt/applications/mixed_integer.py
+++ b/smt/applications/mixed_integer.py
@@ -6,7 +6,7 @@ This package is distributed under New BSD license.
 import numpy as np
 from smt.surrogate_models.surrogate_model import SurrogateModel
 from smt.sampling_methods.sampling_method import SamplingMethod
-from smt.utils.checks import ensure_2d_array
+from smt.utils.checks import check_nx, ensure_2d_array
 
 FLOAT = "float_type"
 INT = "int_type"
@@ -282,8 +282,15 @@ class MixedIntegerSurrogateModel(SurrogateModel):
     def _initialize(self):
         self.supports["derivatives"] = False
 
+    def _check_nx(self, x):
+        if self._input_in_folded_space:
+            check_nx(len(self._xtypes), x)
+        else:
+            check_nx(compute_unfolded_dimension(self._xtypes), x)
+
     def set_training_values(self, xt, yt, name=None):
         xt = ensure_2d_array(xt, "xt")
+        self._check_nx(xt)
         if self._input_in_folded_space:
             xt2 = unfold_with_enum_mask(self._xtypes, xt)
         else:
@@ -301,6 +308,7 @@ class MixedIntegerSurrogateModel(SurrogateModel):
 
     def predict_values(self, x):
         xp = ensure_2d_array(x, "xp")
+        self._check_nx(xp)
         if self._input_in_folded_space:
             x2 = unfold_with_enum_mask(self._xtypes, xp)
         else:
@@ -310,6 +318,7 @@ class MixedIntegerSurrogateModel(SurrogateModel):
 
     def predict_variances(self, x):
         xp = ensure_2d_array(x, "xp")
+        self._check_nx(xp)
         if self._input_in_folded_space:
             x2 = unfold_with_enum_mask(self._xtypes, xp)
         else:
-- 
2.43.0


From cd17f68f22f7018b02920af534b8534149cbea6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:15 +0000
Subject: [PATCH 087/104] fix: MOE accepted mismatched training data and query
 points of any rank

---
 smt/applications/moe.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/smt/applications/moe.py b/smt/applications/moe.py
index 7790049..e4f5b00 100644
--- a/smt/applications/moe.py
+++ b/smt/applications/moe.py
@@ -187,8 +187,14 @@ class MOE(SurrogateBasedApplication):
             An optional label for the group of training points being set.
             This is only used in special situations (e.g., multi-fidelity applications).
         """
-        self.xt = np.array(ensure_2d_array(xt, "xt"))
-        self.yt = np.array(ensure_2d_array(yt, "yt"))
+        xt = ensure_2d_array(xt, "xt")
+        yt = ensure_2d_array(yt, "yt")
+        if xt.shape[0] != yt.shape[0]:
+            raise ValueError(
+                "the first dimension of xt and yt must have the same length"
+            )
+        self.xt = np.array(xt)
+        self.yt = np.array(yt)
 
     def train(self):
         """
@@ -272,6 +278,7 @@ class MOE(SurrogateBasedApplication):
         y : np.ndarray[nt, ny]
             Output values at the prediction points.
         """
+        x = ensure_2d_array(x, "x")
         if self.smooth_recombination:
             y = self._predict_smooth_output(x)
         else:
@@ -299,6 +306,7 @@ class MOE(SurrogateBasedApplication):
                 "when creating MOE"
             )
 
+        x = ensure_2d_array(x, "x")
         if self.smooth_recombination:
             y = self._predict_smooth_output(x, output_variances=True)
         else:
-- 
2.43.0


From e711e3e516d3b97495abab22ad23cf8208ff057d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:15 +0000
Subject: [PATCH 088/104] fix: MGP refused one-dimensional query points

---
 smt/surrogate_models/krg_mgp.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/smt/surrogate_models/krg_mgp.py b/smt/surrogate_models/krg_mgp.py
index 4f6fb76..8eeabce 100644
--- a/smt/surrogate_models/krg_mgp.py
+++ b/smt/surrogate_models/krg_mgp.py
@@ -11,6 +11,7 @@ from scipy import linalg
 from smt.utils.kriging_utils import differences
 from smt.surrogate_models.krg_based import KrgBased
 from smt.utils.kriging_utils import componentwise_distance
+from smt.utils.checks import ensure_2d_array
 
 """
 The Active kriging class.
@@ -86,6 +87,7 @@ class MGP(KrgBased):
             MSE or (MSE, MGP-MSE).
 
         """
+        x = ensure_2d_array(x, "x")
         n_eval, n_features = x.shape
 
         if n_features < self.nx:
@@ -146,6 +148,7 @@ class MGP(KrgBased):
             Value of the MGP at the given point x.
 
         """
+        x = ensure_2d_array(x, "x")
         n_eval, n_features = x.shape
         if n_features < self.nx:
             if n_features != self.options["n_comp"]:
-- 
2.43.0


From d0cdc008d786dfd25ae8760d83b92fcb3d2f4ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:05 +0000
Subject: [PATCH 089/104] fix: variance of MGP with a linear or quadratic trend

---
 smt/surrogate_models/krg_mgp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smt/surrogate_models/krg_mgp.py b/smt/surrogate_models/krg_mgp.py
index 8eeabce..d52b18f 100644
--- a/smt/surrogate_models/krg_mgp.py
+++ b/smt/surrogate_models/krg_mgp.py
@@ -352,7 +352,7 @@ class MGP(KrgBased):
 
         F_Rinv_r = np.dot(Ft.T, rt)
 
-        u_ = linalg.solve_triangular(G.T, f - F_Rinv_r)
+        u_ = linalg.solve_triangular(G.T, f - F_Rinv_r, lower=True)
 
         MSE = self.optimal_par["sigma2"] * (
             1.0 - (rt ** 2.0).sum(axis=0) + (u_ ** 2.0).sum(axis=0)
-- 
2.43.0


From 2354f7f4912e712c938262c4b66e3e9c2e93eb50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:59 +0000
Subject: [PATCH 090/104] fix: hyperparameter part of the variance of MGP was
 in standardised units

---
 smt/surrogate_models/krg_mgp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smt/surrogate_models/krg_mgp.py b/smt/surrogate_models/krg_mgp.py
index d52b18f..bc31c74 100644
--- a/smt/surrogate_models/krg_mgp.py
+++ b/smt/surrogate_models/krg_mgp.py
@@ -293,7 +293,7 @@ class MGP(KrgBased):
                 - r.dot(Rinv_dR_gamma[omega] + Rinv_dmu[omega])
             )
 
-            dy[omega, :] = dy_omega[:, 0]
+            dy[omega, :] = dy_omega[:, 0] * self.y_std
 
         return dy
 
-- 
2.43.0


From 1c80b38b7dfe3a216eb33b65276869fa89b38a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:32 +0000
Subject: [PATCH 091/104] fix: RMTB read before its knot vector for a NaN query

---
 smt/src/rmts/rmtb.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/smt/src/rmts/rmtb.cpp b/smt/src/rmts/rmtb.cpp
index feec6a3..9d179ed 100644
--- a/smt/src/rmts/rmtb.cpp
+++ b/smt/src/rmts/rmtb.cpp
@@ -15,7 +15,8 @@ void compute_knot_vector_uniform(int order, int ncp, double * knots) {
 }
 
 int compute_i_start(int order, int ncp, double param, double * knots) {
-  int istart = -1;
+  // a parameter in no interval (NaN) is treated as lying in the first one
+  int istart = 0;
 
   for (int i = order - 1; i < ncp; i++) {
     if ((knots[i] <= param) && (param < knots[i + 1])) {
-- 
2.43.0


From 28bb96d82ea1ee5b51c02ae845635002b738c57c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:32 +0000
Subject: [PATCH 092/104] fix: RMTC used the wrong element for points far
 outside the domain

---
 smt/src/rmts/rmtc.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/smt/src/rmts/rmtc.cpp b/smt/src/rmts/rmtc.cpp
index 7ab91d0..783980d 100644
--- a/smt/src/rmts/rmtc.cpp
+++ b/smt/src/rmts/rmtc.cpp
@@ -43,9 +43,11 @@ void RMTC::find_interval(int ix, int num, double x, int * index, double * xbar)
   double a = lower[ix];
   double b = upper[ix];
 
-  *index = (int) ceil( (x - a) / (b - a) * num );
-  *index = max(1, *index);
-  *index = min(num, *index);
+  // limit the position before the conversion: it may be NaN or beyond the int range
+  double position = ceil( (x - a) / (b - a) * num );
+  position = max(1., position);
+  position = min(1. * num, position);
+  *index = (int) position;
 
   double a2 = a + (b - a) * (*index - 1) / num;
   double b2 = a + (b - a) * (*index    ) / num;
-- 
2.43.0


From bd7cae56eb254082ecad0356f73ab1e9158f4ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:59 +0000
Subject: [PATCH 093/104] fix: compiled models overran their buffers when the
 data were replaced without training

---
 smt/surrogate_models/idw.py  | 21 ++++++++++++++-------
 smt/surrogate_models/rbf.py  | 14 +++++++++-----
 smt/surrogate_models/rmts.py |  2 ++
 3 files changed, 25 insertions(+), 12 deletions(-)

diff --git a/smt/surrogate_models/idw.py b/smt/surrogate_models/idw.py
index 9dce6b8..b5b0a00 100644
--- a/smt/surrogate_models/idw.py
+++ b/smt/surrogate_models/idw.py
@@ -8,6 +8,7 @@ import numpy as np
 from scipy.sparse import csc_matrix
 from smt.surrogate_models.surrogate_model import SurrogateModel
 from smt.utils.caching import cached_operation
+from smt.utils.checks import check_nx
 
 from smt.surrogate_models.idwclib import PyIDW
 
@@ -41,10 +42,13 @@ class IDW(SurrogateModel):
         supports["output_derivatives"] = True
 
     def _setup(self):
-        xt = self.training_points[None][0][0]
+        xt, self.yt = self.training_points[None][0]
         nt = xt.shape[0]
         nx = xt.shape[1]
 
+        # sizes of the trained model
+        self.num = {"x": nx, "y": self.yt.shape[1], "t": nt}
+
         self.idwc = PyIDW()
         self.idwc.setup(nx, nt, self.options["p"], xt.flatten())
 
@@ -81,10 +85,11 @@ class IDW(SurrogateModel):
         """
         This function is used by _predict function. See _predict for more details.
         """
+        check_nx(self.num["x"], x)
         n = x.shape[0]
-        nt = self.nt
+        nt = self.num["t"]
 
-        yt = self.training_points[None][0][1]
+        yt = self.yt
 
         jac = np.empty(n * nt)
         self.idwc.compute_jac(n, x.flatten(), jac)
@@ -109,10 +114,11 @@ class IDW(SurrogateModel):
         dy_dx : np.ndarray
             Derivative values.
         """
+        check_nx(self.num["x"], x)
         n = x.shape[0]
-        nt = self.nt
+        nt = self.num["t"]
 
-        yt = self.training_points[None][0][1]
+        yt = self.yt
 
         jac = np.empty(n * nt)
         self.idwc.compute_jac_derivs(n, kx, x.flatten(), jac)
@@ -122,9 +128,10 @@ class IDW(SurrogateModel):
         return dy_dx
 
     def _predict_output_derivatives(self, x):
+        check_nx(self.num["x"], x)
         n = x.shape[0]
-        nt = self.nt
-        ny = self.training_points[None][0][1].shape[1]
+        nt = self.num["t"]
+        ny = self.num["y"]
 
         jac = np.empty(n * nt)
         self.idwc.compute_jac(n, x.flatten(), jac)
diff --git a/smt/surrogate_models/rbf.py b/smt/surrogate_models/rbf.py
index 76c7e78..1baf637 100644
--- a/smt/surrogate_models/rbf.py
+++ b/smt/surrogate_models/rbf.py
@@ -9,6 +9,7 @@ from smt.surrogate_models.surrogate_model import SurrogateModel
 
 from smt.utils.linear_solvers import get_solver
 from smt.utils.caching import cached_operation
+from smt.utils.checks import check_nx
 
 from smt.surrogate_models.rbfclib import PyRBF
 
@@ -160,6 +161,7 @@ class RBF(SurrogateModel):
         y : np.ndarray
             Evaluation point output variable values
         """
+        check_nx(self.num["x"], x)
         n = x.shape[0]
         num = self.num
 
@@ -186,6 +188,7 @@ class RBF(SurrogateModel):
         dy_dx : np.ndarray
             Derivative values.
         """
+        check_nx(self.num["x"], x)
         n = x.shape[0]
         num = self.num
 
@@ -197,9 +200,10 @@ class RBF(SurrogateModel):
         return dy_dx
 
     def _predict_output_derivatives(self, x):
+        check_nx(self.num["x"], x)
         n = x.shape[0]
-        nt = self.nt
-        ny = self.training_points[None][0][1].shape[1]
+        nt = self.num["radial"]
+        ny = self.num["y"]
         num = self.num
 
         dy_dstates = np.empty(n * num["dof"])
@@ -208,9 +212,9 @@ class RBF(SurrogateModel):
 
         dstates_dytl = np.linalg.inv(self.mtx)
 
-        ones = np.ones(self.nt)
-        arange = np.arange(self.nt)
-        dytl_dyt = csc_matrix((ones, (arange, arange)), shape=(num["dof"], self.nt))
+        ones = np.ones(nt)
+        arange = np.arange(nt)
+        dytl_dyt = csc_matrix((ones, (arange, arange)), shape=(num["dof"], nt))
 
         dy_dyt = (dytl_dyt.T.dot(dstates_dytl.T).dot(dy_dstates.T)).T
         dy_dyt = np.einsum("ij,k->ijk", dy_dyt, np.ones(ny))
diff --git a/smt/surrogate_models/rmts.py b/smt/surrogate_models/rmts.py
index ade144a..753504c 100644
--- a/smt/surrogate_models/rmts.py
+++ b/smt/surrogate_models/rmts.py
@@ -10,6 +10,7 @@ from numbers import Integral
 from smt.utils.linear_solvers import get_solver, LinearSolver, VALID_SOLVERS
 from smt.utils.line_search import get_line_search_class, LineSearch, VALID_LINE_SEARCHES
 from smt.utils.caching import cached_operation
+from smt.utils.checks import check_nx
 from smt.surrogate_models.surrogate_model import SurrogateModel
 
 
@@ -490,6 +491,7 @@ class RMTS(SurrogateModel):
         return y
 
     def _compute_prediction_mtx(self, x, kx):
+        check_nx(self.num["x"], x)
         n = x.shape[0]
 
         num = self.num
-- 
2.43.0


From 0eb29c7dc2073b725c2801ec176dd9e803bf6cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:06 +0000
Subject: [PATCH 094/104] fix: MGP could not be trained when the best
 projection is zero

---
 smt/surrogate_models/krg_mgp.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/smt/surrogate_models/krg_mgp.py b/smt/surrogate_models/krg_mgp.py
index bc31c74..6680236 100644
--- a/smt/surrogate_models/krg_mgp.py
+++ b/smt/surrogate_models/krg_mgp.py
@@ -480,7 +480,11 @@ class MGP(KrgBased):
         A = np.reshape(self.optimal_theta, (self.options["n_comp"], self.nx)).T
         B = (A.T / self.X_scale).T
         norm_B = np.linalg.norm(B)
-        C = B / norm_B
+        if norm_B == 0.0:
+            # no input is active: all embeddings are equivalent
+            C = np.eye(B.shape[0], B.shape[1])
+        else:
+            C = B / norm_B
 
         self.embedding = {}
         self.embedding["A"] = A
@@ -496,7 +500,7 @@ class MGP(KrgBased):
         svd = linalg.svd(A)
         svd_cumsum = np.cumsum(svd[1])
         svd_sum = np.sum(svd[1])
-        self.best_ncomp = min(np.argwhere(svd_cumsum > 0.99 * svd_sum)) + 1
+        self.best_ncomp = min(np.argwhere(svd_cumsum >= 0.99 * svd_sum)) + 1
 
     def _check_param(self):
         """
-- 
2.43.0


From 5e6250132b8c7a998525e95a24d581b099335040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:44 +0000
Subject: [PATCH 095/104] fix: solve each output with its own system in
 predict_output_derivatives when derivative_solver is an object

---
 smt/surrogate_models/rmts.py | 35 ++++++++++++++++-------------------
 1 file changed, 16 insertions(+), 19 deletions(-)

diff --git a/smt/surrogate_models/rmts.py b/smt/surrogate_models/rmts.py
index 753504c..63db880 100644
--- a/smt/surrogate_models/rmts.py
+++ b/smt/surrogate_models/rmts.py
@@ -563,34 +563,31 @@ class RMTS(SurrogateModel):
             dy_dw = dy_dw * self.full_dof2coeff
         dy_dw = dy_dw.todense()
 
-        # The system matrix depends on the output when approx_order > 2.
-        solvers = []
+        dw_dyt_dict = {}
+        for kx in self.training_points[None]:
+            nt = self.training_points[None][kx][0].shape[0]
+            dw_dyt_dict[kx] = np.zeros((nw, nt, ny))
+
+        # The system matrix depends on the output when approx_order > 2, and the
+        # option may be a solver object, which holds one matrix at a time.
+        solver = get_solver(self.options["derivative_solver"])
         for ind_y in range(ny):
             yt_dict = self._get_yt_dict(ind_y)
             dR_dw = self._opt_hess(self.sol[:, ind_y], p, yt_dict)
-            solver = get_solver(self.options["derivative_solver"])
             solver._setup(dR_dw, self.printer)
-            solvers.append(solver)
-
-        dy_dyt = {}
-        for kx in self.training_points[None]:
-            nt = self.training_points[None][kx][0].shape[0]
 
-            dR_dyt = np.zeros((nw, nt, ny))
-            for ind_y in range(ny):
-                yt_dict = self._get_yt_dict(ind_y)
-                dR_dyt[:, :, ind_y] = self._opt_dgrad_dyt(
-                    self.sol[:, ind_y], p, yt_dict, kx
+            for kx, dw_dyt in dw_dyt_dict.items():
+                dR_dyt = np.array(
+                    self._opt_dgrad_dyt(self.sol[:, ind_y], p, yt_dict, kx)
                 )
-
-            dw_dyt = np.zeros((nw, nt, ny))
-            for ind_t in range(nt):
-                for ind_y in range(ny):
-                    solvers[ind_y]._solve(
-                        dR_dyt[:, ind_t, ind_y], dw_dyt[:, ind_t, ind_y], ind_y=ind_y
+                for ind_t in range(dR_dyt.shape[1]):
+                    solver._solve(
+                        dR_dyt[:, ind_t], dw_dyt[:, ind_t, ind_y], ind_y=ind_y
                     )
                     dw_dyt[:, ind_t, ind_y] *= -1.0
 
+        dy_dyt = {}
+        for kx, dw_dyt in dw_dyt_dict.items():
             if kx == 0:
                 dy_dyt[None] = np.einsum("ij,jkl->ikl", dy_dw, dw_dyt)
             else:
-- 
2.43.0


From fa348b4833bc15fb29c0649fcfcc1c94a68178d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:05 +0000
Subject: [PATCH 096/104] fix: MFK and MGP declared derivatives that they do
 not provide

---
 smt/applications/mfk.py         | 1 +
 smt/surrogate_models/krg_mgp.py | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/smt/applications/mfk.py b/smt/applications/mfk.py
index 7992e49..c82dfb3 100644
--- a/smt/applications/mfk.py
+++ b/smt/applications/mfk.py
@@ -107,6 +107,7 @@ class NestedLHS(object):
 class MFK(KrgBased):
     def _initialize(self):
         super(MFK, self)._initialize()
+        self.supports["variance_derivatives"] = False
         declare = self.options.declare
         declare(
             "rho_regr",
diff --git a/smt/surrogate_models/krg_mgp.py b/smt/surrogate_models/krg_mgp.py
index 6680236..323f374 100644
--- a/smt/surrogate_models/krg_mgp.py
+++ b/smt/surrogate_models/krg_mgp.py
@@ -27,6 +27,8 @@ class MGP(KrgBased):
 
         """
         super(MGP, self)._initialize()
+        self.supports["derivatives"] = False
+        self.supports["variance_derivatives"] = False
         declare = self.options.declare
         declare("n_comp", 1, types=int, desc="Number of active dimensions")
         declare(
-- 
2.43.0


From 803610412b4c07a582b72d07636f0420335cb072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:54 +0000
Subject: [PATCH 097/104] fix: MixedIntegerSurrogateModel claimed features it
 does not forward

---
 smt/applications/mixed_integer.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/smt/applications/mixed_integer.py b/smt/applications/mixed_integer.py
index e85bc30..61de4fd 100644
--- a/smt/applications/mixed_integer.py
+++ b/smt/applications/mixed_integer.py
@@ -272,16 +272,14 @@ class MixedIntegerSurrogateModel(SurrogateModel):
         self._xtypes = xtypes
         self._xlimits = xlimits
         self._input_in_folded_space = input_in_folded_space
-        self.supports = self._surrogate.supports
+        # of what the surrogate supports, only the variances are forwarded
+        self.supports["variances"] = self._surrogate.supports["variances"]
         self.options["print_global"] = False
 
     @property
     def name(self):
         return "MixedInteger" + self._surrogate.name
 
-    def _initialize(self):
-        self.supports["derivatives"] = False
-
     def _check_nx(self, x):
         if self._input_in_folded_space:
             check_nx(len(self._xtypes), x)
-- 
2.43.0


From 353751b8cb0018a0608d90dc1f85b7eb75859ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:11 +0000
Subject: [PATCH 098/104] fix: Krylov solver overflowed when iterating far
 below round-off

---
 smt/utils/linear_solvers.py | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/smt/utils/linear_solvers.py b/smt/utils/linear_solvers.py
index 5f772ac..b4966f3 100644
--- a/smt/utils/linear_solvers.py
+++ b/smt/utils/linear_solvers.py
@@ -54,6 +54,10 @@ def get_solver(solver):
         return None
 
 
+class _Diverged(Exception):
+    """Raised to stop iterations that move away from their best iterate."""
+
+
 class Callback(object):
     def __init__(self, size, string, interval, printer):
         self.size = size
@@ -98,6 +102,11 @@ class Callback(object):
             self.best_norm = norm
             self.best_sol = np.array(sol)
         self._print_norm(norm)
+        return norm
+
+    def _print_krylov_sol(self, sol):
+        if self._print_sol(sol) > 1e20 * self.best_norm:
+            raise _Diverged()
 
 
 class LinearSolver(object):
@@ -265,7 +274,7 @@ class KrylovSolver(LinearSolver):
             )
             if self.options["solver"] == "cg":
                 self.solver = scipy.sparse.linalg.cg
-                self.callback_func = self.callback._print_sol
+                self.callback_func = self.callback._print_krylov_sol
                 self.solver_kwargs = {
                     "atol": "legacy",
                     "tol": self.options["atol"],
@@ -273,7 +282,7 @@ class KrylovSolver(LinearSolver):
                 }
             elif self.options["solver"] == "bicgstab":
                 self.solver = scipy.sparse.linalg.bicgstab
-                self.callback_func = self.callback._print_sol
+                self.callback_func = self.callback._print_krylov_sol
                 self.solver_kwargs = {
                     "tol": self.options["atol"],
                     "maxiter": self.options["ilimit"],
@@ -307,14 +316,18 @@ class KrylovSolver(LinearSolver):
                 self.callback.best_sol = None
 
                 self.callback._print_sol(sol)
-                tmp, info = self.solver(
-                    self.mtx,
-                    rhs,
-                    x0=sol,
-                    M=self.pc_op,
-                    callback=self.callback_func,
-                    **self.solver_kwargs
-                )
+                try:
+                    tmp, info = self.solver(
+                        self.mtx,
+                        rhs,
+                        x0=sol,
+                        M=self.pc_op,
+                        callback=self.callback_func,
+                        **self.solver_kwargs
+                    )
+                except _Diverged:
+                    # iterating below round-off would end in an overflow
+                    tmp = self.callback.best_sol
 
                 # The tolerance can be below the attainable accuracy; the iterates
                 # then drift away again, so return the best one instead of the last
-- 
2.43.0


From 0477a39dbdf08db605972b366f4c9cc4ef8618ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:38 +0000
Subject: [PATCH 099/104] fix: WeldedBeam used l / 12 instead of l ** 2 / 12

---
 smt/problems/welded_beam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smt/problems/welded_beam.py b/smt/problems/welded_beam.py
index a2f8341..b0e5f85 100644
--- a/smt/problems/welded_beam.py
+++ b/smt/problems/welded_beam.py
@@ -57,7 +57,7 @@ class WeldedBeam(Problem):
                 6000
                 * (14 + 0.5 * x2)
                 * np.sqrt(0.25 * (x2 ** 2 + (x1 + x0) ** 2))
-                / (2 * (0.707 * x1 * x2 * (x2 / 12.0 + 0.25 * (x1 + x0) ** 2)))
+                / (2 * (0.707 * x1 * x2 * (x2 ** 2 / 12.0 + 0.25 * (x1 + x0) ** 2)))
             )
             return np.sqrt(
                 tau1 ** 2
-- 
2.43.0


From 5a44757372d19c2096f8e757655fa02719f990bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:21 +0000
Subject: [PATCH 100/104] fix: mixture of experts could not be trained on
 inputs of very different magnitudes

---
 smt/applications/moe.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/smt/applications/moe.py b/smt/applications/moe.py
index e4f5b00..bf20f33 100644
--- a/smt/applications/moe.py
+++ b/smt/applications/moe.py
@@ -42,6 +42,22 @@ MOE_EXPERT_NAMES = [
 ]
 
 
+class _ScaledNormal(object):
+    """
+    Multivariate normal distribution evaluated with inputs scaled to unit variances,
+    as inputs of different magnitudes make the covariance numerically singular.
+    """
+
+    def __init__(self, mean, cov):
+        self.mean = mean
+        self.scale = np.sqrt(np.diag(cov))
+        self.normal = multivariate_normal(cov=cov / np.outer(self.scale, self.scale))
+
+    def logpdf(self, x):
+        z = (x - self.mean) / self.scale
+        return self.normal.logpdf(z) - np.sum(np.log(self.scale))
+
+
 class MOESurrogateModel(SurrogateModel):
     """Wrapper class exposing MOE features as a SurrogateModel subclass."""
 
@@ -637,8 +653,7 @@ class MOE(SurrogateBasedApplication):
         for k in range(self.n_clusters):
             meansk = means[k][0:dim]
             covk = cov[k][0:dim, 0:dim]
-            mvn = multivariate_normal(meansk, covk)
-            distribs.append(mvn)
+            distribs.append(_ScaledNormal(meansk, covk))
         return distribs
 
     def _cluster_values(self, values, classifier):
-- 
2.43.0


From 7c79890ce57f7dd2fa0ca97b4e3b8db62ff518a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:21 +0000
Subject: [PATCH 101/104] fix: a refused call left its indentation on all later
 reports

---
 smt/utils/linear_solvers.py | 6 ++++--
 smt/utils/printer.py        | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/smt/utils/linear_solvers.py b/smt/utils/linear_solvers.py
index b4966f3..a7d47fd 100644
--- a/smt/utils/linear_solvers.py
+++ b/smt/utils/linear_solvers.py
@@ -139,8 +139,10 @@ class LinearSolver(object):
         orig_active = self.printer.active
 
         self.printer.active = self.printer.active and active
-        yield self.printer
-        self.printer.active = orig_active
+        try:
+            yield self.printer
+        finally:
+            self.printer.active = orig_active
 
 
 class NullSolver(LinearSolver):
diff --git a/smt/utils/printer.py b/smt/utils/printer.py
index 9377a60..30fa354 100644
--- a/smt/utils/printer.py
+++ b/smt/utils/printer.py
@@ -117,8 +117,10 @@ class Printer(object):
 
         start_time = time.time()
         self.depth += 1
-        yield
-        self.depth -= 1
+        try:
+            yield
+        finally:
+            self.depth -= 1
         stop_time = time.time()
 
         if string is not None:
-- 
2.43.0


From 514db102fcc9db5931117b738e0f695e678d14ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:36 +0000
Subject: [PATCH 102/104] fix: print_solver and, for output derivatives,
 print_global and print_prediction were ignored

---
 smt/surrogate_models/surrogate_model.py | 5 +++++
 smt/utils/linear_solvers.py             | 4 +++-
 smt/utils/printer.py                    | 3 +++
 3 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/smt/surrogate_models/surrogate_model.py b/smt/surrogate_models/surrogate_model.py
index 545cbcc..d6180a3 100644
--- a/smt/surrogate_models/surrogate_model.py
+++ b/smt/surrogate_models/surrogate_model.py
@@ -249,6 +249,7 @@ class SurrogateModel(object, metaclass=ABCMeta):
         n_exact = self.training_points[None][0][0].shape[0]
 
         self.printer.active = self.options["print_global"]
+        self.printer.solver_active = self.options["print_solver"]
         self.printer._line_break()
         self.printer._center(self.name)
 
@@ -373,6 +374,10 @@ class SurrogateModel(object, metaclass=ABCMeta):
         check_support(self, "output_derivatives")
         x = ensure_2d_array(x, "x")
         check_nx(self.nx, x)
+        self.printer.active = (
+            self.options["print_global"] and self.options["print_prediction"]
+        )
+        self.printer.solver_active = self.options["print_solver"]
 
         dy_dyt = self._predict_output_derivatives(x)
         return dy_dyt
diff --git a/smt/utils/linear_solvers.py b/smt/utils/linear_solvers.py
index a7d47fd..18a0b90 100644
--- a/smt/utils/linear_solvers.py
+++ b/smt/utils/linear_solvers.py
@@ -138,7 +138,9 @@ class LinearSolver(object):
     def _active(self, active):
         orig_active = self.printer.active
 
-        self.printer.active = self.printer.active and active
+        self.printer.active = (
+            self.printer.active and self.printer.solver_active and active
+        )
         try:
             yield self.printer
         finally:
diff --git a/smt/utils/printer.py b/smt/utils/printer.py
index 30fa354..efafd33 100644
--- a/smt/utils/printer.py
+++ b/smt/utils/printer.py
@@ -16,6 +16,8 @@ class Printer(object):
     ----------
     active : bool
         If False, the printer is in a state in which printing is suppressed.
+    solver_active : bool
+        If False, linear solvers print nothing.
     depth : int
         Current level of nesting of the code, affecting the degree of indentation of prints.
     max_print_depth : int
@@ -26,6 +28,7 @@ class Printer(object):
 
     def __init__(self):
         self.active = False
+        self.solver_active = True
         self.depth = 1
         self.max_print_depth = 100
         self.times = {}
-- 
2.43.0


From ac17afa02ea55a24dc5f86907893e419d4169e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:28 +0000
Subject: [PATCH 103/104] fix: RMTS accepted xlimits with more rows than inputs
 or more than two columns

---
 smt/surrogate_models/rmts.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/smt/surrogate_models/rmts.py b/smt/surrogate_models/rmts.py
index 63db880..c10f8f8 100644
--- a/smt/surrogate_models/rmts.py
+++ b/smt/surrogate_models/rmts.py
@@ -425,6 +425,9 @@ class RMTS(SurrogateModel):
         """
         Train the model
         """
+        nx = self.training_points[None][0][0].shape[1]
+        if np.shape(self.options["xlimits"]) != (nx, 2):
+            raise ValueError("xlimits should be of shape (%i, 2)" % nx)
         self._setup()
 
         tmp = self.rmtsc
-- 
2.43.0


From f87a6c0de929c37f4e444cf56e48ad05f34006e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:57 +0000
Subject: [PATCH 104/104] fix: TNC search stopped with a KeyError where the
 correlation matrix could not be factorised

---
 smt/surrogate_models/krg_based.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/smt/surrogate_models/krg_based.py b/smt/surrogate_models/krg_based.py
index a6a126b..98823cb 100644
--- a/smt/surrogate_models/krg_based.py
+++ b/smt/surrogate_models/krg_based.py
@@ -382,6 +382,9 @@ class KrgBased(SurrogateModel):
             List of all sigma derivatives
         """
         red, par = self._reduced_likelihood_function(theta)
+        if not par:
+            # ill-conditioned correlation matrix: there is no slope to follow
+            return np.zeros((len(theta), 1)), par
 
         C = par["C"]
         gamma = par["gamma"]
-- 
2.43.0

