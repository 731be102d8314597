From fcc82551aab698d14fbda2e5d0cda352c99bd0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:57 +0000
Subject: [PATCH 01/52] fix: terminal_bounds returned the regular state bounds

---
 do_mpc/controller/_mpc.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/do_mpc/controller/_mpc.py b/do_mpc/controller/_mpc.py
index ec19579..3f01fd1 100644
--- a/do_mpc/controller/_mpc.py
+++ b/do_mpc/controller/_mpc.py
@@ -431,10 +431,10 @@ class MPC(do_mpc.optimizer.Optimizer, do_mpc.model.IteratedVariables):
         assert bound_type in ('lower', 'upper'), err_msg.format(bound_type)
 
         if bound_type == 'lower':
-            query = '{var_type}_{bound_type}'.format(var_type="_x", bound_type='lb')
+            query = '_x_terminal_lb'
         elif bound_type == 'upper':
-            query = '{var_type}_{bound_type}'.format(var_type="_x", bound_type='ub')
-        # query results string e.g. _x_lb, _x_ub
+            query = '_x_terminal_ub'
+        # query results string e.g. _x_terminal_lb, _x_terminal_ub
 
         # Get the desired struct:
         var_struct = getattr(self, query)
-- 
2.43.0


From 7650570bf8e78f9c9e04f2948e85971ca3cb9d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:57 +0000
Subject: [PATCH 02/52] fix: terminal_bounds set after setup changed the state
 bounds and did not reach the solver

---
 do_mpc/controller/_mpc.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/do_mpc/controller/_mpc.py b/do_mpc/controller/_mpc.py
index 3f01fd1..fb48230 100644
--- a/do_mpc/controller/_mpc.py
+++ b/do_mpc/controller/_mpc.py
@@ -467,9 +467,18 @@ class MPC(do_mpc.optimizer.Optimizer, do_mpc.model.IteratedVariables):
         err_msg = 'Calling .bounds with {} is not valid. Possible keys are {}.'
         assert (var_name[0] if isinstance(var_name, tuple) else var_name) in var_struct.keys(), err_msg.format(ind, var_struct.keys())
 
+        # The default terminal bounds are the state bounds. These must not be changed here.
+        if var_struct is self._x_lb or var_struct is self._x_ub:
+            var_struct = self.model._x(var_struct)
+            setattr(self, query, var_struct)
+
         # Set value on struct:
         var_struct[var_name] = val
 
+        # Update bounds of optimization variables, if the problem is already created:
+        if self.flags['prepare_nlp']:
+            self._update_bounds()
+
     def set_param(self, **kwargs)->None:
         """Set the parameters of the :py:class:`MPC` class. Parameters must be passed as pairs of valid keywords and respective argument.
         
-- 
2.43.0


From aa431eec233ab9e253801960b483a95e5cefd43e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:57 +0000
Subject: [PATCH 03/52] fix: compile_nlp raised NameError

---
 do_mpc/optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/do_mpc/optimizer.py b/do_mpc/optimizer.py
index 4a2dff7..f94b24f 100644
--- a/do_mpc/optimizer.py
+++ b/do_mpc/optimizer.py
@@ -725,7 +725,7 @@ class Optimizer:
             subprocess.Popen(compiler_command, shell=True).wait()
 
         # Overwrite solver object with loaded nlp:
-        self.S = nlpsol('solver_compiled', 'ipopt', libname, self.settings.nlpsol_opts)
+        self.S = castools.nlpsol('solver_compiled', 'ipopt', libname, self.settings.nlpsol_opts)
         print('Using compiled NLP solver.')
 
     def solve(self)->None:
-- 
2.43.0


From 781d678880f3a0adcc81423b3f98f5706fb5770a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:29 +0000
Subject: [PATCH 04/52] fix: MHE used scaled parameter estimates in
 measurement, cost, constraint and auxiliary functions

---
 do_mpc/estimator/_mhe.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/do_mpc/estimator/_mhe.py b/do_mpc/estimator/_mhe.py
index 8b77e9a..2fc8314 100644
--- a/do_mpc/estimator/_mhe.py
+++ b/do_mpc/estimator/_mhe.py
@@ -1112,6 +1112,8 @@ class MHE(Optimizer, Estimator):
 
         # Get concatenated parameters vector containing the estimated and fixed parameters (scaled)
         _p = self._p_cat_fun(opt_x['_p_est'], opt_p['_p_set']/self._p_set_scaling)
+        # ... and the same vector with physical (unscaled) values
+        _p_unscaled = self._p_cat_fun(opt_x_unscaled['_p_est'], opt_p['_p_set'])
 
         # For all control intervals
         for k in range(self.settings.n_horizon):
@@ -1124,7 +1126,7 @@ class MHE(Optimizer, Estimator):
 
             # Compute current measurement
             yk_calc = self.model._meas_fun(opt_x_unscaled['_x', k+1, -1], opt_x_unscaled['_u', k], opt_x_unscaled['_z', k, 0],
-                opt_p['_tvp', k], _p, opt_x_unscaled['_v', k])
+                opt_p['_tvp', k], _p_unscaled, opt_x_unscaled['_v', k])
 
             # Add the collocation equations
             cons.append(g_ksb)
@@ -1147,7 +1149,7 @@ class MHE(Optimizer, Estimator):
                 for i in range(n_total_coll_points):
                     nl_cons_k = self._nl_cons_fun(
                         opt_x_unscaled['_x', k, i], opt_x_unscaled['_u', k], opt_x_unscaled['_z', k, i],
-                        opt_p['_tvp', k], opt_x['_p_est'], opt_p['_p_set'], opt_x_unscaled['_eps', k_eps])
+                        opt_p['_tvp', k], opt_x_unscaled['_p_est'], opt_p['_p_set'], opt_x_unscaled['_eps', k_eps])
                     cons.append(nl_cons_k)
                     cons_lb.append(self._nl_cons_lb)
                     cons_ub.append(self._nl_cons_ub)
@@ -1155,7 +1157,7 @@ class MHE(Optimizer, Estimator):
                 # Ensure nonlinear constraints only on the beginning of the FE
                 nl_cons_k = self._nl_cons_fun(
                     opt_x_unscaled['_x', k, -1], opt_x_unscaled['_u', k], opt_x_unscaled['_z', k, 0],
-                    opt_p['_tvp', k], opt_x['_p_est'], opt_p['_p_set'], opt_x_unscaled['_eps', k_eps])
+                    opt_p['_tvp', k], opt_x_unscaled['_p_est'], opt_p['_p_set'], opt_x_unscaled['_eps', k_eps])
                 cons.append(nl_cons_k)
                 cons_lb.append(self._nl_cons_lb)
                 cons_ub.append(self._nl_cons_ub)
@@ -1165,7 +1167,7 @@ class MHE(Optimizer, Estimator):
             cons_ub.append(self._nl_cons_ub)
 
             obj += self.stage_cost_fun(
-                opt_x_unscaled['_w', k], opt_x_unscaled['_v', k], opt_p['_tvp', k], _p
+                opt_x_unscaled['_w', k], opt_x_unscaled['_v', k], opt_p['_tvp', k], _p_unscaled
             )
 
             # Add slack variables to the cost
@@ -1174,7 +1176,7 @@ class MHE(Optimizer, Estimator):
 
             # Calculate the auxiliary expressions for the current scenario:
             opt_aux['_aux', k] = self.model._aux_expression_fun(
-                opt_x_unscaled['_x', k, -1], opt_x_unscaled['_u', k], opt_x_unscaled['_z', k, -1], opt_p['_tvp', k], _p)
+                opt_x_unscaled['_x', k, -1], opt_x_unscaled['_u', k], opt_x_unscaled['_z', k, -1], opt_p['_tvp', k], _p_unscaled)
 
         self._update_bounds()
 
-- 
2.43.0


From a135fdcb2dbb82b344099bd2ed9a142dcdc1463c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:29 +0000
Subject: [PATCH 05/52] fix: user defined rterm received scaled previous inputs

---
 do_mpc/controller/_mpc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/do_mpc/controller/_mpc.py b/do_mpc/controller/_mpc.py
index fb48230..1d31ff7 100644
--- a/do_mpc/controller/_mpc.py
+++ b/do_mpc/controller/_mpc.py
@@ -1251,10 +1251,10 @@ class MPC(do_mpc.optimizer.Optimizer, do_mpc.model.IteratedVariables):
                     # For user defined penalty term
                     if self.flags['rterm_fun'] == True:
                         if k==0:
-                            obj += self.rterm_fun(opt_x_unscaled['_x', k, s, -1], opt_x_unscaled['_u', k, s_u], opt_p['_u_prev']/self._u_scaling,
+                            obj += self.rterm_fun(opt_x_unscaled['_x', k, s, -1], opt_x_unscaled['_u', k, s_u], opt_p['_u_prev'],
                                                      opt_x_unscaled['_z', k, s, -1], opt_p['_tvp', k], opt_p['_p', current_scenario])
                         else:
-                            obj += self.rterm_fun(opt_x_unscaled['_x', k, s, -1], opt_x_unscaled['_u', k, s_u], opt_x['_u', k-1, parent_scenario[k][s_u]],
+                            obj += self.rterm_fun(opt_x_unscaled['_x', k, s, -1], opt_x_unscaled['_u', k, s_u], opt_x_unscaled['_u', k-1, parent_scenario[k][s_u]],
                                                      opt_x_unscaled['_z', k, s, -1], opt_p['_tvp', k], opt_p['_p', current_scenario])
                     # Default penalty term
                     if self.flags['rterm_fun'] == False:
-- 
2.43.0


From 3db7a25b4feb240d0ac0198905a4dc217d5137b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:29 +0000
Subject: [PATCH 06/52] fix: nonlinear constraints at collocation points used
 states of the previous interval (and vanished for discrete models)

---
 do_mpc/controller/_mpc.py | 6 ++++--
 do_mpc/estimator/_mhe.py  | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/do_mpc/controller/_mpc.py b/do_mpc/controller/_mpc.py
index 1d31ff7..14c0f95 100644
--- a/do_mpc/controller/_mpc.py
+++ b/do_mpc/controller/_mpc.py
@@ -1215,11 +1215,13 @@ class MPC(do_mpc.optimizer.Optimizer, do_mpc.model.IteratedVariables):
                     cons_ub.append(np.zeros((self.model.n_x, 1)))
 
                     k_eps = min(k, n_eps-1)
-                    if self._settings.nl_cons_check_colloc_points:
+                    if self._settings.nl_cons_check_colloc_points and n_total_coll_points > 0:
                         # Ensure nonlinear constraints on all collocation points
                         for i in range(n_total_coll_points):
+                            # The first point is the node itself, the others are stored with the child node.
+                            x_ki = opt_x_unscaled['_x', k, s, -1] if i == 0 else opt_x_unscaled['_x', k+1, child_scenario[k][s][b], i-1]
                             nl_cons_k = self._nl_cons_fun(
-                                opt_x_unscaled['_x', k, s, i], opt_x_unscaled['_u', k, s_u], opt_x_unscaled['_z', k, s, i],
+                                x_ki, opt_x_unscaled['_u', k, s_u], opt_x_unscaled['_z', k, child_scenario[k][s][b], i],
                                 opt_p['_tvp', k], opt_p['_p', current_scenario], opt_x_unscaled['_eps', k_eps, s])
                             cons.append(nl_cons_k)
                             cons_lb.append(self._nl_cons_lb)
diff --git a/do_mpc/estimator/_mhe.py b/do_mpc/estimator/_mhe.py
index 2fc8314..186fbb1 100644
--- a/do_mpc/estimator/_mhe.py
+++ b/do_mpc/estimator/_mhe.py
@@ -1144,11 +1144,13 @@ class MHE(Optimizer, Estimator):
             cons_ub.append(np.zeros((self.model.n_y, 1)))
 
             k_eps = min(k, n_eps-1)
-            if self.settings.nl_cons_check_colloc_points:
+            if self.settings.nl_cons_check_colloc_points and n_total_coll_points > 0:
                 # Ensure nonlinear constraints on all collocation points
                 for i in range(n_total_coll_points):
+                    # The first point is the initial point of the interval, the others are stored with the next one.
+                    x_ki = opt_x_unscaled['_x', k, -1] if i == 0 else opt_x_unscaled['_x', k+1, i-1]
                     nl_cons_k = self._nl_cons_fun(
-                        opt_x_unscaled['_x', k, i], opt_x_unscaled['_u', k], opt_x_unscaled['_z', k, i],
+                        x_ki, opt_x_unscaled['_u', k], opt_x_unscaled['_z', k, i],
                         opt_p['_tvp', k], opt_x_unscaled['_p_est'], opt_p['_p_set'], opt_x_unscaled['_eps', k_eps])
                     cons.append(nl_cons_k)
                     cons_lb.append(self._nl_cons_lb)
-- 
2.43.0


From f05ca65531ad58d25d13c8ea7322055d48cc9c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:29 +0000
Subject: [PATCH 07/52] fix: MPC stage functions used algebraic states (and the
 terminal cost states) of another branch

---
 do_mpc/controller/_mpc.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/do_mpc/controller/_mpc.py b/do_mpc/controller/_mpc.py
index 14c0f95..33a2de0 100644
--- a/do_mpc/controller/_mpc.py
+++ b/do_mpc/controller/_mpc.py
@@ -1229,7 +1229,7 @@ class MPC(do_mpc.optimizer.Optimizer, do_mpc.model.IteratedVariables):
                     else:
                         # Ensure nonlinear constraints only on the beginning of the FE
                         nl_cons_k = self._nl_cons_fun(
-                            opt_x_unscaled['_x', k, s, -1], opt_x_unscaled['_u', k, s_u], opt_x_unscaled['_z', k, s, 0],
+                            opt_x_unscaled['_x', k, s, -1], opt_x_unscaled['_u', k, s_u], opt_x_unscaled['_z', k, child_scenario[k][s][b], 0],
                             opt_p['_tvp', k], opt_p['_p', current_scenario], opt_x_unscaled['_eps', k_eps, s])
                         cons.append(nl_cons_k)
                         cons_lb.append(self._nl_cons_lb)
@@ -1240,13 +1240,13 @@ class MPC(do_mpc.optimizer.Optimizer, do_mpc.model.IteratedVariables):
 
                     # Add contribution to the cost
                     obj += omega[k] * self.lterm_fun(opt_x_unscaled['_x', k, s, -1], opt_x_unscaled['_u', k, s_u],
-                                                     opt_x_unscaled['_z', k, s, -1], opt_p['_tvp', k], opt_p['_p', current_scenario])
+                                                     opt_x_unscaled['_z', k, child_scenario[k][s][b], -1], opt_p['_tvp', k], opt_p['_p', current_scenario])
                     # Add slack variables to the cost
                     obj += self.epsterm_fun(opt_x_unscaled['_eps', k_eps, s])
 
                     # In the last step add the terminal cost too
                     if k == self._settings.n_horizon - 1:
-                        obj += omega[k] * self.mterm_fun(opt_x_unscaled['_x', k + 1, s, -1], opt_p['_tvp', k+1],
+                        obj += omega[k] * self.mterm_fun(opt_x_unscaled['_x', k + 1, child_scenario[k][s][b], -1], opt_p['_tvp', k+1],
                                                          opt_p['_p', current_scenario])
 
                     # U regularization:
@@ -1254,10 +1254,10 @@ class MPC(do_mpc.optimizer.Optimizer, do_mpc.model.IteratedVariables):
                     if self.flags['rterm_fun'] == True:
                         if k==0:
                             obj += self.rterm_fun(opt_x_unscaled['_x', k, s, -1], opt_x_unscaled['_u', k, s_u], opt_p['_u_prev'],
-                                                     opt_x_unscaled['_z', k, s, -1], opt_p['_tvp', k], opt_p['_p', current_scenario])
+                                                     opt_x_unscaled['_z', k, child_scenario[k][s][b], -1], opt_p['_tvp', k], opt_p['_p', current_scenario])
                         else:
                             obj += self.rterm_fun(opt_x_unscaled['_x', k, s, -1], opt_x_unscaled['_u', k, s_u], opt_x_unscaled['_u', k-1, parent_scenario[k][s_u]],
-                                                     opt_x_unscaled['_z', k, s, -1], opt_p['_tvp', k], opt_p['_p', current_scenario])
+                                                     opt_x_unscaled['_z', k, child_scenario[k][s][b], -1], opt_p['_tvp', k], opt_p['_p', current_scenario])
                     # Default penalty term
                     if self.flags['rterm_fun'] == False:
                         if k == 0:
@@ -1267,12 +1267,12 @@ class MPC(do_mpc.optimizer.Optimizer, do_mpc.model.IteratedVariables):
 
                     # Calculate the auxiliary expressions for the current scenario:
                     opt_aux['_aux', k, s] = self.model._aux_expression_fun(
-                        opt_x_unscaled['_x', k, s, -1], opt_x_unscaled['_u', k, s_u], opt_x_unscaled['_z', k, s, -1], opt_p['_tvp', k], opt_p['_p', current_scenario])
+                        opt_x_unscaled['_x', k, s, -1], opt_x_unscaled['_u', k, s_u], opt_x_unscaled['_z', k, child_scenario[k][s][b], -1], opt_p['_tvp', k], opt_p['_p', current_scenario])
 
                     # For some reason when working with MX, the "unused" aux values in the scenario tree must be set explicitly (they are not ever used...)
                 for s_ in range(n_scenarios[k],n_max_scenarios):
                     opt_aux['_aux', k, s_] = self.model._aux_expression_fun(
-                        opt_x_unscaled['_x', k, s, -1], opt_x_unscaled['_u', k, s_u], opt_x_unscaled['_z', k, s, -1], opt_p['_tvp', k], opt_p['_p', current_scenario])
+                        opt_x_unscaled['_x', k, s, -1], opt_x_unscaled['_u', k, s_u], opt_x_unscaled['_z', k, child_scenario[k][s][b], -1], opt_p['_tvp', k], opt_p['_p', current_scenario])
 
         # Set bounds for all optimization variables
         self._update_bounds()
-- 
2.43.0


From 57422b51dad0e74f5cd1839475cc8d0defb420b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:29 +0000
Subject: [PATCH 08/52] fix: MHE without bounds at collocation points left the
 last state (the estimate) unbounded

---
 do_mpc/estimator/_mhe.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/do_mpc/estimator/_mhe.py b/do_mpc/estimator/_mhe.py
index 186fbb1..81be6ed 100644
--- a/do_mpc/estimator/_mhe.py
+++ b/do_mpc/estimator/_mhe.py
@@ -1005,8 +1005,8 @@ class MHE(Optimizer, Estimator):
             self.ub_opt_x['_z'] = self._z_ub.cat
         else:   # Constraints only at the beginning of the finite Element
             # Bounds for the states on all discretize values along the horizon
-            self.lb_opt_x['_x', 1:self.settings.n_horizon, -1] = self._x_lb.cat
-            self.ub_opt_x['_x', 1:self.settings.n_horizon, -1] = self._x_ub.cat
+            self.lb_opt_x['_x', 1:, -1] = self._x_lb.cat
+            self.ub_opt_x['_x', 1:, -1] = self._x_ub.cat
 
             # Bounds for the algebraic states along the horizon
             self.lb_opt_x['_z', :, 0] = self._z_lb.cat
-- 
2.43.0


From 03cb53d03aadd05812cfc5fe702883dc784917de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:29 +0000
Subject: [PATCH 09/52] fix: slack cost accumulated when the problem was
 prepared again

---
 do_mpc/optimizer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/do_mpc/optimizer.py b/do_mpc/optimizer.py
index f94b24f..f3fe299 100644
--- a/do_mpc/optimizer.py
+++ b/do_mpc/optimizer.py
@@ -565,6 +565,7 @@ class Optimizer:
         self._eps_ub = _eps(np.inf)
 
         # Set bounds, add slack variable to constraint and add cost.
+        self.slack_cost = 0
         for slack_i in self.slack_vars_list:
             self._eps_ub[slack_i['slack_name']] = slack_i['ub']
             self._nl_cons[slack_i['slack_name']] -= self._eps[slack_i['slack_name']]
-- 
2.43.0


From 5bf79027661ede34af7676b4503230b8fbea36f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:29 +0000
Subject: [PATCH 10/52] fix: MHE did not check the bounds of the estimated
 parameters

---
 do_mpc/estimator/_mhe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/do_mpc/estimator/_mhe.py b/do_mpc/estimator/_mhe.py
index 81be6ed..dd8fea5 100644
--- a/do_mpc/estimator/_mhe.py
+++ b/do_mpc/estimator/_mhe.py
@@ -817,7 +817,7 @@ class MHE(Optimizer, Estimator):
 
 
         # Lower bounds should be lower than upper bounds:
-        for lb, ub in zip([self._x_lb, self._u_lb, self._z_lb], [self._x_ub, self._u_ub, self._z_ub]):
+        for lb, ub in zip([self._x_lb, self._u_lb, self._z_lb, self._p_est_lb], [self._x_ub, self._u_ub, self._z_ub, self._p_est_ub]):
             bound_check = lb.cat > ub.cat
             bound_fail = [label_i for i,label_i in enumerate(lb.labels()) if bound_check[i]]
             if np.any(bound_check):
-- 
2.43.0


From b473b38d45f3c2c0cb2eb76a552289a648c2d23b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:50 +0000
Subject: [PATCH 11/52] fix: simulator recorded auxiliary expressions of the
 previous input and parameters

---
 do_mpc/simulator.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/do_mpc/simulator.py b/do_mpc/simulator.py
index 13426fc..aa504ab 100644
--- a/do_mpc/simulator.py
+++ b/do_mpc/simulator.py
@@ -675,11 +675,8 @@ class Simulator(do_mpc.model.IteratedVariables):
         self.sim_p_num['_tvp'] = tvp0
         self.sim_p_num['_w'] = w0
 
-        if self.flags['first_step']:
-            aux0 = self.sim_aux_expression_fun(x0, z0, self.sim_p_num)
-        else:
-            # .master is chosen so that a copy is created of the variables.
-            aux0 = self.sim_aux_num.master
+        # auxiliary expressions at the current time (current inputs and parameters)
+        aux0 = self.sim_aux_expression_fun(x0, z0, self.sim_p_num)
 
         x_next = self.simulate()
 
-- 
2.43.0


From 69fb6a3ebca609db23daa96661cead11944b75ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:49 +0000
Subject: [PATCH 12/52] fix: t0 could not be set with a casadi DM

---
 do_mpc/model/_iteratedvariables.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/do_mpc/model/_iteratedvariables.py b/do_mpc/model/_iteratedvariables.py
index 9a1d35e..22d6698 100644
--- a/do_mpc/model/_iteratedvariables.py
+++ b/do_mpc/model/_iteratedvariables.py
@@ -205,7 +205,7 @@ class IteratedVariables:
             assert val.size == 1, 'Cant set time with shape {}. Must contain exactly one element.'.format(val.size)
             self._t0 = val.flatten()
         elif isinstance(val, castools.DM):
-            assert val.size == 1, 'Cant set time with shape {}. Must contain exactly one element.'.format(val.size)
+            assert val.numel() == 1, 'Cant set time with shape {}. Must contain exactly one element.'.format(val.numel())
             self._t0 = val.full().flatten()
         else:
             types = (np.ndarray, float, int, castools.DM)
-- 
2.43.0


From 076eba2e96c41d179e125f3bb48ac18f8703e169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:01 +0000
Subject: [PATCH 13/52] fix: initial values set from a structure were shared
 with other do-mpc objects

---
 do_mpc/model/_iteratedvariables.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/do_mpc/model/_iteratedvariables.py b/do_mpc/model/_iteratedvariables.py
index 22d6698..2db51fb 100644
--- a/do_mpc/model/_iteratedvariables.py
+++ b/do_mpc/model/_iteratedvariables.py
@@ -48,7 +48,8 @@ class IteratedVariables:
         Pass ``val`` which can be an int, float, array, structure and return
         a numerical structure based on the second argument ``structure``.
 
-        If a structure is passed, return the structure unchanged.
+        The returned structure holds a copy of ``val``: the current iterates are updated in place
+        and must not be shared with the caller or with other do-mpc classes.
 
         Performs some sanity checks.
         """
@@ -63,11 +64,11 @@ class IteratedVariables:
         n_var = struct.size
         assert n_val == n_var, err_msg.format(n_val, n_var)
 
-        # Convert to structure (or return structure)
+        # Convert to structure
         if isinstance(val, (np.ndarray, castools.DM)):
-            val = struct(val)
+            val = struct(castools.DM(val))
         elif isinstance(val, castools.structure3.DMStruct):
-            pass
+            val = struct(castools.DM(val.cat))
         else:
             types = (np.ndarray, castools.DM, castools.structure3.DMStruct)
             raise Exception('x0 must be of tpye {}. You have: {}'.format(types, type(val)))
-- 
2.43.0


From 44e797f03d87eedd91ab10794f7b5551825cd727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:45 +0000
Subject: [PATCH 14/52] fix: storing text or dictionary solver statistics
 crashed

---
 do_mpc/data.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/do_mpc/data.py b/do_mpc/data.py
index dc49ea5..d6b66b7 100644
--- a/do_mpc/data.py
+++ b/do_mpc/data.py
@@ -208,7 +208,8 @@ class Data:
             if type(value) == castools.DM:
                 # Convert to numpy
                 value = value.full()
-            elif type(value) in [float, int, bool]:
+            elif not isinstance(value, np.ndarray):
+                # scalars, but also text or dictionaries (solver statistics)
                 value = np.array(value)
             # Get current results array for the given key:
             arr = getattr(self, key)
-- 
2.43.0


From 1a5a290c646616e32660220ef441ea513a4037c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:51 +0000
Subject: [PATCH 15/52] fix: prediction queries mixed up scenarios for robust
 horizons above two (or equal to the horizon)

---
 do_mpc/optimizer.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/do_mpc/optimizer.py b/do_mpc/optimizer.py
index f3fe299..400eb99 100644
--- a/do_mpc/optimizer.py
+++ b/do_mpc/optimizer.py
@@ -1015,8 +1015,6 @@ class Optimizer:
                 # For all uncertainty realizations
                 for b in range(n_branches[k]):
                     child_scenario[k][s][b] = scenario_counter
-                    structure_scenario[k][scenario_counter] = s
-                    structure_scenario[k+1][scenario_counter] = s
                     parent_scenario[k + 1][scenario_counter] = s
                     scenario_counter += 1
                 # Store the range of branches
@@ -1027,6 +1025,11 @@ class Optimizer:
                 else:
                     branch_offset[k][s] = s % n_branches[0]
 
+        # Node of each scenario (from the root to the last stage) at every stage of the tree.
+        for k in range(nk + 1):
+            for s in range(n_scenarios[-1]):
+                structure_scenario[k][s] = s // (n_scenarios[-1] // n_scenarios[k])
+
         self.scenario_tree = {
             'structure_scenario': structure_scenario,
             'n_branches': n_branches,
-- 
2.43.0


From e75bb360989c13ac3a33cebf33145483a9e4ac59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:28 +0000
Subject: [PATCH 16/52] fix: set_objective failed when one of the cost terms
 was omitted

---
 do_mpc/controller/_mpc.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/do_mpc/controller/_mpc.py b/do_mpc/controller/_mpc.py
index 33a2de0..3d4640f 100644
--- a/do_mpc/controller/_mpc.py
+++ b/do_mpc/controller/_mpc.py
@@ -547,6 +547,11 @@ class MPC(do_mpc.optimizer.Optimizer, do_mpc.model.IteratedVariables):
             assertion: mterm must have ``shape=(1,1)`` (scalar expression)
             assertion: lterm must have ``shape=(1,1)`` (scalar expression)
         """
+        # Omitted terms default to zero
+        if mterm is None:
+            mterm = castools.DM(0)
+        if lterm is None:
+            lterm = castools.DM(0)
         assert mterm.shape == (1,1), 'mterm must have shape=(1,1). You have {}'.format(mterm.shape)
         assert lterm.shape == (1,1), 'lterm must have shape=(1,1). You have {}'.format(lterm.shape)
         assert self.flags['setup'] == False, 'Cannot call .set_objective after .setup().'
@@ -562,18 +567,11 @@ class MPC(do_mpc.optimizer.Optimizer, do_mpc.model.IteratedVariables):
         if not isinstance(lterm, (castools.DM, castools.SX, castools.MX)):
             raise Exception('lterm must be of type casadi.DM, casadi.SX or casadi.MX. You have: {}.'.format(type(lterm)))
 
-        if mterm is None:
-            self.mterm = castools.DM(0)
-        else:
-            self.mterm = mterm
+        self.mterm = mterm
         # TODO: This function should be evaluated with scaled variables.
         self.mterm_fun = castools.Function('mterm', [_x, _tvp, _p], [mterm])
 
-        if lterm is None:
-            self.lterm = castools.DM(0)
-        else:
-            self.lterm = lterm
-
+        self.lterm = lterm
         self.lterm_fun = castools.Function('lterm', [_x, _u, _z, _tvp, _p], [lterm])
 
         # Check if lterm and mterm use invalid variables as inputs.
-- 
2.43.0


From b852143106560812d53e1bd39cea056d1a642e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:53 +0000
Subject: [PATCH 17/52] fix: the documented variable type
 'timevarying_parameter' was rejected

---
 do_mpc/model/_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/do_mpc/model/_model.py b/do_mpc/model/_model.py
index 681aa34..a78d283 100644
--- a/do_mpc/model/_model.py
+++ b/do_mpc/model/_model.py
@@ -586,8 +586,8 @@ class Model:
         var_type =var_type.replace('states', '_x'
             ).replace('inputs', '_u'
             ).replace('algebraic', '_z'
-            ).replace('parameter', '_p'
-            ).replace('timevarying_parameter', '_tvp')
+            ).replace('timevarying_parameter', '_tvp'
+            ).replace('parameter', '_p')
 
         # Check validity of var_type:
         assert var_type in ['_x','_u','_z','_p','_tvp'], 'Trying to set non-existing variable var_type: {} with var_name {}'.format(var_type, var_name)
-- 
2.43.0


From b7928c0135ccad69dc915247f645e032a6ef3ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:53 +0000
Subject: [PATCH 18/52] fix: discretize dropped the feedthrough matrix

---
 do_mpc/model/_linearmodel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/do_mpc/model/_linearmodel.py b/do_mpc/model/_linearmodel.py
index c999827..1a43289 100644
--- a/do_mpc/model/_linearmodel.py
+++ b/do_mpc/model/_linearmodel.py
@@ -275,7 +275,7 @@ class LinearModel(Model):
         self._transfer_variables(self, discreteModel)
 
         # Setup linearized model
-        discreteModel.setup(A,B,C)
+        discreteModel.setup(A,B,C,D)
         
         return discreteModel 
  
-- 
2.43.0


From 1e3fdb5fd7c04ca4cf6abb33e8c44b5eca6ce0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:54 +0000
Subject: [PATCH 19/52] fix: linearize failed for state measurements with
 feedthrough

---
 do_mpc/model/_linearize.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/do_mpc/model/_linearize.py b/do_mpc/model/_linearize.py
index 00e25ce..027aa82 100644
--- a/do_mpc/model/_linearize.py
+++ b/do_mpc/model/_linearize.py
@@ -91,9 +91,8 @@ def linearize(model:Model,
     n_u = model.n_u
     
     # Check for trivial measurement equation
-    if C.shape == (n_x,n_x) and (C == np.eye(n_x)).all():
+    if C.shape == (n_x,n_x) and (C == np.eye(n_x)).all() and (D == np.zeros((n_x,n_u))).all():
         C = None
-    if D.shape == (n_x,n_u) and (D == np.zeros((n_x,n_u))).all():
         D = None
     
     # Setup linearized model
-- 
2.43.0


From 737ef2a17febad822b11323f92abacefd2ea835a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:54 +0000
Subject: [PATCH 20/52] fix: get_steady_state tested the rank of A instead of
 I-A

---
 do_mpc/model/_linearmodel.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/do_mpc/model/_linearmodel.py b/do_mpc/model/_linearmodel.py
index 1a43289..0199fe0 100644
--- a/do_mpc/model/_linearmodel.py
+++ b/do_mpc/model/_linearmodel.py
@@ -307,13 +307,13 @@ class LinearModel(Model):
         I = np.identity(np.shape(self.sys_A)[0])
         
         #Calculation of steady state
-        if np.all(xss) == None and np.linalg.matrix_rank(self.sys_A) == self.x.shape[0]:
+        if np.all(xss) == None and np.linalg.matrix_rank(I-self.sys_A) == self.x.shape[0]:
             assert np.all(uss) != None and isinstance(uss,np.ndarray), 'Provide either steady state states or steady state inputs.'
             self.xss = np.linalg.inv(I-self.sys_A)@self.sys_B@uss
             self.uss = uss
             return self.xss
-        elif np.all(xss) == None and np.linalg.matrix_rank(self.sys_A) != self.x.shape[0]:
-            raise ValueError("State matrix does not have full rank. Hence, either multiple steady state or no steady state values is possible.")
+        elif np.all(xss) == None and np.linalg.matrix_rank(I-self.sys_A) != self.x.shape[0]:
+            raise ValueError("I-A does not have full rank. Hence, either multiple steady state or no steady state values is possible.")
         elif np.all(uss) == None and np.shape(self.sys_B)[0] != np.shape(self.sys_B)[1]:
             assert np.all(xss) != None and isinstance(xss,np.ndarray), 'Provide either steady state states or steady state inputs.'
             self.uss = np.linalg.pinv(self.sys_B)@(I-self.sys_A)@xss
-- 
2.43.0


From e853f740d7ba5d90a71754a720fff7a233a39d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:54 +0000
Subject: [PATCH 21/52] fix: LQR setpoint could not be changed again in input
 rate penalization mode

---
 do_mpc/controller/_lqr.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/do_mpc/controller/_lqr.py b/do_mpc/controller/_lqr.py
index 44052b9..2d25da8 100644
--- a/do_mpc/controller/_lqr.py
+++ b/do_mpc/controller/_lqr.py
@@ -443,6 +443,10 @@ class LQR(IteratedVariables):
         """
         assert self.flags['setup'] == True, 'LQR is not setup. Run setup() function.'
 
+        # Undo the augmentation of an earlier call (see below)
+        if self.mode == 'inputRatePenalization' and hasattr(self,'xss') and self.xss.shape[0] == self.model.n_x+self.model.n_u:
+            self.xss, self.uss = self.xss[:self.model.n_x], self.xss[self.model.n_x:]
+
         # Set or reset xss. Don't change xss if it already exists and uss is not passed
         if isinstance(xss, np.ndarray):
             self.xss = xss
-- 
2.43.0


From 8d0ef24ac4ac07bf55d6cb0eb6666043a998edc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:54 +0000
Subject: [PATCH 22/52] fix: error message of LQR.setup used an undefined
 attribute

---
 do_mpc/controller/_lqr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/do_mpc/controller/_lqr.py b/do_mpc/controller/_lqr.py
index 2d25da8..6769539 100644
--- a/do_mpc/controller/_lqr.py
+++ b/do_mpc/controller/_lqr.py
@@ -498,5 +498,5 @@ class LQR(IteratedVariables):
             else:
                  raise AttributeError("set delR using set_rterm fun to execute in inputRatePenalization mode.")   
         else:
-            raise Exception('mode must be standard, inputRatePenalization, None. you have {}'.format(self.method))
+            raise Exception('mode must be standard, inputRatePenalization, None. you have {}'.format(self.mode))
         self.flags['setup'] = True
\ No newline at end of file
-- 
2.43.0


From 0c534d5bc0ee645feafb1d202f89a694d91bd7c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:54 +0000
Subject: [PATCH 23/52] fix: dae2odeconversion assigned wrong input rates for
 vector valued inputs

---
 do_mpc/model/_dae2odeconversion.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/do_mpc/model/_dae2odeconversion.py b/do_mpc/model/_dae2odeconversion.py
index 29e2770..f5764a7 100644
--- a/do_mpc/model/_dae2odeconversion.py
+++ b/do_mpc/model/_dae2odeconversion.py
@@ -95,8 +95,11 @@ def dae2odeconversion(model:Model)->Model:
     rhs_mod = castools.substitute(rhs,model.w.cat,daeModel.w.cat)
     z_next = -castools.inv(castools.jacobian(alg,castools.vertcat(*z_new)))@castools.jacobian(alg,castools.vertcat(*x_new))@rhs_mod-castools.inv(castools.jacobian(alg,castools.vertcat(*z_new)))@castools.jacobian(alg,castools.vertcat(*u_new))@q
     
+    u_count = 0
     for j in range(np.size(model.u.keys())-1):
-        daeModel.set_rhs(model.u.keys()[j+1],daeModel.u['q',j])
+        n_uj = model.u[model.u.keys()[j+1]].size()[0]
+        daeModel.set_rhs(model.u.keys()[j+1],daeModel.u['q'][u_count:u_count+n_uj])
+        u_count += n_uj
     
     z_count = 0
     for k in range(np.size(model.z.keys())-1):
-- 
2.43.0


From ce2c8ed4a81da25f6014cce7e0d0e77e0f46a4b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:54 +0000
Subject: [PATCH 24/52] fix: dae2odeconversion mixed up process noise if
 right-hand sides were set in another order

---
 do_mpc/model/_dae2odeconversion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/do_mpc/model/_dae2odeconversion.py b/do_mpc/model/_dae2odeconversion.py
index f5764a7..f74b18d 100644
--- a/do_mpc/model/_dae2odeconversion.py
+++ b/do_mpc/model/_dae2odeconversion.py
@@ -92,7 +92,7 @@ def dae2odeconversion(model:Model)->Model:
             daeModel.set_rhs(model.x.keys()[i],rhs_new[x_count:x_count+model.x[model.x.keys()[i]].size()[0]])
             x_count += model.x[model.x.keys()[i]].size()[0]
     alg = model._alg_fun(castools.vertcat(*x_new),castools.vertcat(*u_new),castools.vertcat(*z_new),castools.vertcat(*tvp_new),castools.vertcat(*p_new),daeModel.w)
-    rhs_mod = castools.substitute(rhs,model.w.cat,daeModel.w.cat)
+    rhs_mod = castools.substitute(rhs,model.w.cat,castools.reshape(castools.vertcat(*[daeModel.w[name] for name in model.w.keys()]),model.n_w,1))
     z_next = -castools.inv(castools.jacobian(alg,castools.vertcat(*z_new)))@castools.jacobian(alg,castools.vertcat(*x_new))@rhs_mod-castools.inv(castools.jacobian(alg,castools.vertcat(*z_new)))@castools.jacobian(alg,castools.vertcat(*u_new))@q
     
     u_count = 0
-- 
2.43.0


From fcd8dc0db7ac7bff3e7b8c20ae0baa791ef89127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:18 +0000
Subject: [PATCH 25/52] fix: save_pickle removed '.pkl' anywhere in the path,
 not only the extension

---
 do_mpc/tools/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/do_mpc/tools/__init__.py b/do_mpc/tools/__init__.py
index 32751d3..c043782 100644
--- a/do_mpc/tools/__init__.py
+++ b/do_mpc/tools/__init__.py
@@ -34,7 +34,8 @@ from ._timer import Timer
 
 
 def save_pickle(filename, data):
-    filename = filename.replace('.pkl','')
+    if filename.endswith('.pkl'):
+        filename = filename[:-len('.pkl')]
     with open(filename + '.pkl', 'wb') as f:
         pickle.dump(data, f)
 
-- 
2.43.0


From e15d95cad138304c4a5610631a903c1c4411426b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:18 +0000
Subject: [PATCH 26/52] fix: DataHandler could not be indexed with a list or
 tuple

---
 do_mpc/sampling/_datahandler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/do_mpc/sampling/_datahandler.py b/do_mpc/sampling/_datahandler.py
index 8ddb6e6..5c44055 100644
--- a/do_mpc/sampling/_datahandler.py
+++ b/do_mpc/sampling/_datahandler.py
@@ -112,8 +112,10 @@ class DataHandler:
         try:
             if isinstance(ind, int):
                 samples = [self.sampling_plan[ind]]
-            elif isinstance(ind, (tuple, slice, list)):
+            elif isinstance(ind, slice):
                 samples = self.sampling_plan[ind]
+            elif isinstance(ind, (tuple, list)):
+                samples = [self.sampling_plan[i] for i in ind]
             else:
                 raise Exception('ind must be of type int, tuple, slice or list. You have {}'.format(type(ind)))
         except IndexError:
-- 
2.43.0


From 753c740c43f73a605d6224d79d27ef189b399830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:18 +0000
Subject: [PATCH 27/52] fix: DataHandler.filter failed for filter functions
 with local variables

---
 do_mpc/sampling/_datahandler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/do_mpc/sampling/_datahandler.py b/do_mpc/sampling/_datahandler.py
index 5c44055..eb5d15c 100644
--- a/do_mpc/sampling/_datahandler.py
+++ b/do_mpc/sampling/_datahandler.py
@@ -220,14 +220,14 @@ class DataHandler:
             if input_filter is None:
                 return True
             else:
-                return input_filter(**{arg_i: kwargs[arg_i] for arg_i in input_filter.__code__.co_varnames})
+                return input_filter(**{arg_i: kwargs[arg_i] for arg_i in signature(input_filter).parameters})
 
         # Wrapper to ensure arbitrary arguments are accepted
         def wrap_fun_out(**kwargs):
             if output_filter is None:
                 return True
             else:
-                return output_filter(**{arg_i: kwargs[arg_i] for arg_i in output_filter.__code__.co_varnames})
+                return output_filter(**{arg_i: kwargs[arg_i] for arg_i in signature(output_filter).parameters})
 
         # For each sample:
         for sample in self.sampling_plan:
-- 
2.43.0


From 5650150e5afde4028955ed22515eb3c77115930f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:18 +0000
Subject: [PATCH 28/52] fix: save_results stored the file outside of a
 result_path without trailing slash

---
 do_mpc/data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/do_mpc/data.py b/do_mpc/data.py
index d6b66b7..a00cb53 100644
--- a/do_mpc/data.py
+++ b/do_mpc/data.py
@@ -427,12 +427,12 @@ def save_results(save_list:list,
     if overwrite==False:
         ind = 1
         ext_result_name = result_name
-        while os.path.isfile(result_path+ext_result_name+'.pkl'):
+        while os.path.isfile(os.path.join(result_path, ext_result_name+'.pkl')):
             ext_result_name = '{ind:03d}_{name}'.format(ind=ind, name=result_name)
             ind += 1
         result_name = ext_result_name
 
-    with open(result_path+result_name+'.pkl', 'wb') as f:
+    with open(os.path.join(result_path, result_name+'.pkl'), 'wb') as f:
         pickle.dump(results, f)
 
 def load_results(file_name:str)->Dict:
-- 
2.43.0


From c05da7ff301c6dfbbb3270dc75a7d3f55cbe6092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:34 +0000
Subject: [PATCH 29/52] fix: DataHandler did not find results generated after a
 failed query

---
 do_mpc/sampling/_datahandler.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/do_mpc/sampling/_datahandler.py b/do_mpc/sampling/_datahandler.py
index eb5d15c..fe8fe88 100644
--- a/do_mpc/sampling/_datahandler.py
+++ b/do_mpc/sampling/_datahandler.py
@@ -143,8 +143,9 @@ class DataHandler:
             result = self.pre_loaded_data['data'][ind]
         else:
             result = self._load(sample['id'])
-            self.pre_loaded_data['id'].append(sample['id'])
-            self.pre_loaded_data['data'].append(result)
+            if result is not None:
+                self.pre_loaded_data['id'].append(sample['id'])
+                self.pre_loaded_data['data'].append(result)
 
         return result
 
-- 
2.43.0


From 50e346a4e7e278817a526db016c9250f2230fb24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:34 +0000
Subject: [PATCH 30/52] fix: DataHandler returned results of the previous
 data_dir, sample_name or save_format

---
 do_mpc/sampling/_datahandler.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/do_mpc/sampling/_datahandler.py b/do_mpc/sampling/_datahandler.py
index fe8fe88..4e90bc4 100644
--- a/do_mpc/sampling/_datahandler.py
+++ b/do_mpc/sampling/_datahandler.py
@@ -138,13 +138,14 @@ class DataHandler:
     def _lazy_loading(self,sample):
         """ Private method: Checks if data is already loaded to reduce the computational load.
         """
-        if sample['id'] in self.pre_loaded_data['id']:
-            ind = self.pre_loaded_data['id'].index(sample['id'])
+        source = (self.data_dir, self.sample_name, self.save_format, sample['id'])
+        if source in self.pre_loaded_data['id']:
+            ind = self.pre_loaded_data['id'].index(source)
             result = self.pre_loaded_data['data'][ind]
         else:
             result = self._load(sample['id'])
             if result is not None:
-                self.pre_loaded_data['id'].append(sample['id'])
+                self.pre_loaded_data['id'].append(source)
                 self.pre_loaded_data['data'].append(result)
 
         return result
-- 
2.43.0


From 7c1a3fe0ad86a0ca72a38f5db6b2e1ef759d588c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:49 +0000
Subject: [PATCH 31/52] fix: the settings argument of MPC was ignored

---
 do_mpc/controller/_mpc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/do_mpc/controller/_mpc.py b/do_mpc/controller/_mpc.py
index 3d4640f..08a115f 100644
--- a/do_mpc/controller/_mpc.py
+++ b/do_mpc/controller/_mpc.py
@@ -166,7 +166,7 @@ class MPC(do_mpc.optimizer.Optimizer, do_mpc.model.IteratedVariables):
         self._opt_p_num = None
 
         # initialize MPC _settings class
-        self._settings = MPCSettings()
+        self._settings = MPCSettings() if settings is None else settings
 
         # Flags are checked when calling .setup.
         self.flags.update({
-- 
2.43.0


From 4418ce9983850120b2e525d40b009982a39bb62b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:49 +0000
Subject: [PATCH 32/52] fix: all simulators shared one integration_opts
 dictionary

---
 do_mpc/simulator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/do_mpc/simulator.py b/do_mpc/simulator.py
index aa504ab..ab68222 100644
--- a/do_mpc/simulator.py
+++ b/do_mpc/simulator.py
@@ -31,7 +31,7 @@ import pdb
 import warnings
 import do_mpc
 from typing import Union,Callable
-from dataclasses import dataclass
+from dataclasses import dataclass, field
 from typing import Dict
 
 
@@ -61,6 +61,7 @@ class SimulatorSettings:
             raise ValueError("t_step must be set")
 
 
+@dataclass
 class ContinousSimulatorSettings(SimulatorSettings):
     """Settings for :py:class:`Simulator` for continous-time systems.
     
@@ -96,7 +97,7 @@ class ContinousSimulatorSettings(SimulatorSettings):
     integration_tool: str = 'cvodes'
     """Integration tool to be used. Options are 'cvodes' and 'idas'"""
 
-    integration_opts: Dict = {}
+    integration_opts: Dict = field(default_factory=dict)
     """Dictionary with options for the CasADi integrator call. Used tu update the opts dict in :py:func:`setup`.
     
     All options are listed `here <https://casadi.sourceforge.net/api/html/db/d3d/classcasadi_1_1Integrator.html>`_."""
-- 
2.43.0


From bee42c6131ee7b6104931325ab693fec9aaff85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:27 +0000
Subject: [PATCH 33/52] fix: set_lam_zero of the NLPDifferentiator failed with
 an UnboundLocalError

---
 do_mpc/differentiator/_nlpdifferentiator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/do_mpc/differentiator/_nlpdifferentiator.py b/do_mpc/differentiator/_nlpdifferentiator.py
index 033d427..b652b47 100644
--- a/do_mpc/differentiator/_nlpdifferentiator.py
+++ b/do_mpc/differentiator/_nlpdifferentiator.py
@@ -418,12 +418,12 @@ class NLPDifferentiator:
         where_cons_inactive = np.concatenate((where_g_inactive,where_x_inactive+self.n_g))
 
         # set lagrange multipliers of inactive constraints to zero
+        lam_num = ca.vertcat(nlp_sol["lam_g"],nlp_sol["lam_x"])
         if self.settings.set_lam_zero:
             lam_num[where_cons_inactive] = 0
         
         # stack primal and dual solution
         x_num = nlp_sol["x"]
-        lam_num = ca.vertcat(nlp_sol["lam_g"],nlp_sol["lam_x"])
         z_num = ca.vertcat(x_num,lam_num)
 
         return z_num, where_cons_active        
-- 
2.43.0


From 677c58fc098e5b52a0eb4ad1d9e6307ec820fda2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:27 +0000
Subject: [PATCH 34/52] fix: the scipy solver of the NLPDifferentiator failed
 for a single parameter

---
 do_mpc/differentiator/_nlpdifferentiator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/do_mpc/differentiator/_nlpdifferentiator.py b/do_mpc/differentiator/_nlpdifferentiator.py
index b652b47..c89842a 100644
--- a/do_mpc/differentiator/_nlpdifferentiator.py
+++ b/do_mpc/differentiator/_nlpdifferentiator.py
@@ -484,6 +484,9 @@ class NLPDifferentiator:
             if lin_solver == 'scipy':
                 logging.info("Solving linear system with Scipy.")
                 param_sens = sp_sparse.linalg.spsolve(A_num.tocsc(),-B_num.tocsc())
+                # a single right-hand side is returned as one dimensional array
+                if param_sens.ndim == 1:
+                    param_sens = param_sens.reshape(-1,1)
 
             elif lin_solver == 'casadi':
                 logging.info("Solving linear system with Casadi.")
-- 
2.43.0


From 8a45f762a2b830dae7c14b935675dd25fcd00e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:27 +0000
Subject: [PATCH 35/52] fix: DoMPCDifferentiator used the bounds from the time
 of its creation

---
 do_mpc/differentiator/_nlpdifferentiator.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/do_mpc/differentiator/_nlpdifferentiator.py b/do_mpc/differentiator/_nlpdifferentiator.py
index c89842a..a4fe5ef 100644
--- a/do_mpc/differentiator/_nlpdifferentiator.py
+++ b/do_mpc/differentiator/_nlpdifferentiator.py
@@ -813,6 +813,20 @@ class DoMPCDifferentiator(NLPDifferentiator):
 
         return nlp, nlp_bounds
 
+    def _update_nlp_bounds(self):
+        """
+        Warning:
+            Not part of the public API.
+
+        Bounds can be changed after the setup of the ``do_mpc`` object. The current values determine the active set.
+        """
+        nlp_bounds = self._get_do_mpc_nlp()[1]
+        if self.status.reduced_nlp:
+            self.nlp_bounds_unreduced = nlp_bounds.copy()
+            nlp_bounds["lbx"] = nlp_bounds["lbx"][self.det_sym_idx_dict["opt_x"]]
+            nlp_bounds["ubx"] = nlp_bounds["ubx"][self.det_sym_idx_dict["opt_x"]]
+        self.nlp_bounds = nlp_bounds
+
     def _get_do_mpc_nlp_sol(self):
         """
         Warning:
@@ -850,6 +864,7 @@ class DoMPCDifferentiator(NLPDifferentiator):
         The current optimal solution and the corresponding parameters are read from the ``do_mpc`` object.  
         """
 
+        self._update_nlp_bounds()
         nlp_sol = self._get_do_mpc_nlp_sol()
         p_num = self._get_p_num()
         dx_dp_num, dlam_dp_num = super().differentiate(nlp_sol, p_num)
-- 
2.43.0


From f1c04dd0ddf178a77c497f47928acfedc21e9d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:05 +0000
Subject: [PATCH 36/52] fix: ONNXConversion ignored the alpha attribute of Elu

---
 do_mpc/sysid/_onnxconversion.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/do_mpc/sysid/_onnxconversion.py b/do_mpc/sysid/_onnxconversion.py
index 235e748..b153e03 100644
--- a/do_mpc/sysid/_onnxconversion.py
+++ b/do_mpc/sysid/_onnxconversion.py
@@ -326,7 +326,9 @@ class ONNXOperations:
         return casadi.fmax(0,x)
 
     def Elu(self,x, attribute = None):
-        return casadi.fmax(0,x) + casadi.fmin(0,casadi.exp(x)-1)
+        attr_dict = {k.name: k.f for k in attribute} if attribute is not None else {}
+        alpha = attr_dict.get('alpha', 1)
+        return casadi.fmax(0,x) + casadi.fmin(0,alpha*(casadi.exp(x)-1))
 
     def MatMul(self,*args, attribute = None):
         return casadi.mtimes(*args)
-- 
2.43.0


From 22612995005e8df7aed0f790a907d2d97cecfd22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:05 +0000
Subject: [PATCH 37/52] fix: ONNXConversion failed for Gemm without bias or
 with a CasADi bias

---
 do_mpc/sysid/_onnxconversion.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/do_mpc/sysid/_onnxconversion.py b/do_mpc/sysid/_onnxconversion.py
index b153e03..94bb6d7 100644
--- a/do_mpc/sysid/_onnxconversion.py
+++ b/do_mpc/sysid/_onnxconversion.py
@@ -359,7 +359,7 @@ class ONNXOperations:
 
         A = args[0]
         B = args[1]
-        C = args[2]
+        C = args[2] if len(args) > 2 else 0
 
         if 'transA' in attr_dict.keys() and attr_dict['transA'] == 1:
             A = casadi.transpose(A)
@@ -374,7 +374,7 @@ class ONNXOperations:
         else:
             beta = 1
 
-        if C.ndim == 1:
+        if isinstance(C, np.ndarray) and C.ndim == 1:
             C = C.reshape(1,-1)
         
         res = alpha*self.MatMul(A,B) + beta*C
-- 
2.43.0


From 48dbc09f9702a1e17e9d41518bb33c71fb0568da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:05 +0000
Subject: [PATCH 38/52] fix: ONNXConversion reshaped CasADi expressions column
 by column

---
 do_mpc/sysid/_onnxconversion.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/do_mpc/sysid/_onnxconversion.py b/do_mpc/sysid/_onnxconversion.py
index 94bb6d7..829900f 100644
--- a/do_mpc/sysid/_onnxconversion.py
+++ b/do_mpc/sysid/_onnxconversion.py
@@ -415,7 +415,10 @@ class ONNXOperations:
         # TODO: Check if this is correct
         data = args[0]
         shape = args[1]
-        return data.reshape(tuple(shape))
+        if isinstance(data, np.ndarray):
+            return data.reshape(tuple(shape))
+        # ONNX tensors are stored row by row, CasADi matrices column by column
+        return casadi.reshape(data.T, tuple(shape)[::-1]).T
 
     def Shape(self, *args, attribute = None):
         return args[0].shape
-- 
2.43.0


From 36372987ac738774fe1efe1c0d6a0ecee0c89fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:05 +0000
Subject: [PATCH 39/52] fix: ONNXConversion concatenated along the wrong axis
 for axis = -2

---
 do_mpc/sysid/_onnxconversion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/do_mpc/sysid/_onnxconversion.py b/do_mpc/sysid/_onnxconversion.py
index 829900f..f30c9c8 100644
--- a/do_mpc/sysid/_onnxconversion.py
+++ b/do_mpc/sysid/_onnxconversion.py
@@ -385,7 +385,7 @@ class ONNXOperations:
         return  self.Add(*args)
 
     def Concat(self,*args, attribute = None):
-        if attribute[0].i in (0,2):
+        if attribute[0].i in (0,2,-2):
             return casadi.vertcat(*args)
         else:
             return casadi.horzcat(*args)
-- 
2.43.0


From 2140a6ca6b1bb80e5702367abb5a944056b6e767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:05 +0000
Subject: [PATCH 40/52] fix: ONNXConversion accepted inputs of a wrong shape

---
 do_mpc/sysid/_onnxconversion.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/do_mpc/sysid/_onnxconversion.py b/do_mpc/sysid/_onnxconversion.py
index f30c9c8..f30f3c8 100644
--- a/do_mpc/sysid/_onnxconversion.py
+++ b/do_mpc/sysid/_onnxconversion.py
@@ -218,11 +218,11 @@ class ONNXConversion:
         self.input = {}   
 
         for input_name, shape in inputshape.items():
-            # TODO: Write comments on all checks
-            check_1 = (len(inputshape[input_name]) == 1)
-            check_2 = (inputshape[input_name][0] != kwargs[input_name].shape[0])
-            check_3 = (inputshape[input_name] != kwargs[input_name].shape)
-            if check_1 and check_2 and check_3:
+            # CasADi variables always have two dimensions. Dimensions of variable size are stored as 0.
+            input_shape = kwargs[input_name].shape
+            if len(shape) == 1:
+                input_shape = input_shape[:1]
+            if len(shape) <= 2 and (len(shape) != len(input_shape) or any(n not in (0, m) for n, m in zip(shape, input_shape))):
                 raise Exception("The shape of the input '{}' should be {}".format(input_name,inputshape[input_name]))
 
             self.input[input_name] = kwargs[input_name]
-- 
2.43.0


From 2a23273a61d42b2fde32198d3eaacbfee8cfb8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:05 +0000
Subject: [PATCH 41/52] fix: ONNXConversion depended on the order of the
 attributes of Slice

---
 do_mpc/sysid/_onnxconversion.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/do_mpc/sysid/_onnxconversion.py b/do_mpc/sysid/_onnxconversion.py
index f30f3c8..16eceb0 100644
--- a/do_mpc/sysid/_onnxconversion.py
+++ b/do_mpc/sysid/_onnxconversion.py
@@ -400,9 +400,10 @@ class ONNXOperations:
 
     def Slice(self, *args, attribute = None):
         # TODO: Check if this is correct
-        ax = attribute[0].ints
-        ends = attribute[1].ints
-        starts = attribute[2].ints
+        attr_dict = {k.name: k.ints for k in attribute}
+        ends = attr_dict['ends']
+        starts = attr_dict['starts']
+        ax = attr_dict.get('axes', range(len(starts)))
 
         slices = [slice(None,None),]*2
 
-- 
2.43.0


From ae257cf128a912afde5c3d9f85b48721b9f2e922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:45 +0000
Subject: [PATCH 42/52] fix: default OPC UA namespace omitted variables with
 default in their name

---
 do_mpc/opcua/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/do_mpc/opcua/_base.py b/do_mpc/opcua/_base.py
index 1d8df0c..15689c2 100644
--- a/do_mpc/opcua/_base.py
+++ b/do_mpc/opcua/_base.py
@@ -110,7 +110,7 @@ class RTBase:
         for var in variable_list:
             
             for key in model[var].labels():
-                if 'default' in key:
+                if key.startswith('[default,'):
                     continue
                 
                 node_list.append(NamespaceEntry(var, key))
-- 
2.43.0


From 895f87296e23c3d5b352e376c6b375d14ba5c375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:45 +0000
Subject: [PATCH 43/52] fix: error messages of the OPC UA client used an
 undefined attribute

---
 do_mpc/opcua/_client.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/do_mpc/opcua/_client.py b/do_mpc/opcua/_client.py
index 95a9da1..5402599 100644
--- a/do_mpc/opcua/_client.py
+++ b/do_mpc/opcua/_client.py
@@ -122,7 +122,7 @@ class RTClient:
         try:
             self.opcua_client.get_node(tag).set_value(dataVal)
         except ConnectionRefusedError:
-            print("Write operation by:", self.type, " failed @ time:", time.strftime('%Y-%m-%d %H:%M %Z', time.localtime()))
+            print("Write operation by:", self.name, " failed @ time:", time.strftime('%Y-%m-%d %H:%M %Z', time.localtime()))
             return False
         
 
@@ -140,5 +140,6 @@ class RTClient:
         try: 
             dataVal = self.opcua_client.get_node(tag).get_value()
         except ConnectionRefusedError:
-            print("A read operation by:", self.type, "failed @ time: ", time.strftime('%Y-%m-%d %H:%M %Z', time.localtime()))
+            print("A read operation by:", self.name, "failed @ time: ", time.strftime('%Y-%m-%d %H:%M %Z', time.localtime()))
+            raise
         return dataVal
\ No newline at end of file
-- 
2.43.0


From 0d3c8d3b5afeeae4585015aff62682669829d5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:45 +0000
Subject: [PATCH 44/52] fix: RTBase kept running when it was stopped while its
 timer fired

---
 do_mpc/opcua/_base.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/do_mpc/opcua/_base.py b/do_mpc/opcua/_base.py
index 15689c2..93629dd 100644
--- a/do_mpc/opcua/_base.py
+++ b/do_mpc/opcua/_base.py
@@ -222,6 +222,8 @@ class RTBase:
         '''
         This method is called inside of :py:meth:`async_step_start`. It calls :py:meth:`make_step` and :py:meth:`async_step_start`.
         '''
+        if self.async_fag == True:
+            return print('Async operation was interrupted by the user')
         self.is_running = False    
         self.async_step_start()
         self.make_step()
@@ -232,6 +234,7 @@ class RTBase:
         This method calls the :py:meth:`async_run` method in a frequency given by the do-mpc classes t_step value.
         '''
         if self.new_init == True:
+            self.async_fag = False
             self.new_thread = Thread(target=self.make_step)
             self.new_thread.start()
             self.new_init = False
@@ -242,10 +245,6 @@ class RTBase:
             self.thread.start()
             self.is_running = True
 
-        if self.async_fag == True:
-            self.async_fag = False
-            return print('Async operation was interrupted by the user')
-
 
     def async_step_stop(self)->None:
         '''
-- 
2.43.0


From 0eafbdb11b4618e0e73591e9124cf12c7652b9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:12 +0000
Subject: [PATCH 45/52] fix: default_plot rejected lists of algebraic states

---
 do_mpc/graphics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/do_mpc/graphics.py b/do_mpc/graphics.py
index 2ade94d..8cfe142 100644
--- a/do_mpc/graphics.py
+++ b/do_mpc/graphics.py
@@ -382,7 +382,7 @@ def default_plot(data,
         # Pop default variable:
         dae_states_list.pop(0)
     else:
-        assert set(dae_states_list).issubset(data.model['_u'].keys()), err_message.format('dae_states_list',data.model['_z'].keys(), dae_states_list)
+        assert set(dae_states_list).issubset(data.model['_z'].keys()), err_message.format('dae_states_list',data.model['_z'].keys(), dae_states_list)
 
     if inputs_list is None:
         inputs_list = data.model['_u'].keys()
-- 
2.43.0


From 9802aed474c11566002a4391cceac163d4b8749c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:12 +0000
Subject: [PATCH 46/52] fix: animate replaced existing animations although
 overwrite is not set

---
 do_mpc/graphics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/do_mpc/graphics.py b/do_mpc/graphics.py
index 8cfe142..82c9cbc 100644
--- a/do_mpc/graphics.py
+++ b/do_mpc/graphics.py
@@ -503,7 +503,7 @@ def animate(graphics:Graphics,
     if overwrite==False:
         ind = 1
         ext_export_name = export_name
-        while os.path.isfile(export_path+ext_export_name+'.pkl'):
+        while os.path.isfile('{}{}.{}'.format(export_path, ext_export_name, extension)):
             ext_export_name = '{ind:03d}_{name}'.format(ind=ind, name=export_name)
             ind += 1
         export_name = ext_export_name
-- 
2.43.0


From 931358bfa3c3d733b8673db9a7a56cd68bf25dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:12 +0000
Subject: [PATCH 47/52] fix: animate failed for data without predictions

---
 do_mpc/graphics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/do_mpc/graphics.py b/do_mpc/graphics.py
index 82c9cbc..f6f396e 100644
--- a/do_mpc/graphics.py
+++ b/do_mpc/graphics.py
@@ -477,7 +477,8 @@ def animate(graphics:Graphics,
     def update(t_ind):
         print('Writing frame: {} of {}.'.format(t_ind, n_steps))
         graphics.plot_results(t_ind=t_ind)
-        graphics.plot_predictions(t_ind=t_ind)
+        if graphics.data.dtype == 'MPC' and graphics.data.meta_data['store_full_solution']:
+            graphics.plot_predictions(t_ind=t_ind)
         graphics.reset_axes()
         lines = graphics.result_lines.full+graphics.pred_lines.full
         return lines
-- 
2.43.0


From 0e7f56236161fc8e3fd8f79af511d9d87a34f792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:12 +0000
Subject: [PATCH 48/52] fix: animate stored the file outside of an export_path
 without trailing slash

---
 do_mpc/graphics.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/do_mpc/graphics.py b/do_mpc/graphics.py
index f6f396e..ad0a184 100644
--- a/do_mpc/graphics.py
+++ b/do_mpc/graphics.py
@@ -498,6 +498,7 @@ def animate(graphics:Graphics,
     else:
         extension=''
 
+    export_path = os.path.join(export_path, '')
     if not os.path.exists(export_path):
         os.makedirs(export_path)
     # Dynamically generate new result name if name is already taken in result_path.
-- 
2.43.0


From d44846da79731d86ce2feff62b3e0d756a8ca5df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:12 +0000
Subject: [PATCH 49/52] fix: Structure raised an IndexError for entries with
 shorter indices

---
 do_mpc/tools/_structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/do_mpc/tools/_structure.py b/do_mpc/tools/_structure.py
index 0523cde..8cb17c8 100644
--- a/do_mpc/tools/_structure.py
+++ b/do_mpc/tools/_structure.py
@@ -179,7 +179,7 @@ class Structure:
             else:
                 # Regular case: Iter over all indices and check condition.
                 for i, ind_i in enumerate(_iter_index):
-                    if j>len(ind_i):
+                    if j>=len(ind_i):
                         None
                     elif ind_i[j] == ind_j:
                         _tmp_master.append(_iter_master[i])
-- 
2.43.0


From 6782422667d916a7ddcdc3993be0f6b0f9dc81b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:12 +0000
Subject: [PATCH 50/52] fix: indexed properties kept for later use referred to
 another object

---
 do_mpc/tools/_indexedproperty.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/do_mpc/tools/_indexedproperty.py b/do_mpc/tools/_indexedproperty.py
index 93542e6..552a77d 100644
--- a/do_mpc/tools/_indexedproperty.py
+++ b/do_mpc/tools/_indexedproperty.py
@@ -1,3 +1,4 @@
+import copy
 from functools import wraps
 
 class IndexedProperty(object):
@@ -22,8 +23,10 @@ class IndexedProperty(object):
         self.__doc__ = doc
 
     def __get__(self, obj, objtype=None):
-        self.obj = obj
-        return self
+        # Each access has its own reference to the object, the property itself is shared by all objects.
+        bound = copy.copy(self)
+        bound.obj = obj
+        return bound
 
     def __getitem__(self,ind):
         return self.fget(self.obj,ind)
-- 
2.43.0


From 49949e036d019e25c78dc3d9185195f77dcaedb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:47 +0000
Subject: [PATCH 51/52] fix: RTServer hid the reason when its server could not
 be created

---
 do_mpc/opcua/_server.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/do_mpc/opcua/_server.py b/do_mpc/opcua/_server.py
index 35abaea..cd85e5b 100644
--- a/do_mpc/opcua/_server.py
+++ b/do_mpc/opcua/_server.py
@@ -74,7 +74,7 @@ class RTServer:
         except RuntimeError:
             self.created = False
             print("Server could not be created. Check your opcua module installation!")
-            return False
+            raise
 
      
     def namespace_from_client(self, client:RTClient)->None:
-- 
2.43.0


From 286ac9ea2db3e4fdad73d218c86b159aee730548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:01:41 +0000
Subject: [PATCH 52/52] fix: LQR and Simulator kept the caller's array as their
 state and input (lqr.x0['x'] = ... failed after a step)

---
 do_mpc/controller/_lqr.py | 2 +-
 do_mpc/simulator.py       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/do_mpc/controller/_lqr.py b/do_mpc/controller/_lqr.py
index 6769539..2967e71 100644
--- a/do_mpc/controller/_lqr.py
+++ b/do_mpc/controller/_lqr.py
@@ -313,7 +313,7 @@ class LQR(IteratedVariables):
 
         # Update initial
         self._t0 = self._t0 + self.settings.t_step
-        self._x0.master = x0
+        self._x0.master = castools.DM(x0)
         self._u0.master = castools.DM(u0)
         
         return u0
diff --git a/do_mpc/simulator.py b/do_mpc/simulator.py
index ab68222..cb964ad 100644
--- a/do_mpc/simulator.py
+++ b/do_mpc/simulator.py
@@ -696,7 +696,7 @@ class Simulator(do_mpc.model.IteratedVariables):
 
         self._x0.master = x_next
         self._z0.master = z0
-        self._u0.master = u0
+        self._u0.master = castools.DM(u0)
         self._t0 = self._t0 + self._settings.t_step 
 
         self.flags['first_step'] = False
-- 
2.43.0

