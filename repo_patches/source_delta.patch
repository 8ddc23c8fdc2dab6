From 33030871961395d9726eabedebd2880dacd6c12d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:44 +0000
Subject: [PATCH 01/55] fix: tie invariant constraints to the inputs of the
 right steps

With time-varying inputs, the input columns were re-interpreted at every step (the first group of columns always
meant the most recent input), but invariant constraints added at earlier steps kept on referring to the same columns,
so they constrained the wrong inputs and reachable states were lost.
---
 hylaa/lputil.py   | 13 +++++++++++++
 hylaa/result.py   | 10 ++++++----
 hylaa/stateset.py | 13 ++++++++++---
 3 files changed, 29 insertions(+), 7 deletions(-)

diff --git a/hylaa/lputil.py b/hylaa/lputil.py
index c0a3d12..8a6a36a 100644
--- a/hylaa/lputil.py
+++ b/hylaa/lputil.py
@@ -300,6 +300,19 @@ def add_input_effects_matrix(lpi, input_mat, mode, lgg_beta=None):
 
     lpi.set_constraints_csc(csc, offset=(0, pre_cols))
 
+def set_input_effects_matrices(lpi, input_effects_list):
+    '''reassign the input effects matrices of all the groups of input columns in this lpi
+
+    input_effects_list is a list of input effects matrices, in the order the input columns were added
+    '''
+
+    row, col = lpi.input_effects_offsets
+
+    # -I for the total input effects, followed by each of the input effects matrices
+    csr = csr_matrix(np.concatenate([-np.identity(lpi.dims)] + input_effects_list, axis=1))
+
+    lpi.set_constraints_csr(csr, offset=(row, col))
+
 def check_intersection(lpi, lc, tol=1e-13):
     '''check if there is an intersection between the LP constriants and the LinearConstraint object lc
 
diff --git a/hylaa/result.py b/hylaa/result.py
index 9a64e9d..b7b3154 100644
--- a/hylaa/result.py
+++ b/hylaa/result.py
@@ -192,11 +192,13 @@ def make_counterexample(ha, state, transition_to_error, lpi):
             elif '_c' in name:
                 seg.end.append(value)
             elif '_I' in name:
+                # without an invariant, inputs are in backwards order due to how the LP is constructed, prepend it
+                input_index = -1 if seg.mode.inv_list else 0
+
                 if '_I0' in name:
-                    seg.inputs.appendleft([])
-                    
-                # inputs are in backwards order due to how the LP is constructed, prepend it
-                seg.inputs[0].append(value)
+                    seg.inputs.insert(len(seg.inputs) if seg.mode.inv_list else 0, [])
+
+                seg.inputs[input_index].append(value)
 
         elif name.startswith('reset'):
             seg.reset_minkowski_vars.append(value)
diff --git a/hylaa/stateset.py b/hylaa/stateset.py
index bbb3106..55096f1 100644
--- a/hylaa/stateset.py
+++ b/hylaa/stateset.py
@@ -58,7 +58,8 @@ class StateSet(Freezable):
             raise RuntimeError("lpi basis matrix in StateSet constructor was not the identity. " + \
                                "Did you construct the lpi using the lputil.from_*() functions?")
         
-        self.input_effects_list = None if mode.b_csr is None else [] # list of input effects at each step
+        # list of input effects matrices of the inputs at each step so far, in the order of the steps
+        self.input_effects_list = None if mode.b_csr is None else []
 
         self.aggstring = None # aggstring that led to this state, like 'full', or '010'
 
@@ -131,12 +132,18 @@ class StateSet(Freezable):
                 # if we're doing multiple steps here we need to get each step's input effects matrix
                 for step in range(self.cur_step_in_mode + 1, step_in_mode):
                     _, ie_mat = self.mode.time_elapse.get_basis_matrix(step)
-                    self.input_effects_list.append(ie_mat)
+                    self.input_effects_list.insert(0, ie_mat)
                     lputil.add_input_effects_matrix(self.lpi, ie_mat, self.mode, self.lgg_beta)
 
                 # add the input effects matrix for the final step (computed before with basis matrix)
-                self.input_effects_list.append(input_effects_matrix)
+                self.input_effects_list.insert(0, input_effects_matrix)
                 lputil.add_input_effects_matrix(self.lpi, input_effects_matrix, self.mode, self.lgg_beta)
+
+                # invariant constraints refer to the inputs of individual steps, so with an invariant each group of
+                # input columns must keep on meaning the same step (the i-th group is the input at the i-th step)
+                if self.mode.inv_list:
+                    lputil.set_input_effects_matrices(self.lpi, self.input_effects_list)
+
                 Timers.toc('input effects matrix')
 
                 #print(f".ss lp columns = {self.lpi.get_num_cols()}")
-- 
2.43.0


From f0c424c6e245c38940bdca2b144cc212ef76b5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:25 +0000
Subject: [PATCH 02/55] fix: do not skip the steps of a mode with inputs when
 its A matrix is zero

---
 hylaa/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hylaa/core.py b/hylaa/core.py
index 4a4d812..91ed2ad 100644
--- a/hylaa/core.py
+++ b/hylaa/core.py
@@ -237,7 +237,8 @@ class Core(Freezable):
                     self.check_guards() # check guards here, before doing an invariant intersection
 
                     # if the current mode has zero dynamics, remove it here
-                    if cur_state.mode.a_csr.nnz == 0 and self.settings.skip_zero_dynamics_modes:
+                    if cur_state.mode.a_csr.nnz == 0 and cur_state.mode.b_csr is None and \
+                                                                            self.settings.skip_zero_dynamics_modes:
                         self.print_normal("State in mode '{}' with zero dynamics, skipping remaining steps".format( \
                             cur_state.mode.name))
                         self.aggdag.cur_state_left_invariant()
-- 
2.43.0


From 4189baffc084a39a246248c4d4fae5c412d6794b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:50 +0000
Subject: [PATCH 03/55] fix: replay_counterexample with one step or no steps in
 a mode, and with resets

---
 hylaa/result.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hylaa/result.py b/hylaa/result.py
index b7b3154..f8bf1db 100644
--- a/hylaa/result.py
+++ b/hylaa/result.py
@@ -231,7 +231,7 @@ def replay_counterexample(ce_segment_list, ha, settings):
         der_func = make_der_func(a_mat, b_mat, [])
 
         start = segment.start
-        times = np.linspace(0, segment.steps * step_size, num=segment.steps)
+        times = np.linspace(0, segment.steps * step_size, num=segment.steps + 1)
         tol = 1e-9
         states = odeint(der_func, start, times, col_deriv=True, rtol=tol, atol=tol, mxstep=int(1e7))
 
@@ -259,7 +259,7 @@ def replay_counterexample(ce_segment_list, ha, settings):
         for left, right in zip(lhs, t.guard_rhs):
             assert left <= right + epsilon, "guard was not enabled during replay counterexample"
 
-        assert not t.reset_minkowski_csr, "unimplemented: resets with minkowski sums"
+        assert t.reset_minkowski_csr is None, "unimplemented: resets with minkowski sums"
 
         if t.reset_csr is not None:
             poststate = t.reset_csr * states[-1]
-- 
2.43.0


From 3c1d536e55b4dc6c2203ed39e226a39ff590de50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:07 +0000
Subject: [PATCH 04/55] fix: do not report auxiliary initial set variables as
 part of a counterexample's start

---
 hylaa/lputil.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/hylaa/lputil.py b/hylaa/lputil.py
index 8a6a36a..dcb6516 100644
--- a/hylaa/lputil.py
+++ b/hylaa/lputil.py
@@ -123,8 +123,11 @@ def from_constraints(csr, rhs, mode, types=None, names=None, dims=None):
     lpi.add_rows_equal_zero(dims)
 
     if names is None:
-        names = ["m{}_i{}".format(mode.mode_id, var_index) for var_index in range(csr.shape[1])]
-        
+        names = ["m{}_i{}".format(mode.mode_id, var_index) for var_index in range(dims)]
+
+        # the remaining columns are not state variables (for example, the factors of a zonotope's generators)
+        names += ["z{}".format(var_index) for var_index in range(csr.shape[1] - dims)]
+
     names += ["m{}_c{}".format(mode.mode_id, var_index) for var_index in range(dims)]
     
     lpi.add_cols(names)
-- 
2.43.0


From 932ac2005bf5b807ae48f551f1e6c0a10f1264c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:42 +0000
Subject: [PATCH 05/55] fix: stop replaying a deaggregated node when it reaches
 the time bound

---
 hylaa/aggdag.py        | 20 ++++++++++++++++++++
 hylaa/deaggregation.py |  2 +-
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/hylaa/aggdag.py b/hylaa/aggdag.py
index 906d16a..dac5a3e 100644
--- a/hylaa/aggdag.py
+++ b/hylaa/aggdag.py
@@ -389,6 +389,24 @@ class AggDagNode(Freezable):
 
         return rv
 
+    def replay_check_time_bound(self, step):
+        '''
+        would advancing the state to the given step (in the mode) exceed the reachability time bound?
+
+        this is used during a replay, as a node may reach the bound earlier than the (split) parent whose operations are
+        being replayed. If so, the replay of this node is finished.
+        '''
+
+        state = self.stateset
+        min_steps = state.cur_steps_since_start[0] + step - state.cur_step_in_mode
+
+        rv = min_steps > self.aggdag.settings.num_steps
+
+        if rv:
+            self.op_list.append(OpLeftInvariant(state.cur_step_in_mode, self, True))
+
+        return rv
+
     def replay_op(self, op_list, i):
         '''
         replay a single operation in the current node
@@ -408,6 +426,8 @@ class AggDagNode(Freezable):
 
         if isinstance(op, OpLeftInvariant):
             self.op_list.append(op)
+        elif self.replay_check_time_bound(op.step):
+            self.aggdag.core.print_verbose("replay reached the computation time bound")
         elif isinstance(op, OpTransition):
             self.replay_op_transition(cur_state, op)
         elif isinstance(op, OpInvIntersect):
diff --git a/hylaa/deaggregation.py b/hylaa/deaggregation.py
index 85018a0..821da9f 100644
--- a/hylaa/deaggregation.py
+++ b/hylaa/deaggregation.py
@@ -147,7 +147,7 @@ class DeaggregationManager(Freezable):
 
         # advance the children to the current step if in case we only had inv_intersection operations
         for child in self.deagg_children:
-            if not child.node_left_invariant():
+            if not child.node_left_invariant() and not child.replay_check_time_bound(cur_step_in_mode):
                 child.stateset.step(cur_step_in_mode)
 
         if not parent_left_invariant:
-- 
2.43.0


From c2d85c01d55e0b8a25f953a4f2ebcaadc0acddff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:11 +0000
Subject: [PATCH 06/55] fix: a time-triggered transition at the time bound made
 the next state get dropped

---
 hylaa/core.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hylaa/core.py b/hylaa/core.py
index 91ed2ad..ead477c 100644
--- a/hylaa/core.py
+++ b/hylaa/core.py
@@ -257,6 +257,7 @@ class Core(Freezable):
         self.aggdag.print_waiting_list()
 
         self.result.last_cur_state = cur_state = self.aggdag.pop_waiting_list()
+        self.took_tt_transition = False # the flag is about the previous state (which may have reached the time bound)
 
         self.print_normal("Removed state in mode '{}' at step {} ({} in mode) (Waiting list has {} left)".format( \
                 cur_state.mode.name, cur_state.cur_steps_since_start, cur_state.cur_step_in_mode, \
-- 
2.43.0


From d23956024c0dc3b0534b0b5416d6f5ea2ed83bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:15 +0000
Subject: [PATCH 07/55] fix: only use the time-triggered optimization if time
 makes the invariant become false

---
 hylaa/hybrid_automaton.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/hylaa/hybrid_automaton.py b/hylaa/hybrid_automaton.py
index 7f2166a..0ca9cdb 100644
--- a/hylaa/hybrid_automaton.py
+++ b/hylaa/hybrid_automaton.py
@@ -803,7 +803,13 @@ def was_tt_taken(state_lpi, t, step_size, num_steps):
 
             #print(". min_val = {}, max_val = {}, rhs = {}".format(min_val, max_val, rhs))
 
-            if abs(max_val - min_val) < epsilon and min_val <= rhs:
+            # make sure the guard's left-hand side is decreasing, otherwise the invariant (the opposite condition) may
+            # remain true after the transition
+            deriv_dir = -1 * (row * a_csr).toarray()[0]
+            max_deriv_state = state_lpi.minimize(direction_vec=deriv_dir, columns=state_cols)
+            max_deriv = -1 * np.dot(max_deriv_state, deriv_dir)
+
+            if abs(max_val - min_val) < epsilon and min_val <= rhs and max_deriv < -epsilon:
                 rv = True
                 
     return rv
-- 
2.43.0


From 4d929ff39f24c172f490ca2f11412d9b41a4a2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:19 +0000
Subject: [PATCH 08/55] fix: guard strengthening crashed comparing constraints
 on different numbers of variables

---
 hylaa/hybrid_automaton.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hylaa/hybrid_automaton.py b/hylaa/hybrid_automaton.py
index 0ca9cdb..60d8845 100644
--- a/hylaa/hybrid_automaton.py
+++ b/hylaa/hybrid_automaton.py
@@ -37,9 +37,9 @@ class LinearConstraint(Freezable):
             rv = False
         elif self.csr.shape != other.csr.shape:
             rv = False
-        elif not (self.csr.indices == other.csr.indices).all():
+        elif not np.array_equal(self.csr.indices, other.csr.indices):
             rv = False
-        elif not (self.csr.indptr == self.csr.indptr).all():
+        elif not np.array_equal(self.csr.indptr, other.csr.indptr):
             rv = False
         else:
             for i in range(len(self.csr.data)):
-- 
2.43.0


From 12d9b992b6d8920692ab1c7266791a313e8b7c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:24 +0000
Subject: [PATCH 09/55] fix: stop_on_aggregated_error did not stop upon a
 concrete error

---
 hylaa/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hylaa/core.py b/hylaa/core.py
index ead477c..0800891 100644
--- a/hylaa/core.py
+++ b/hylaa/core.py
@@ -86,7 +86,8 @@ class Core(Freezable):
         if self.doing_simulation:
             finished = not self.sim_states and not self.sim_waiting_list
         else:
-            if self.settings.stop_on_aggregated_error and self.result.has_aggregated_error:
+            if self.settings.stop_on_aggregated_error and (self.result.has_aggregated_error or \
+                                                           self.result.has_concrete_error):
                 finished = True
             elif self.settings.stop_on_concrete_error and self.result.has_concrete_error:
                 finished = True
-- 
2.43.0


From 56a05f8eb28ef07399ffe14967de5a9e93779b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:41 +0000
Subject: [PATCH 10/55] fix: do not print that the system is safe when only an
 overapproximation reached the error

---
 hylaa/core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hylaa/core.py b/hylaa/core.py
index 0800891..ef8b7d8 100644
--- a/hylaa/core.py
+++ b/hylaa/core.py
@@ -422,6 +422,10 @@ class Core(Freezable):
 
         if self.result.has_concrete_error:
             self.print_normal("Result: Error modes are reachable (found counter-example).\n")
+        elif self.result.has_aggregated_error and (self.settings.stop_on_aggregated_error or \
+                                                   not getattr(self.settings.aggstrat, 'deaggregate', False)):
+            self.print_normal("Result: Error modes were reachable when aggregation (overapproximation) was used. " + \
+                              "System may be safe or unsafe.\n")
         elif self.result.has_aggregated_error:
             self.print_normal("Result: System is safe, although error modes were reachable when aggregation " + \
                               "(overapproximation) was used.\n")
-- 
2.43.0


From 1092d665b83127e0dcd46ebaaa6cf2f092fab258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:58 +0000
Subject: [PATCH 11/55] fix: compute_radius_inf used the wrong variables for
 sets reached through a transition

---
 hylaa/lputil.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hylaa/lputil.py b/hylaa/lputil.py
index dcb6516..ae552fa 100644
--- a/hylaa/lputil.py
+++ b/hylaa/lputil.py
@@ -1086,9 +1086,9 @@ def compute_radius_inf(lpi):
         for posneg in [1.0, -1.0]:
             dir_vec = [posneg if n == d else 0.0 for d in range(lpi.dims)]
 
-            lp_result = lpi.minimize(dir_vec)
+            lp_result = lpi.minimize(dir_vec, columns=[lpi.cur_vars_offset + n])
 
-            max_val = max(max_val, abs(lp_result[n]))
+            max_val = max(max_val, abs(lp_result[0]))
 
     return max_val
 
-- 
2.43.0


From f5d7dffe6d3dceb7835d9a49cf56fa0688f55384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:02 +0000
Subject: [PATCH 12/55] fix: approximation models kept using the invariant
 constraint rows of the replaced lp

---
 hylaa/stateset.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hylaa/stateset.py b/hylaa/stateset.py
index 55096f1..439509c 100644
--- a/hylaa/stateset.py
+++ b/hylaa/stateset.py
@@ -349,3 +349,7 @@ class StateSet(Freezable):
             self.apply_approx_lgg()
         elif approx_model != HylaaSettings.APPROX_NONE:
             assert f"Unknown approx_model from settings: {approx_model}"
+
+        if approx_model != HylaaSettings.APPROX_NONE:
+            # the lpi was replaced, so any rows of invariant constraints in the old lpi are no longer meaningful
+            self.invariant_constraint_rows = [None] * len(self.mode.inv_list)
-- 
2.43.0


From 13308ff00e41067dc037d0a7d679ecd0e9793051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:07 +0000
Subject: [PATCH 13/55] fix: crash making a counterexample when an
 approximation model is used

---
 hylaa/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hylaa/core.py b/hylaa/core.py
index ef8b7d8..eba5f96 100644
--- a/hylaa/core.py
+++ b/hylaa/core.py
@@ -120,7 +120,9 @@ class Core(Freezable):
                               f"{self.settings.num_steps}, time {times}")
 
 
-            if self.settings.make_counterexample and not self.result.counterexample:
+            # with an approximation model, sets are overapproximations and so there's no concrete trace in the lp
+            if self.settings.make_counterexample and not self.result.counterexample and \
+                                                self.settings.approx_model == HylaaSettings.APPROX_NONE:
                 self.print_verbose("Reached concrete error state; making concrete counter-example")
                 self.result.counterexample = make_counterexample(self.hybrid_automaton, state, t, t_lpi)
 
-- 
2.43.0


From 6c909f126596a9774c06ec37be5de61262caf9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:34 +0000
Subject: [PATCH 14/55] fix: get_rhs returned zero for >= constraints

---
 hylaa/lpinstance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hylaa/lpinstance.py b/hylaa/lpinstance.py
index 495b7ae..69739f7 100644
--- a/hylaa/lpinstance.py
+++ b/hylaa/lpinstance.py
@@ -808,7 +808,7 @@ class LpInstance(Freezable): # pylint: disable=too-many-public-methods
             if row_type in [glpk.GLP_FX, glpk.GLP_UP]:
                 limit = glpk.glp_get_row_ub(self.lp, row + 1)
             elif row_type == glpk.GLP_LO:
-                limit = glpk.glp_get_row_ub(self.lp, row + 1)
+                limit = glpk.glp_get_row_lb(self.lp, row + 1)
             else:
                 raise RuntimeError("Error: Unsupported type ({}) in getRhs() in row {}".format(row_type, row))
 
-- 
2.43.0


From 93b0f0430658ccc82a82eefaf9899986a8fd45f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:34 +0000
Subject: [PATCH 15/55] fix: reorthogonalize_matrix modified the passed-in
 matrix

---
 hylaa/lputil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hylaa/lputil.py b/hylaa/lputil.py
index ae552fa..1f2f0e6 100644
--- a/hylaa/lputil.py
+++ b/hylaa/lputil.py
@@ -991,7 +991,7 @@ def reorthogonalize_matrix(mat, dims):
             if cur_vec is None:
                 cur_vec = np.random.rand(dims,)
         else:
-            cur_vec = mat[next_index]
+            cur_vec = np.array(mat[next_index], dtype=float) # copy, as projecting below is done in place
             next_index += 1
 
         # project out the previous vectors
-- 
2.43.0


From fedfe58193c58b45a097ed1be3d054e7ed2e792d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:45 +0000
Subject: [PATCH 16/55] fix: use the values of the final basis after GLPK's
 dual simplex (it may report those of an infeasible one)

---
 hylaa/lpinstance.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/hylaa/lpinstance.py b/hylaa/lpinstance.py
index 69739f7..9e878b8 100644
--- a/hylaa/lpinstance.py
+++ b/hylaa/lpinstance.py
@@ -562,6 +562,15 @@ class LpInstance(Freezable): # pylint: disable=too-many-public-methods
 
         Timers.tic('glp_simplex')
         simplex_res = glpk.glp_simplex(self.lp, params)
+
+        if simplex_res == 0 and glpk.glp_get_status(self.lp) == glpk.GLP_OPT:
+            # after removing a perturbation, GLPK's dual simplex may report the variable values of an earlier (infeasible)
+            # basis, so recompute these for the final basis (and continue in the rare case that it wasn't optimal)
+            if glpk.glp_warm_up(self.lp) != 0 or glpk.glp_get_status(self.lp) != glpk.GLP_OPT:
+                params.meth = glpk.GLP_PRIMAL
+                simplex_res = glpk.glp_simplex(self.lp, params)
+                params.meth = glpk.GLP_DUALP
+
         Timers.toc('glp_simplex')
 
         if simplex_res != 0:
-- 
2.43.0


From 3a1542bb2ef8267ec5a540fe01afce749c2dfb49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:50 +0000
Subject: [PATCH 17/55] fix: deaggregation lost the states an aggregated
 successor had from other predecessors

---
 hylaa/deaggregation.py | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/hylaa/deaggregation.py b/hylaa/deaggregation.py
index 821da9f..e57e03e 100644
--- a/hylaa/deaggregation.py
+++ b/hylaa/deaggregation.py
@@ -83,6 +83,10 @@ class DeaggregationManager(Freezable):
 
         self.deagg_parent, self.deagg_children = self.waiting_nodes.popleft()
         self.replay_step = 0
+
+        # the parent may itself be the outcome of a replay, with states already added to the waiting list
+        self.aggdag.remove_node_decendants_from_waiting_list(self.deagg_parent)
+
         self.nodes_to_ops = {}
 
         # pause plot
@@ -167,12 +171,33 @@ class DeaggregationManager(Freezable):
                 node = self.aggdag.make_node(ops, child.agg_type_from_parents, child.stateset.aggstring)
                 
                 self.waiting_nodes.append((child, [node]))
+
+            self.keep_ops_from_other_parents()
                 
             self.deagg_parent = self.deagg_children = self.replay_step = self.nodes_to_ops = None
 
             #print(".deaggregation calling aggdag.save_viz()")
             #self.aggdag.save_viz()
 
+    def keep_ops_from_other_parents(self):
+        '''
+        successors of the node being replayed are replaced, but these may have been aggregated with states that come from
+        other nodes (if the paths are allowed to differ). Make nodes for these states and replay them, too.
+        '''
+
+        for old_op in self.deagg_parent.op_list:
+            child = old_op.child_node if isinstance(old_op, OpTransition) else None
+
+            if child is None:
+                continue
+
+            ops = [op for op in child.parent_ops if op.parent_node is not self.deagg_parent and op.child_node is child]
+
+            if ops:
+                node = self.aggdag.make_node(ops, child.agg_type_from_parents, child.stateset.aggstring)
+
+                self.waiting_nodes.append((child, [node]))
+
     def update_transition_successors(self, old_op, new_op):
         '''
         during a replay, update a node's successsors recursively
-- 
2.43.0


From d79c13065239fb5a9ea71c48eb5407be4e48e9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:28 +0000
Subject: [PATCH 18/55] fix: variables affected by inputs are not
 time-triggered

---
 hylaa/hybrid_automaton.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/hylaa/hybrid_automaton.py b/hylaa/hybrid_automaton.py
index 60d8845..3024904 100644
--- a/hylaa/hybrid_automaton.py
+++ b/hylaa/hybrid_automaton.py
@@ -619,17 +619,20 @@ def get_tt_vars(mode):
 
     tt_vars = []
 
+    # variables that are affected by the inputs are not only determined by constants
+    input_vars = [] if mode.b_csr is None else mode.b_csr.nonzero()[0]
+
     # find all variables with derivative equal to zero
     constant_vars = []
 
     for i in range(mode.a_csr.shape[0]):
         nonzeros = mode.a_csr[i].getnnz()
 
-        if nonzeros == 0: # row of all zeros
+        if nonzeros == 0 and i not in input_vars: # row of all zeros
             constant_vars.append(i)
 
     for row_index, row in enumerate(mode.a_csr):
-        if row.getnnz() == 0: # skip constant variables
+        if row.getnnz() == 0 or row_index in input_vars: # skip constant variables, and those affected by inputs
             continue
 
         all_constant = True
-- 
2.43.0


From 90d3613d81a06d04f09a4727f65bf57b261fe304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:00 +0000
Subject: [PATCH 19/55] fix: LGG input effects when skipping several steps at
 once (sparse block)

---
 hylaa/time_elapse_expm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hylaa/time_elapse_expm.py b/hylaa/time_elapse_expm.py
index 99df3da..b35e7ff 100644
--- a/hylaa/time_elapse_expm.py
+++ b/hylaa/time_elapse_expm.py
@@ -127,7 +127,7 @@ class TimeElapseExpmMult(Freezable):
 
                 if self.use_lgg:
                     # make new (wider) input effects matrix
-                    blocks = [self.cur_input_effects_matrix, prev_step_mat_exp]
+                    blocks = [self.cur_input_effects_matrix, prev_step_mat_exp.toarray()]
                     self.cur_input_effects_matrix = np.concatenate(blocks, axis=1)
 
             Timers.toc('slow_step')
-- 
2.43.0


From 8235a44889ebdf8c50677356e38ce0bfcbaaf5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:00 +0000
Subject: [PATCH 20/55] fix: LGG input effects were computed from the exact
 ones of the previous step

---
 hylaa/time_elapse_expm.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hylaa/time_elapse_expm.py b/hylaa/time_elapse_expm.py
index b35e7ff..addf72b 100644
--- a/hylaa/time_elapse_expm.py
+++ b/hylaa/time_elapse_expm.py
@@ -141,3 +141,6 @@ class TimeElapseExpmMult(Freezable):
 
         self.use_lgg = True
         self.one_step_input_effects_matrix = self.b_csc.toarray() * self.time_elapser.step_size
+
+        # the current matrices are not from the LGG model, so they can't be used for computing those of the next step
+        self.cur_step = 0
-- 
2.43.0


From 83b21637222f5e3978d06907a5a858367d966499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:21 +0000
Subject: [PATCH 21/55] fix: minimize failed on infeasible programs that are
 unbounded without their constraints

---
 hylaa/lpinstance.py | 41 +++++++++++++++++++++++++++++------------
 1 file changed, 29 insertions(+), 12 deletions(-)

diff --git a/hylaa/lpinstance.py b/hylaa/lpinstance.py
index 9e878b8..aaf4131 100644
--- a/hylaa/lpinstance.py
+++ b/hylaa/lpinstance.py
@@ -561,16 +561,7 @@ class LpInstance(Freezable): # pylint: disable=too-many-public-methods
         params.tm_lim = 1000 # 1000 ms time limit
 
         Timers.tic('glp_simplex')
-        simplex_res = glpk.glp_simplex(self.lp, params)
-
-        if simplex_res == 0 and glpk.glp_get_status(self.lp) == glpk.GLP_OPT:
-            # after removing a perturbation, GLPK's dual simplex may report the variable values of an earlier (infeasible)
-            # basis, so recompute these for the final basis (and continue in the rare case that it wasn't optimal)
-            if glpk.glp_warm_up(self.lp) != 0 or glpk.glp_get_status(self.lp) != glpk.GLP_OPT:
-                params.meth = glpk.GLP_PRIMAL
-                simplex_res = glpk.glp_simplex(self.lp, params)
-                params.meth = glpk.GLP_DUALP
-
+        simplex_res = self._run_simplex(params)
         Timers.toc('glp_simplex')
 
         if simplex_res != 0:
@@ -580,13 +571,13 @@ class LpInstance(Freezable): # pylint: disable=too-many-public-methods
 
             if simplex_res == glpk.GLP_ESING: # singular matrix, can happen after replacing constraints
                 glpk.glp_std_basis(self.lp)
-                simplex_res = glpk.glp_simplex(self.lp, params)
+                simplex_res = self._run_simplex(params)
 
             if simplex_res != 0:
                 glpk.glp_cpx_basis(self.lp) # resets the initial basis
                 params.msg_lev = glpk.GLP_MSG_ON # turn printing on
                 params.tm_lim = 30 * 1000 # second try: 30 second time limit
-                simplex_res = glpk.glp_simplex(self.lp, params)
+                simplex_res = self._run_simplex(params)
 
         # process simplex result
         rv = self._process_simplex_result(simplex_res, columns)
@@ -608,6 +599,32 @@ class LpInstance(Freezable): # pylint: disable=too-many-public-methods
 
         return rv
 
+    def _run_simplex(self, params):
+        '''run glpk's dual simplex method, and the primal one where the result of the dual one can't be used
+
+        returns the glpk return code
+        '''
+
+        simplex_res = glpk.glp_simplex(self.lp, params)
+
+        if simplex_res == 0:
+            status = glpk.glp_get_status(self.lp)
+
+            if status == glpk.GLP_OPT:
+                # after removing a perturbation, the dual simplex may report the variable values of an earlier (infeasible)
+                # basis, so recompute these for the final basis (and continue in the rare case that it wasn't optimal)
+                use_primal = glpk.glp_warm_up(self.lp) != 0 or glpk.glp_get_status(self.lp) != glpk.GLP_OPT
+            else:
+                # without a dual feasible solution, the lp can be infeasible or unbounded
+                use_primal = status == glpk.GLP_INFEAS
+
+            if use_primal:
+                params.meth = glpk.GLP_PRIMAL
+                simplex_res = glpk.glp_simplex(self.lp, params)
+                params.meth = glpk.GLP_DUALP
+
+        return simplex_res
+
     @staticmethod
     def get_simplex_error_string(simplex_res):
         '''get the error message when simplex() fails'''
-- 
2.43.0


From d85cecac9180405027ef94900a37b66f626b2202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:17 +0000
Subject: [PATCH 22/55] fix: reorthogonalize_matrix re-used (and changed) the
 previous direction when it had to generate one

---
 hylaa/lputil.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hylaa/lputil.py b/hylaa/lputil.py
index 1f2f0e6..40a4d42 100644
--- a/hylaa/lputil.py
+++ b/hylaa/lputil.py
@@ -974,6 +974,8 @@ def reorthogonalize_matrix(mat, dims):
 
     while len(rv) < dims:
         if next_index >= mat.shape[0]:
+            cur_vec = None
+
             # first try to pick orthonormal directions if we can
             for d in range(dims):
                 found_nonzero = False
-- 
2.43.0


From 0177a886615ebf32c2bc8f5a8939cd1e97f00211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:10 +0000
Subject: [PATCH 23/55] fix: symbolic expressions which divide zero by zero
 gave matrices with nan

---
 hylaa/symbolic.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/hylaa/symbolic.py b/hylaa/symbolic.py
index 03a65f2..686d32b 100644
--- a/hylaa/symbolic.py
+++ b/hylaa/symbolic.py
@@ -7,6 +7,8 @@ Stanley Bak
 Nov 2018
 '''
 
+import math
+
 import sympy
 from sympy.parsing.sympy_parser import parse_expr
 from sympy import Mul, Expr, Add, Symbol, Number
@@ -43,6 +45,9 @@ def _extract_linear_terms_rec(e, variables, rv, has_affine_variable):
     elif isinstance(e, Number):
         val = float(e)
 
+        if not math.isfinite(val):
+            raise RuntimeError(f"constant is not finite: '{e}'")
+
         if val != 0:
             if not has_affine_variable:
                 raise RuntimeError(f"expression has affine variables but has_affine_variable was False: '{e}'")
@@ -76,7 +81,12 @@ def _extract_linear_terms_rec(e, variables, rv, has_affine_variable):
         except ValueError:
             raise RuntimeError(f"variable {sym_term.name} not found in variable list: {variables}")
 
-        rv[index] += float(num_term)
+        val = float(num_term)
+
+        if not math.isfinite(val):
+            raise RuntimeError(f"coefficient is not finite: '{e}'")
+
+        rv[index] += val
     else:
         raise RuntimeError(f"unsupported term of type {type(e)}: '{e}'")
 
-- 
2.43.0


From 16a5bd8501984667f3686d006285b1b846b034d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:10 +0000
Subject: [PATCH 24/55] fix: make_condition accepted conditions without a
 left-hand side

---
 hylaa/symbolic.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hylaa/symbolic.py b/hylaa/symbolic.py
index 686d32b..de546bd 100644
--- a/hylaa/symbolic.py
+++ b/hylaa/symbolic.py
@@ -166,6 +166,9 @@ def make_condition(variables, condition_list, constant_dict, has_affine_variable
 
         left, right = cond.split("<=")
 
+        if not left.strip() or not right.strip():
+            raise RuntimeError(f"Expected expressions on both sides of condition: '{cond}'")
+
         # swap left and right for '>=' expressions
         if greater_than_count == 1:
             left, right = right, left
-- 
2.43.0


From 21d10f85b81ee8b628bdb8a51cf907db503a0b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:18 +0000
Subject: [PATCH 25/55] fix: check_trace.check failed for every trace, as the
 number of samples was a float

---
 hylaa/check_trace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hylaa/check_trace.py b/hylaa/check_trace.py
index 42faeac..6c20903 100644
--- a/hylaa/check_trace.py
+++ b/hylaa/check_trace.py
@@ -90,7 +90,7 @@ def check(a_matrix, b_matrix, step, max_time, start_point, inputs, normal_vec, e
 
     # we want to roughly get the desired number of sample points, so we may need to do multiple
     # samples per input
-    samples_per_input = approx_samples / max(1, len(inputs))
+    samples_per_input = int(approx_samples // max(1, len(inputs)))
     if samples_per_input < 1:
         samples_per_input = 1
 
-- 
2.43.0


From 9ae70fd035ce2271d2aebb58a1574f61c08166f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:18 +0000
Subject: [PATCH 26/55] fix: check_trace.check without inputs failed with a B
 matrix, and did not simulate without one

---
 hylaa/check_trace.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hylaa/check_trace.py b/hylaa/check_trace.py
index 6c20903..d66c73a 100644
--- a/hylaa/check_trace.py
+++ b/hylaa/check_trace.py
@@ -80,8 +80,9 @@ def check(a_matrix, b_matrix, step, max_time, start_point, inputs, normal_vec, e
 
     assert abs(total_steps * step - max_time) < 1e-9, "Rounding issue with number of steps"
 
-    if inputs is None:
-        inputs = [0] * (total_steps)
+    if inputs is None or b_matrix is None:
+        num_inputs = 0 if b_matrix is None else b_matrix.shape[1]
+        inputs = [[0.0] * num_inputs] * total_steps
 
     assert len(inputs) <= total_steps, "more inputs({}) than steps({})?".format(len(inputs), total_steps)
 
-- 
2.43.0


From 72b9001183e9b0922feb0bb5c1a0424ff1e2b582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:46 +0000
Subject: [PATCH 27/55] fix: check_trace.plot used xrange, changed the
 passed-in inputs and omitted the last one

---
 hylaa/check_trace.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hylaa/check_trace.py b/hylaa/check_trace.py
index d66c73a..f4020a7 100644
--- a/hylaa/check_trace.py
+++ b/hylaa/check_trace.py
@@ -228,13 +228,13 @@ def plot(sim_states, sim_times, inputs, normal_vec, normal_val, max_time, step,
         ax[0].set_title('Counter-Example Trace', fontsize=28)
 
     if inputs is not None and len(inputs) > 0:
-        inputs.append(inputs[-1]) # there is one less input than time instants
+        inputs = list(inputs) + [inputs[-1]] # there is one less input than time instants
         inputs = np.array(inputs, dtype=float)
 
         flat_inputs = []
         flat_times = []
 
-        for i in xrange(total_steps-1):
+        for i in range(min(total_steps, len(inputs) - 1)):
             flat_times += [input_times[i], input_times[i+1]]
             flat_inputs += [inputs[i, :], inputs[i, :]]
 
@@ -243,7 +243,7 @@ def plot(sim_states, sim_times, inputs, normal_vec, normal_val, max_time, step,
             flat_times += [input_times[0], input_times[0]]
             flat_inputs += [inputs[0, :], inputs[0, :]]
 
-        for row in xrange(len(flat_inputs[0])):
+        for row in range(len(flat_inputs[0])):
             ax[1].plot(flat_times, [single_input[row] for single_input in flat_inputs], label="$u_{}$".format(row+1))
 
     ##################
@@ -259,7 +259,7 @@ def plot(sim_states, sim_times, inputs, normal_vec, normal_val, max_time, step,
 
     ##################
     # legend
-    for i in xrange(2 if inputs is not None else 1):
+    for i in range(2 if inputs is not None else 1):
         legend = ax[i].legend(loc='best', numpoints=1)
 
         # Set the fontsize
-- 
2.43.0


From 7a05058b0a02d146fbdca36907c3fe4a4ec245f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:00 +0000
Subject: [PATCH 28/55] fix: vertex enumeration failed for flat sets with two
 or more dimensions

---
 hylaa/kamenev.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/hylaa/kamenev.py b/hylaa/kamenev.py
index 632b49f..2966c95 100644
--- a/hylaa/kamenev.py
+++ b/hylaa/kamenev.py
@@ -123,6 +123,21 @@ def get_verts(dims, supp_point_func, epsilon=1e-7):
 
     if len(init_simplex) < 3:
         return init_simplex # for 0-d and 1-d sets, the init_simplex corners are the only possible extreme points
+
+    if len(init_simplex) < dims + 1:
+        # degenerate set: get the vertices within the affine subspace it spans
+        origin = np.array(init_simplex[0], dtype=float)
+        basis = np.linalg.svd([pt - origin for pt in init_simplex[1:]])[2][:len(init_simplex) - 1]
+
+        def supp_point_projected(vec):
+            'supporting point in the coordinates of the subspace'
+
+            return np.dot(basis, supp_point_func(np.dot(vec, basis)) - origin)
+
+        simplex = [np.dot(basis, pt - origin) for pt in init_simplex]
+        verts, _ = _v_h_rep_given_init_simplex(simplex, supp_point_projected, epsilon=epsilon)
+
+        return np.dot(verts, basis) + origin
     
     rv, _ = _v_h_rep_given_init_simplex(init_simplex, supp_point_func, epsilon=epsilon)
 
-- 
2.43.0


From 5c051fcdace0e2b07aec951e1f83b33a2ac5e958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:04 +0000
Subject: [PATCH 29/55] fix: simulations plotted with ydim 0 showed time
 instead, direction arrays failed

---
 hylaa/lpplot.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hylaa/lpplot.py b/hylaa/lpplot.py
index 292c638..0c96310 100644
--- a/hylaa/lpplot.py
+++ b/hylaa/lpplot.py
@@ -23,13 +23,13 @@ def pt_to_plot_xy(pt, xdim=0, ydim=1, cur_time=0.0):
 
     if isinstance(xdim, int):
         x = pt[xdim]
-    elif xdim:
+    elif xdim is not None:
         assert isinstance(xdim, np.ndarray)
         x = np.dot(pt, xdim)
 
-    if ydim and isinstance(ydim, int):
+    if isinstance(ydim, int):
         y = pt[ydim]
-    elif ydim:
+    elif ydim is not None:
         assert isinstance(ydim, np.ndarray)
         y = np.dot(pt, ydim)
 
-- 
2.43.0


From 1a3e3c5b4d9b33eb5833e55a727c4ffc9c67878f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:04 +0000
Subject: [PATCH 30/55] fix: get_verts failed with time on both axes

---
 hylaa/lpplot.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/hylaa/lpplot.py b/hylaa/lpplot.py
index 0c96310..8a46aae 100644
--- a/hylaa/lpplot.py
+++ b/hylaa/lpplot.py
@@ -60,13 +60,13 @@ def get_verts(lpi, xdim=0, ydim=1, plot_vecs=None, cur_time=0.0):
     #try:
     if xdim is None and ydim is None:
         if abs(cur_time[0] - cur_time[1]) < tol:
-            pts = [[cur_time, cur_time]]
+            verts = [[cur_time[0], cur_time[0]]]
         else:
-            pts = []
-            pts.append([cur_time.min, cur_time.min])
-            pts.append([cur_time.min, cur_time.max])
-            pts.append([cur_time.max, cur_time.max])
-            pts.append([cur_time.max, cur_time.min])
+            verts = []
+            verts.append([cur_time[0], cur_time[0]])
+            verts.append([cur_time[0], cur_time[1]])
+            verts.append([cur_time[1], cur_time[1]])
+            verts.append([cur_time[1], cur_time[0]])
 
     elif xdim is None:
         # plot over time
-- 
2.43.0


From 0f97e41b977ba651282dd9588661bee32d4bc5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:16 +0000
Subject: [PATCH 31/55] fix: get_verts failed for plot directions given as
 np.array

---
 hylaa/lpplot.py | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/hylaa/lpplot.py b/hylaa/lpplot.py
index 8a46aae..553c302 100644
--- a/hylaa/lpplot.py
+++ b/hylaa/lpplot.py
@@ -117,6 +117,12 @@ def get_verts(lpi, xdim=0, ydim=1, plot_vecs=None, cur_time=0.0):
             verts.append([xmin, cur_time[1]])
     else:
         # 2-d plot
+        if isinstance(xdim, (int, np.integer)):
+            xdim = np.array([1.0 if dim == xdim else 0.0 for dim in range(lpi.dims)], dtype=float)
+
+        if isinstance(ydim, (int, np.integer)):
+            ydim = np.array([1.0 if dim == ydim else 0.0 for dim in range(lpi.dims)], dtype=float)
+
         bboxw = bbox_widths(lpi, xdim, ydim)
 
         # use bbox to determine acceptable accuracy... might be better to somehow do this
@@ -131,8 +137,8 @@ def get_verts(lpi, xdim=0, ydim=1, plot_vecs=None, cur_time=0.0):
             d = np.zeros((lpi.dims,), dtype=float)
             # negative here because we want to MAXIMIZE not minimize
 
-            for i, dim_index in enumerate(dim_list):
-                d[dim_index] = -vec[i]
+            for i, dim_dir in enumerate(dim_list):
+                d -= vec[i] * dim_dir
 
             lpi.set_minimize_direction(d)
 
@@ -140,8 +146,8 @@ def get_verts(lpi, xdim=0, ydim=1, plot_vecs=None, cur_time=0.0):
 
             rv = []
 
-            for dim in dim_list:
-                rv.append(res[dim])
+            for dim_dir in dim_list:
+                rv.append(np.dot(dim_dir, res))
 
             rv = np.array(rv, dtype=float)
 
@@ -167,18 +173,14 @@ def get_verts(lpi, xdim=0, ydim=1, plot_vecs=None, cur_time=0.0):
     return verts
 
 def bbox_widths(lpi, xdim, ydim):
-    'find and return the bounding box widths of the lp for the passed-in dimensions'
+    'find and return the bounding box widths of the lp for the passed-in directions (np.array)'
 
     rv = []
-    dims = lpi.dims
+    columns = [lpi.cur_vars_offset + n for n in range(lpi.dims)]
 
-    for dim in [xdim, ydim]:
-        col = lpi.cur_vars_offset + dim
-        min_dir = [1 if i == dim else 0 for i in range(dims)]
-        max_dir = [-1 if i == dim else 0 for i in range(dims)]
-        
-        min_val = lpi.minimize(direction_vec=min_dir, columns=[col])[0]
-        max_val = lpi.minimize(direction_vec=max_dir, columns=[col])[0]
+    for direction in [xdim, ydim]:
+        min_val = np.dot(direction, lpi.minimize(direction_vec=direction, columns=columns))
+        max_val = np.dot(direction, lpi.minimize(direction_vec=-1 * direction, columns=columns))
 
         dx = max_val - min_val
 
-- 
2.43.0


From 0862d0e4c3bb49ea77a412f0718093014d69b34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:26 +0000
Subject: [PATCH 32/55] fix: vertex enumeration mistook points of a flat set
 for its extreme points

---
 hylaa/kamenev.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hylaa/kamenev.py b/hylaa/kamenev.py
index 2966c95..0af184e 100644
--- a/hylaa/kamenev.py
+++ b/hylaa/kamenev.py
@@ -58,7 +58,8 @@ def _find_two_points(dims, supp_point_func):
         vec = np.array([1 if i == d else 0 for i in range(dims)], dtype=float)
         p2 = supp_point_func(vec)
 
-        if not np.allclose(p1, p2):
+        # the points may differ in other dimensions even if the set is flat in this one (they are then not extreme)
+        if not np.allclose(p1[d], p2[d]):
             pts = [p1, p2]
             break
 
-- 
2.43.0


From a6b44132492ad2e9787ccf7348701cd596397d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:29 +0000
Subject: [PATCH 33/55] fix: simulation failed with the Unaggregated strategy

---
 hylaa/aggstrat.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/hylaa/aggstrat.py b/hylaa/aggstrat.py
index ceb8852..70c11a6 100644
--- a/hylaa/aggstrat.py
+++ b/hylaa/aggstrat.py
@@ -47,6 +47,13 @@ class AggregationStrategy(Freezable):
 
         return [waiting_list[0]]
 
+    def get_simulation_pop_mode(self, sim_waiting_list):
+        '''
+        returns the mode to be popped off the simulation waiting list (a list of (mode, pt, num_steps))
+        '''
+
+        return sim_waiting_list[0][0]
+
     def get_deagg_node(self, aggdag):
         '''Called before popping a state off the waiting list. Get the aggdag node to deaggregate (if any).
         '''
-- 
2.43.0


From 70914f5435608b0ef90eb8012ceb3f4bc659e850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:29 +0000
Subject: [PATCH 34/55] fix: all simulations but the first could take
 transitions without a step in the mode

---
 hylaa/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hylaa/core.py b/hylaa/core.py
index eba5f96..f17c94f 100644
--- a/hylaa/core.py
+++ b/hylaa/core.py
@@ -526,6 +526,8 @@ class Core(Freezable):
         else:
             # simulate one step for all states in sim_states
             finished = True
+            should_try_guards = self.sim_should_try_guards # the same for all states
+
             for i, obj in enumerate(self.sim_states):
                 if obj is None:
                     continue
@@ -542,7 +544,7 @@ class Core(Freezable):
                     continue
 
                 # try guards (before advancing)
-                if self.sim_should_try_guards:
+                if should_try_guards:
                     for transition in mode.transitions:
                         if transition.is_guard_true_for_point(pt):
 
-- 
2.43.0


From 2ad96534ed1e919350add7404b0d3d52d792c01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:49 +0000
Subject: [PATCH 35/55] fix: PlotData.get_verts_list returned only the data of
 the first set of a mode

---
 hylaa/result.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hylaa/result.py b/hylaa/result.py
index f8bf1db..d41c163 100644
--- a/hylaa/result.py
+++ b/hylaa/result.py
@@ -53,9 +53,9 @@ class PlotData(Freezable):
         self.freeze_attrs()
 
     def get_verts_list(self, mode_name, plot_index=0):
-        'get a list of lists for the passed-in mode'
+        'get a list of verts (each one is a list of points) for the passed-in mode'
 
-        return self.mode_to_obj_list[plot_index][mode_name][0]
+        return [obj[0] for obj in self.mode_to_obj_list[plot_index].get(mode_name, [])]
 
     def add_state(self, state, verts, plot_index):
         'add a plotted state'
-- 
2.43.0


From 52a87595c2cd6a9574be72f7bf3fa4dc58fee2b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:49 +0000
Subject: [PATCH 36/55] fix: states replaced by deaggregation were only removed
 from the data of the first subplot

---
 hylaa/result.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/hylaa/result.py b/hylaa/result.py
index d41c163..cb7a2c6 100644
--- a/hylaa/result.py
+++ b/hylaa/result.py
@@ -67,12 +67,11 @@ class PlotData(Freezable):
         self.mode_to_obj_list[plot_index][mode_name].append(obj)
 
     def remove_state(self, state, step):
-        'remove a state that was previously added'
-
-        found = False
+        'remove a state that was previously added (to every plot)'
 
         for mode_to_obj in self.mode_to_obj_list:
             obj_list = mode_to_obj[state.mode.name]
+            found = False
 
             for index, obj in enumerate(obj_list):
                 _, istate, istep, desc = obj
@@ -83,10 +82,7 @@ class PlotData(Freezable):
                     obj_list.pop(index)
                     break
 
-            if found:
-                break
-
-        assert found
+            assert found
 
     def get_plot_data(self, x, y, subplot=0):
         'get the plot data at x, y, or None if not found'
-- 
2.43.0


From 1312b366ea2826791248055a3d5b34adf0384271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:00 +0000
Subject: [PATCH 37/55] fix: the last state was plotted and stored again in
 every extra frame of a video

---
 hylaa/plotutil.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hylaa/plotutil.py b/hylaa/plotutil.py
index 0b8e96b..fcef032 100644
--- a/hylaa/plotutil.py
+++ b/hylaa/plotutil.py
@@ -795,6 +795,8 @@ class PlotManager(Freezable):
                 if self.pause_frames <= 0:
                     self.pause_frames = None
                     self.interactive.paused = False
+        elif self.core.is_finished():
+            pass # extra frames at the end of a video, do not add the last state again
         else:
             Timers.tic("frame")
 
-- 
2.43.0


From 0924d7411577cb19c6645b2c6e17497ca0947f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:07 +0000
Subject: [PATCH 38/55] fix: sets drawn with markers were not removed by
 deaggregation (or made it fail)

---
 hylaa/plotutil.py |  3 +++
 hylaa/stateset.py | 13 +++++++++++++
 2 files changed, 16 insertions(+)

diff --git a/hylaa/plotutil.py b/hylaa/plotutil.py
index fcef032..4be6909 100644
--- a/hylaa/plotutil.py
+++ b/hylaa/plotutil.py
@@ -343,6 +343,9 @@ class DrawnShapes(Freezable):
             ydata.append(poly_verts[0][1])
             markers.set_xdata(xdata)
             markers.set_ydata(ydata)
+
+            # save the markers in the StateSet
+            stateset.set_plot_path(self.subplot, markers, len(xdata) - 1)
         else:
             polys = self.parent_to_polys.get(mode_name)
 
diff --git a/hylaa/stateset.py b/hylaa/stateset.py
index 439509c..26d3dc7 100644
--- a/hylaa/stateset.py
+++ b/hylaa/stateset.py
@@ -9,6 +9,7 @@ import math
 import numpy as np
 import scipy as sp
 
+from matplotlib.lines import Line2D
 from matplotlib.path import Path
 
 from hylaa import lpplot, lputil
@@ -200,6 +201,8 @@ class StateSet(Freezable):
     def set_plot_path(self, subplot, path_list, path_index):
         '''
         set the matplotlib path object for this stateset at the current step
+
+        path_list is a list of Path objects, or a Line2D object if the stateset was drawn using a marker
         '''
 
         step = self.cur_step_in_mode
@@ -235,6 +238,16 @@ class StateSet(Freezable):
 
             # for every subplot
             for path_list, index in l:
+                if isinstance(path_list, Line2D):
+                    xdata = path_list.get_xdata()
+                    ydata = path_list.get_ydata()
+                    rv.append([(xdata[index], ydata[index])] * 2)
+
+                    xdata[index] = ydata[index] = float('nan') # not drawn
+                    path_list.set_xdata(xdata)
+                    path_list.set_ydata(ydata)
+                    continue
+
                 rv.append(path_list[index].vertices)
 
                 # this is what actually removes it from the plot
-- 
2.43.0


From 79b8ac22658f89752447772e7e13fa8fbebedcb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:15 +0000
Subject: [PATCH 39/55] fix: copy and normalize the matrices and vectors a
 model is made of

They were used as they were passed in: integers and column vectors failed, repeated entries in sparse matrices made
glpk abort, stored zeros disabled optimizations, and the arrays of the caller were reshaped and relaxed.
---
 hylaa/hybrid_automaton.py | 41 +++++++++++++--------------------------
 hylaa/lputil.py           | 29 +++++++++++++++++++++------
 2 files changed, 37 insertions(+), 33 deletions(-)

diff --git a/hylaa/hybrid_automaton.py b/hylaa/hybrid_automaton.py
index 3024904..357d2c3 100644
--- a/hylaa/hybrid_automaton.py
+++ b/hylaa/hybrid_automaton.py
@@ -121,13 +121,10 @@ class Mode(Freezable):
 
         assert self.a_csr is not None, "A matrix must be set first"
         
-        if not isinstance(constraints_csr, csr_matrix):
-            constraints_csr = csr_matrix(constraints_csr, dtype=float)
+        constraints_csr = lputil.to_csr(constraints_csr)
             
-        if not isinstance(constraints_rhs, np.ndarray):
-            constraints_rhs = np.array(constraints_rhs, dtype=float)
+        constraints_rhs = lputil.to_vec(constraints_rhs)
 
-        constraints_rhs.shape = (len(constraints_rhs), ) # flatten rhs into a 1-d array
         assert constraints_csr.shape[1] == self.a_csr.shape[0], \
             "width of invaraiant constraints({}) must equal A matrix size({})".format( \
             constraints_csr.shape[1], self.a_csr.shape[0])
@@ -214,16 +211,11 @@ class Mode(Freezable):
         '''
     
         assert self.a_csr is not None, "set_dynamics should be done before set_inputs"
-        if not isinstance(b_csr, csr_matrix):
-            b_csr = csr_matrix(b_csr, dtype=float)
+        b_csr = lputil.to_csr(b_csr)
             
-        if not isinstance(u_constraints_csr, csr_matrix):
-            u_constraints_csr = csr_matrix(u_constraints_csr, dtype=float)
+        u_constraints_csr = lputil.to_csr(u_constraints_csr)
             
-        if not isinstance(u_constraints_rhs, np.ndarray):
-            u_constraints_rhs = np.array(u_constraints_rhs, dtype=float)
-        
-        u_constraints_rhs.shape = (len(u_constraints_rhs), ) # flatten init_rhs into a 1-d array
+        u_constraints_rhs = lputil.to_vec(u_constraints_rhs)
 
         # additional checks on inputs
         self._check_inputs(b_csr, u_constraints_csr, u_constraints_rhs, allow_constants)
@@ -237,8 +229,7 @@ class Mode(Freezable):
     def set_dynamics(self, a_csr):
         'sets the autonomous system dynamics (A matrix)'
 
-        if not isinstance(a_csr, csr_matrix):
-            a_csr = csr_matrix(a_csr, dtype=float)
+        a_csr = lputil.to_csr(a_csr)
 
         assert a_csr.shape[0] == a_csr.shape[1], "expected square dynamics matrix, got {}".format(a_csr.shape)
 
@@ -325,11 +316,9 @@ class Transition(Freezable):
     def set_guard(self, guard_csr, guard_rhs):
         '''set the guard'''
         
-        if not isinstance(guard_csr, csr_matrix):
-            guard_csr = csr_matrix(guard_csr, dtype=float)
+        guard_csr = lputil.to_csr(guard_csr)
             
-        if not isinstance(guard_rhs, np.ndarray):
-            guard_rhs = np.array(guard_rhs, dtype=float)
+        guard_rhs = lputil.to_vec(guard_rhs)
         
         assert self.from_mode.a_csr is not None, "A-matrix not assigned in predecessor mode {}".format(self.from_mode)
 
@@ -339,7 +328,6 @@ class Transition(Freezable):
 
         assert lputil.is_feasible(guard_csr, guard_rhs), "guard constraints were infeasible"
 
-        guard_rhs.shape = (len(guard_rhs), ) # flatten into a 1-d array
         assert guard_rhs.shape[0] == guard_csr.shape[0]
 
         self.guard_csr = guard_csr
@@ -371,16 +359,15 @@ class Transition(Freezable):
             assert self.from_mode.a_csr.shape[0] == to_mode_csr.shape[0], "identity reset but num dims changes"
             reset_csr = sp.sparse.identity(self.from_mode.a_csr.shape[0], dtype=float, format='csr')
 
-        if not isinstance(reset_csr, csr_matrix):
-            reset_csr = csr_matrix(reset_csr, dtype=float)
+        reset_csr = lputil.to_csr(reset_csr)
 
-        if reset_minkowski_csr is not None and not isinstance(reset_minkowski_csr, csr_matrix):
-            reset_minkowski_csr = csr_matrix(reset_minkowski_csr, dtype=float)
+        if reset_minkowski_csr is not None:
+            reset_minkowski_csr = lputil.to_csr(reset_minkowski_csr)
 
-        if reset_minkowski_constraints_csr is not None and not isinstance(reset_minkowski_constraints_csr, csr_matrix):
-            reset_minkowski_constraints_csr = csr_matrix(reset_minkowski_constraints_csr, dtype=float)
+        if reset_minkowski_constraints_csr is not None:
+            reset_minkowski_constraints_csr = lputil.to_csr(reset_minkowski_constraints_csr)
 
-        if reset_minkowski_constraints_rhs is not None and not isinstance(reset_minkowski_constraints_rhs, np.ndarray):
+        if reset_minkowski_constraints_rhs is not None:
             reset_minkowski_constraints_rhs = np.array(reset_minkowski_constraints_rhs, dtype=float)
         
         assert reset_csr.shape[1] == self.from_mode.a_csr.shape[0], "reset matrix expected {} columns, got {}".format(
diff --git a/hylaa/lputil.py b/hylaa/lputil.py
index 40a4d42..3a2b181 100644
--- a/hylaa/lputil.py
+++ b/hylaa/lputil.py
@@ -16,6 +16,26 @@ import swiglpk as glpk
 from hylaa.lpinstance import LpInstance, SwigArray
 from hylaa.timerutil import Timers
 
+def to_csr(mat):
+    '''get a csr_matrix of floats with sorted indices, where each nonzero entry (and no other one) is stored once
+
+    the passed-in matrix is not modified
+    '''
+
+    rv = csr_matrix(mat, dtype=float, copy=True)
+    rv.sum_duplicates()
+    rv.eliminate_zeros()
+
+    return rv
+
+def to_vec(vec):
+    'get a (flattened) copy of the passed-in vector as a 1-d np.array of floats'
+
+    rv = np.array(vec, dtype=float)
+    rv.shape = (len(rv), )
+
+    return rv
+
 def from_box(box_list, mode):
     'make a new lp instance from a passed-in box'
 
@@ -103,11 +123,8 @@ def from_constraints(csr, rhs, mode, types=None, names=None, dims=None):
 
     '''
 
-    if not isinstance(csr, csr_matrix):
-        csr = csr_matrix(csr, dtype=float)
-
-    if not isinstance(rhs, np.ndarray):
-        rhs = np.array(rhs, dtype=float)
+    csr = to_csr(csr)
+    rhs = np.array(rhs, dtype=float)
 
     assert len(rhs.shape) == 1
     assert csr.shape[0] == len(rhs)
@@ -128,7 +145,7 @@ def from_constraints(csr, rhs, mode, types=None, names=None, dims=None):
         # the remaining columns are not state variables (for example, the factors of a zonotope's generators)
         names += ["z{}".format(var_index) for var_index in range(csr.shape[1] - dims)]
 
-    names += ["m{}_c{}".format(mode.mode_id, var_index) for var_index in range(dims)]
+    names = names + ["m{}_c{}".format(mode.mode_id, var_index) for var_index in range(dims)]
     
     lpi.add_cols(names)
 
-- 
2.43.0


From d260e106c8282258c8b49161ed4246100a4914f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:34 +0000
Subject: [PATCH 40/55] fix: changes made to the guards for a computation
 affected later ones with the same automaton

---
 hylaa/core.py             |  4 ++++
 hylaa/hybrid_automaton.py | 18 ++++++++++++++++++
 2 files changed, 22 insertions(+)

diff --git a/hylaa/core.py b/hylaa/core.py
index f17c94f..6de9a47 100644
--- a/hylaa/core.py
+++ b/hylaa/core.py
@@ -334,6 +334,10 @@ class Core(Freezable):
         for mode in ha.modes.values():
             mode.init_time_elapse(self.settings.step_size)
 
+        # the guards may have been changed for an earlier computation, possibly with different settings
+        for t in ha.transitions:
+            t.restore_guard()
+
         if self.settings.optimize_tt_transitions:
             ha.detect_tt_transitions(self.settings.step_size, self.settings.num_steps, self.print_debug)
 
diff --git a/hylaa/hybrid_automaton.py b/hylaa/hybrid_automaton.py
index 357d2c3..b014019 100644
--- a/hylaa/hybrid_automaton.py
+++ b/hylaa/hybrid_automaton.py
@@ -259,6 +259,7 @@ class Transition(Freezable):
 
         self.guard_csr = None
         self.guard_rhs = None
+        self.orig_guard = None # (csr, rhs) before they were changed automatically, see restore_guard()
 
         self.reset_csr = None
         self.reset_minkowski_csr = None
@@ -332,6 +333,21 @@ class Transition(Freezable):
 
         self.guard_csr = guard_csr
         self.guard_rhs = guard_rhs
+        self.orig_guard = None
+
+    def save_guard(self):
+        '''save the guard, before it's changed automatically (strengthened or relaxed)'''
+
+        if self.orig_guard is None:
+            self.orig_guard = (self.guard_csr, self.guard_rhs.copy())
+
+    def restore_guard(self):
+        '''undo the automatic changes of the guard (made for another computation with the same automaton)'''
+
+        if self.orig_guard is not None:
+            self.guard_csr, self.guard_rhs = self.orig_guard
+            self.orig_guard = None
+            self.time_triggered = False
 
     def set_reset(self, reset_csr=None, reset_minkowski_csr=None, reset_minkowski_constraints_csr=None,
                   reset_minkowski_constraints_rhs=None):
@@ -539,6 +555,7 @@ class HybridAutomaton(Freezable):
 
             # add all consrtaints in add_guard_list to the transition's guard (construct a new guard matrix)
             if add_guard_list:
+                t.save_guard()
                 inds = [n for n in t.guard_csr.indices]
                 data = [x for x in t.guard_csr.data]
                 indptr = [n for n in t.guard_csr.indptr]
@@ -687,6 +704,7 @@ def check_and_relax_time_triggered(t, tt_vars, epsilon, print_func):
                         break
 
                 if found_invariant:
+                    t.save_guard()
                     t.guard_rhs[index] += epsilon # perform epsilon relaxation
                     print_func("relaxed guard to {} <= {}".format(row.toarray(), t.guard_rhs[index]))
                 
-- 
2.43.0


From 1a45b7c56e118c9d88319f3d66a09acbb9410ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:51 +0000
Subject: [PATCH 41/55] fix: the lgg approximation model failed for small
 inputs or steps

---
 hylaa/stateset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hylaa/stateset.py b/hylaa/stateset.py
index 26d3dc7..7a01402 100644
--- a/hylaa/stateset.py
+++ b/hylaa/stateset.py
@@ -336,10 +336,10 @@ class StateSet(Freezable):
 
         if a_norm > tol and has_inputs:
             # precompute beta as well
-            self.lgg_beta = (math.exp(tau * a_norm) - 1 - tau * a_norm) * (r_v/a_norm)
+            # (bloat by at least tol, since smaller values are not distinguished from zero in the lp)
+            self.lgg_beta = max(tol, (math.exp(tau * a_norm) - 1 - tau * a_norm) * (r_v/a_norm))
             #print(f".ss beta={self.lgg_beta}")
 
-            assert self.lgg_beta > tol, f"lgg approx model beta was too close to zero: {self.lgg_beta}"
             assert self.lgg_beta < 1e5, f"lgg approx model beta was too large (use a smaller step): {self.lgg_beta}"
 
             self.lpi.set_minimize_direction([-1] * self.lpi.dims)
-- 
2.43.0


From c665e811d22a91206d421582bd648af035fc09b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:23 +0000
Subject: [PATCH 42/55] fix: the approximation model was not applied to states
 refined by deaggregation

---
 hylaa/aggdag.py        |  1 +
 hylaa/core.py          |  1 +
 hylaa/deaggregation.py | 23 +++++++++++++++++++++++
 3 files changed, 25 insertions(+)

diff --git a/hylaa/aggdag.py b/hylaa/aggdag.py
index dac5a3e..5e1a5a3 100644
--- a/hylaa/aggdag.py
+++ b/hylaa/aggdag.py
@@ -284,6 +284,7 @@ class AggDagNode(Freezable):
     def __init__(self, parent_op_list, agg_type, aggdag, aggstring):
         self.aggdag = aggdag
         self.op_list = [] # list of Op* objects
+        self.num_entry_ops = 0 # number of ops that were done before the approximation model (if any) was applied
         self.stateset = None # StateSet
 
         # parent information
diff --git a/hylaa/core.py b/hylaa/core.py
index 6de9a47..5533289 100644
--- a/hylaa/core.py
+++ b/hylaa/core.py
@@ -281,6 +281,7 @@ class Core(Freezable):
                 self.aggdag.cur_state_left_invariant()
             else:
                 cur_state.apply_approx_model(self.settings.approx_model)
+                self.aggdag.cur_node.num_entry_ops = len(self.aggdag.cur_node.op_list)
 
         # pause plot
         self.print_verbose("Pausing due to step_pop()")
diff --git a/hylaa/deaggregation.py b/hylaa/deaggregation.py
index e57e03e..24125fa 100644
--- a/hylaa/deaggregation.py
+++ b/hylaa/deaggregation.py
@@ -7,6 +7,7 @@ Nov 2018
 
 from collections import deque, namedtuple
 
+from hylaa.settings import HylaaSettings
 from hylaa.util import Freezable
 from hylaa.timerutil import Timers
 
@@ -89,10 +90,32 @@ class DeaggregationManager(Freezable):
 
         self.nodes_to_ops = {}
 
+        if self.aggdag.settings.approx_model != HylaaSettings.APPROX_NONE:
+            self.enter_mode_with_approx_model()
+
         # pause plot
         self.aggdag.core.print_verbose("Pausing due to start of do_step_replay()")
         self.aggdag.core.plotman.pause()
 
+    def enter_mode_with_approx_model(self):
+        '''apply the approximation model to the children, which is done upon entering a mode, as in Core.do_step_pop()
+
+        the ops of the parent from before this aren't replayed, since the model is applied after them
+        '''
+
+        for child in self.deagg_children:
+            state = child.stateset
+
+            if state.mode.is_error():
+                continue
+
+            if self.aggdag.core.intersect_invariant(state, add_ops_to_aggdag=False):
+                state.apply_approx_model(self.aggdag.settings.approx_model)
+            else:
+                child.op_list.append(OpLeftInvariant(0, child, False))
+
+        self.replay_step = self.deagg_parent.num_entry_ops
+
     def do_step_replay(self):
         'do a refinement replay step'
 
-- 
2.43.0


From 8f0302a61034777040903e04bcf8698d27fff31b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:45 +0000
Subject: [PATCH 43/55] fix: runs depended on the other computations done since
 their core object was constructed

The random generator and the print functions are global, and were assigned when
the Core object was constructed rather than when the computation starts.
---
 hylaa/core.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/hylaa/core.py b/hylaa/core.py
index 5533289..6bec644 100644
--- a/hylaa/core.py
+++ b/hylaa/core.py
@@ -51,13 +51,6 @@ class Core(Freezable):
         self.sim_should_try_guards = None # False for the first step unless urgent_guards is True
         self.sim_took_transition = None  # list of booleans for each sim
 
-        # make random number generation (for example, to find orthogonal directions) deterministic
-        np.random.seed(hylaa_settings.random_seed)
-
-        LpInstance.print_normal = self.print_normal
-        LpInstance.print_verbose = self.print_verbose
-        LpInstance.print_debug = self.print_debug
-
         self.freeze_attrs()
 
     def print_normal(self, msg):
@@ -331,6 +324,15 @@ class Core(Freezable):
     def setup_ha(self, ha):
         'setup hybrid automata for computation / simulation; a substep of setup()'
 
+        # global state, assigned here since other computations may have been done after this object was constructed
+
+        # make random number generation (for example, to find orthogonal directions) deterministic
+        np.random.seed(self.settings.random_seed)
+
+        LpInstance.print_normal = self.print_normal
+        LpInstance.print_verbose = self.print_verbose
+        LpInstance.print_debug = self.print_debug
+
         # initialize time elapse in each mode of the hybrid automaton
         for mode in ha.modes.values():
             mode.init_time_elapse(self.settings.step_size)
-- 
2.43.0


From 05d614eb300c39bc9faa9e3c2a0d6de5a0a5a12d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:17 +0000
Subject: [PATCH 44/55] fix: matrices and vectors with nan, infinite, complex
 or missing entries were accepted

Depending on the place, they were ignored, caused wrong results, or aborted the
process in the lp solver.
---
 hylaa/lputil.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/hylaa/lputil.py b/hylaa/lputil.py
index 3a2b181..d757c3d 100644
--- a/hylaa/lputil.py
+++ b/hylaa/lputil.py
@@ -22,10 +22,17 @@ def to_csr(mat):
     the passed-in matrix is not modified
     '''
 
+    assert not np.iscomplexobj(mat), "expected a matrix of real numbers"
+
+    if not sp.sparse.issparse(mat):
+        mat = np.array(mat, dtype=float)
+
     rv = csr_matrix(mat, dtype=float, copy=True)
     rv.sum_duplicates()
     rv.eliminate_zeros()
 
+    assert np.isfinite(rv.data).all(), "expected a matrix of finite numbers"
+
     return rv
 
 def to_vec(vec):
@@ -34,6 +41,8 @@ def to_vec(vec):
     rv = np.array(vec, dtype=float)
     rv.shape = (len(rv), )
 
+    assert not (np.isnan(rv) | np.isneginf(rv)).any(), "expected a vector without nan or -inf"
+
     return rv
 
 def from_box(box_list, mode):
@@ -124,9 +133,8 @@ def from_constraints(csr, rhs, mode, types=None, names=None, dims=None):
     '''
 
     csr = to_csr(csr)
-    rhs = np.array(rhs, dtype=float)
+    rhs = to_vec(rhs)
 
-    assert len(rhs.shape) == 1
     assert csr.shape[0] == len(rhs)
     assert is_feasible(csr, rhs), "initial constraints are not feasible"
     assert (types is None) == (names is None)
-- 
2.43.0


From 4299585a10ea58c4d8b6007ac9811a88dcac8c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:17 +0000
Subject: [PATCH 45/55] fix: incomplete minkowski resets and transitions
 between different automata were accepted

---
 hylaa/hybrid_automaton.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/hylaa/hybrid_automaton.py b/hylaa/hybrid_automaton.py
index b014019..cf6aef6 100644
--- a/hylaa/hybrid_automaton.py
+++ b/hylaa/hybrid_automaton.py
@@ -253,6 +253,8 @@ class Transition(Freezable):
 
     def __init__(self, ha, from_mode, to_mode, name=''):
         assert isinstance(ha, HybridAutomaton)
+        assert from_mode.ha is ha and to_mode.ha is ha, "transition between modes of a different hybrid automaton"
+
         self.ha = ha # pylint: disable=invalid-name
         self.from_mode = from_mode
         self.to_mode = to_mode
@@ -384,15 +386,17 @@ class Transition(Freezable):
             reset_minkowski_constraints_csr = lputil.to_csr(reset_minkowski_constraints_csr)
 
         if reset_minkowski_constraints_rhs is not None:
-            reset_minkowski_constraints_rhs = np.array(reset_minkowski_constraints_rhs, dtype=float)
+            reset_minkowski_constraints_rhs = lputil.to_vec(reset_minkowski_constraints_rhs)
         
         assert reset_csr.shape[1] == self.from_mode.a_csr.shape[0], "reset matrix expected {} columns, got {}".format(
             self.from_mode.a_csr.shape[0], reset_csr.shape[1])
         assert reset_csr.shape[0] == to_mode_csr.shape[0], "reset matrix expected {} rows, got {}".format(
             to_mode_csr.shape[0], reset_csr.shape[0])
 
-        if reset_minkowski_constraints_rhs is not None:
-            assert len(reset_minkowski_constraints_rhs.shape) == 1
+        if reset_minkowski_constraints_rhs is None:
+            assert reset_minkowski_csr is None and reset_minkowski_constraints_csr is None, \
+                "minkowski reset variables need constraints (reset_minkowski_constraints_csr/rhs)"
+        else:
             assert reset_minkowski_constraints_csr is not None
             assert reset_minkowski_constraints_csr.shape[0] == len(reset_minkowski_constraints_rhs)
 
-- 
2.43.0


From fc3034b5fdcdd7d0d94ccf9375bd11688c2da524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:17 +0000
Subject: [PATCH 46/55] fix: initial states which don't fit to the automaton
 were accepted

Those of another automaton, with another number of variables, without the inputs
of their mode, or in an error mode (the result was that the system is safe).
---
 hylaa/core.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/hylaa/core.py b/hylaa/core.py
index 6bec644..c15862b 100644
--- a/hylaa/core.py
+++ b/hylaa/core.py
@@ -358,10 +358,17 @@ class Core(Freezable):
 
         for state in init_state_list:
             assert isinstance(state, StateSet), "initial states should be a list of StateSet objects"
+            assert state.mode.ha is self.hybrid_automaton, "initial state is in a mode of a different hybrid automaton"
+
+            assert not state.mode.is_error(), f"initial state is in an error mode: {state.mode.name}"
+            assert state.lpi.dims == state.mode.a_csr.shape[0], \
+                f"initial state has {state.lpi.dims} dims, but mode {state.mode.name} has {state.mode.a_csr.shape[0]}"
+            assert (state.lpi.input_effects_offsets is None) == (state.mode.b_csr is None), \
+                f"the inputs of mode {state.mode.name} were changed after the initial state was created"
 
         self.result = HylaaResult()
 
-        self.setup_ha(init_state_list[0].mode.ha)
+        self.setup_ha(self.hybrid_automaton)
         
         self.plotman.create_plot()
 
-- 
2.43.0


From fe6f2b381555214185e678e46daf38d00789b87d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:17 +0000
Subject: [PATCH 47/55] fix: unknown or invalid settings were accepted

---
 hylaa/aggstrat.py | 16 ++++++++++++++++
 hylaa/core.py     |  2 ++
 hylaa/settings.py | 17 +++++++++++++++++
 hylaa/stateset.py |  2 +-
 4 files changed, 36 insertions(+), 1 deletion(-)

diff --git a/hylaa/aggstrat.py b/hylaa/aggstrat.py
index 70c11a6..2c762e5 100644
--- a/hylaa/aggstrat.py
+++ b/hylaa/aggstrat.py
@@ -26,6 +26,11 @@ class AggregationStrategy(Freezable):
     def __init__(self):
         self.freeze_attrs()
 
+    def check(self):
+        'check that the settings of the strategy are valid (called before a computation is started)'
+
+        pass
+
     def init_aggdag_data(self, aggdag):
         'initialize data within the aggdag object by directly assigning to aggdag instance'
 
@@ -101,6 +106,17 @@ class Aggregated(AggregationStrategy):
 
         AggregationStrategy.__init__(self)
 
+    def check(self):
+        'check that the settings of the strategy are valid (called before a computation is started)'
+
+        assert self.agg_type in (Aggregated.AGG_BOX, Aggregated.AGG_ARNOLDI_BOX, Aggregated.AGG_CONVEX_HULL), \
+            f"Unknown aggregation type: {self.agg_type}"
+        assert self.pop_type in (Aggregated.POP_LOWEST_MINTIME, Aggregated.POP_LOWEST_AVGTIME,
+                                 Aggregated.POP_LARGEST_MAXTIME), f"Unknown pop type: {self.pop_type}"
+        assert self.deagg_preference in (Aggregated.DEAGG_LEAVES_FIRST, Aggregated.DEAGG_ROOT_FIRST,
+                                         Aggregated.DEAGG_MOST_STATES), \
+            f"Unknown deaggregation preference: {self.deagg_preference}"
+
     def pop_waiting_list(self, waiting_list):
         '''
         Get the states to remove from the waiting list based on a score-based method
diff --git a/hylaa/core.py b/hylaa/core.py
index c15862b..b080c83 100644
--- a/hylaa/core.py
+++ b/hylaa/core.py
@@ -324,6 +324,8 @@ class Core(Freezable):
     def setup_ha(self, ha):
         'setup hybrid automata for computation / simulation; a substep of setup()'
 
+        self.settings.check()
+
         # global state, assigned here since other computations may have been done after this object was constructed
 
         # make random number generation (for example, to find orthogonal directions) deterministic
diff --git a/hylaa/settings.py b/hylaa/settings.py
index a029bc3..313e7e4 100644
--- a/hylaa/settings.py
+++ b/hylaa/settings.py
@@ -56,6 +56,23 @@ class HylaaSettings(Freezable):  # pylint: disable=too-few-public-methods
 
         self.freeze_attrs()
 
+    def check(self):
+        'check that the settings are valid (called before a computation is started)'
+
+        assert self.step_size > 0, f"step size must be positive, got {self.step_size}"
+        assert self.num_steps >= 0, f"time bound must not be negative, got {self.num_steps} steps"
+        assert self.stdout in range(len(self.stdout_colors)), f"Unknown stdout setting: {self.stdout}"
+
+        assert self.approx_model in (HylaaSettings.APPROX_NONE, HylaaSettings.APPROX_CHULL, HylaaSettings.APPROX_LGG), \
+            f"Unknown approx_model setting: {self.approx_model}"
+
+        assert self.plot.plot_mode in (PlotSettings.PLOT_NONE, PlotSettings.PLOT_LIVE, PlotSettings.PLOT_INTERACTIVE,
+                                       PlotSettings.PLOT_IMAGE, PlotSettings.PLOT_VIDEO), \
+            f"Unknown plot_mode setting: {self.plot.plot_mode}"
+
+        assert isinstance(self.aggstrat, aggstrat.AggregationStrategy), "expected aggstrat to be an AggregationStrategy"
+        self.aggstrat.check()
+
 class PlotSettings(Freezable): # pylint: disable=too-few-public-methods,too-many-instance-attributes
     'plot settings container'
 
diff --git a/hylaa/stateset.py b/hylaa/stateset.py
index 7a01402..6b2fbb7 100644
--- a/hylaa/stateset.py
+++ b/hylaa/stateset.py
@@ -361,7 +361,7 @@ class StateSet(Freezable):
         elif approx_model == HylaaSettings.APPROX_LGG:
             self.apply_approx_lgg()
         elif approx_model != HylaaSettings.APPROX_NONE:
-            assert f"Unknown approx_model from settings: {approx_model}"
+            raise RuntimeError(f"Unknown approx_model from settings: {approx_model}")
 
         if approx_model != HylaaSettings.APPROX_NONE:
             # the lpi was replaced, so any rows of invariant constraints in the old lpi are no longer meaningful
-- 
2.43.0


From 7168d7266485e61bd77d335c89127feab1c85320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:17 +0000
Subject: [PATCH 48/55] fix: one step too many was computed for some time
 bounds due to floating-point errors

---
 hylaa/settings.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hylaa/settings.py b/hylaa/settings.py
index 313e7e4..ab23772 100644
--- a/hylaa/settings.py
+++ b/hylaa/settings.py
@@ -31,7 +31,9 @@ class HylaaSettings(Freezable):  # pylint: disable=too-few-public-methods
         plot_settings = PlotSettings()
 
         self.step_size = step_size # simulation step size
-        self.num_steps = int(math.ceil(max_time / step_size))
+
+        # the tolerance is for quotients like 1.1 / 0.1, which is slightly above 11 due to floating-point errors
+        self.num_steps = int(math.ceil(max_time / step_size * (1 - 1e-12)))
 
         self.plot = plot_settings
         self.stdout = HylaaSettings.STDOUT_NORMAL
-- 
2.43.0


From 179163360f67ce03fd8ece5e2a9bc03a80093907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:31 +0000
Subject: [PATCH 49/55] fix: the saved diagram missed transitions and showed
 wrong intervals of steps

Transitions of a set which is still being explored weren't shown once they were
enabled at the latest step, and a gap of a single step wasn't noticed.
---
 hylaa/aggdag.py | 71 +++++++++++--------------------------------------
 1 file changed, 15 insertions(+), 56 deletions(-)

diff --git a/hylaa/aggdag.py b/hylaa/aggdag.py
index 5e1a5a3..f31b036 100644
--- a/hylaa/aggdag.py
+++ b/hylaa/aggdag.py
@@ -587,7 +587,7 @@ class AggDagNode(Freezable):
         g.node(name, label=label)
 
         # collapse edges over multiple times into the same outgoing edge
-        enabled_transitions = [] # contains tuples (child_name, op_list)
+        outgoing = {} # child_name -> list of OpTransition
 
         for op in self.op_list:
             if isinstance(op, OpTransition):
@@ -596,64 +596,23 @@ class AggDagNode(Freezable):
                     child_name = f"out_{id(self)}_{id(op.transition)}"
                 else:
                     child_name = "node_{}".format(id(op.child_node))
-                    
-                found = False
-
-                for pair in enabled_transitions:
-                    if pair[0] == child_name:
-                        pair[1].append(op)
-                        found = True
-
-                if not found:
-                    enabled_transitions.append((child_name, [op]))
-            elif isinstance(op, OpLeftInvariant):
-                # flush remaining enabled_transitions
-                for child_name, op_list in enabled_transitions:
-                    if len(op_list) == 1:
-                        label = str(op_list[0].step)
-                    else:
-                        label = "[{}, {}]".format(op_list[0].step, op_list[-1].step)
-                        
-
-                    if child_name.startswith('out_'): # outgoing edges to unprocessed nodes
-                        to_mode_name = op_list[0].transition.to_mode.name
-                        g.node(child_name, label=to_mode_name, style="dashed")
-                    
-                    g.edge(name, child_name, label=label)
 
-                enabled_transitions = []
-                # print left-invariant edge
-                #invis_name = "out_{}".format(id(op))
-                #g.node(invis_name, style="invis")
-
-                #label = str(op.step)
-                #g.edge(name, invis_name, label=label, arrowhead='dot', style='dotted')
-
-            ###############################
-            # remove enabled transitions that are no longer enabled
-            new_enabled_transitions = []
-
-            for pair in enabled_transitions:
-                child_name = pair[0]
-                op_list = pair[1]
-
-                if op_list[-1].step < op.step - 1:
-                    # print it
-                    if len(op_list) == 1:
-                        label = str(op_list[0].step)
-                    else:
-                        label = "[{}, {}]".format(op_list[0].step, op_list[-1].step)
-
-                    if child_name.startswith('out_'): # outgoing edges to unprocessed nodes
-                        to_mode_name = op_list[0].transition.to_mode.name
-                        g.node(child_name, label=to_mode_name, style="dashed")
-                        
+                outgoing.setdefault(child_name, []).append(op)
+
+        for child_name, op_list in outgoing.items():
+            if child_name.startswith('out_'): # outgoing edges to unprocessed nodes
+                g.node(child_name, label=op_list[0].transition.to_mode.name, style="dashed")
+
+            # one edge for each interval of consecutive steps
+            first = op_list[0].step
+
+            for i, op in enumerate(op_list):
+                if i + 1 == len(op_list) or op_list[i + 1].step > op.step + 1:
+                    label = str(op.step) if first == op.step else "[{}, {}]".format(first, op.step)
                     g.edge(name, child_name, label=label)
-                else:
-                    # keep it
-                    new_enabled_transitions.append(pair)
 
-            enabled_transitions = new_enabled_transitions
+                    if i + 1 < len(op_list):
+                        first = op_list[i + 1].step
 
         # print the children after the current node
         for op in [op for op in self.op_list if isinstance(op, OpTransition) and op.child_node is not None]:
-- 
2.43.0


From 7f43a9d31c06bb19e2e8ef9ccf16405ad95c7016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:31 +0000
Subject: [PATCH 50/55] fix: live and interactive plots failed at the first
 frame

The replacement of matplotlib's _blit_draw had the signature of older versions.
---
 hylaa/plotutil.py | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/hylaa/plotutil.py b/hylaa/plotutil.py
index 4be6909..8020d23 100644
--- a/hylaa/plotutil.py
+++ b/hylaa/plotutil.py
@@ -1009,24 +1009,29 @@ class PlotManager(Freezable):
 
 # monkey patch function for blitting tick-labels
 # see http://stackoverflow.com/questions/17558096/animated-title-in-matplotlib
-def _blit_draw(_self, artists, bg_cache):
+def _blit_draw(self, artists):
     'money-patch version of animation._blit_draw'
     # Handles blitted drawing, which renders only the artists given instead
     # of the entire figure.
-    updated_ax = []
-    for a in artists:
+    updated_ax = {a.axes for a in artists}
+
+    for ax in updated_ax:
         # If we haven't cached the background for this axes object, do
-        # so now. This might not always be reliable, but it's an attempt
-        # to automate the process.
-        if a.axes not in bg_cache:
-            # bg_cache[a.axes] = a.figure.canvas.copy_from_bbox(a.axes.bbox)
-            # change here
-            bg_cache[a.axes] = a.figure.canvas.copy_from_bbox(a.axes.figure.bbox)
+        # so now. The background of the entire figure is used, since the tick-labels are
+        # outside of the bounding box of the axes. It doesn't contain anything that depends on
+        # the view, so it's kept when the axes limits change.
+        _, bg = self._blit_cache.get(ax, (None, None)) # pylint: disable=protected-access
+
+        if bg is None:
+            bg = ax.figure.canvas.copy_from_bbox(ax.figure.bbox)
+
+        self._blit_cache[ax] = (ax._get_view(), bg) # pylint: disable=protected-access
+
+    for a in artists:
         a.axes.draw_artist(a)
-        updated_ax.append(a.axes)
 
     # After rendering all the needed artists, blit each axes individually.
-    for ax in set(updated_ax):
+    for ax in updated_ax:
         # and here
         # ax.figure.canvas.blit(ax.bbox)
         ax.figure.canvas.blit(ax.figure.bbox)
-- 
2.43.0


From 457600b3a00774b870647ea911c1888d722d6c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:31 +0000
Subject: [PATCH 51/55] fix: closing the window of an interactive plot early
 raised an error

A timer was still running. The computation also isn't finished then, so there's no
verdict that the system is safe.
---
 hylaa/core.py     | 2 ++
 hylaa/plotutil.py | 4 ----
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/hylaa/core.py b/hylaa/core.py
index b080c83..9e97d91 100644
--- a/hylaa/core.py
+++ b/hylaa/core.py
@@ -444,6 +444,8 @@ class Core(Freezable):
                                                    not getattr(self.settings.aggstrat, 'deaggregate', False)):
             self.print_normal("Result: Error modes were reachable when aggregation (overapproximation) was used. " + \
                               "System may be safe or unsafe.\n")
+        elif not self.is_finished(): # for example, the window of an interactive plot was closed
+            self.print_normal("Result: Computation was stopped before it was finished.\n")
         elif self.result.has_aggregated_error:
             self.print_normal("Result: System is safe, although error modes were reachable when aggregation " + \
                               "(overapproximation) was used.\n")
diff --git a/hylaa/plotutil.py b/hylaa/plotutil.py
index 8020d23..4dc79ab 100644
--- a/hylaa/plotutil.py
+++ b/hylaa/plotutil.py
@@ -863,7 +863,6 @@ class PlotManager(Freezable):
 
     def anim_iterator(self):
         'generator for the computation iterator'
-        Timers.tic("anim_iterator")
 
         frame_counter = 0
 
@@ -880,9 +879,6 @@ class PlotManager(Freezable):
                 frame_counter += 1
                 yield frame_counter
 
-        Timers.toc("anim_iterator")
-
-
     def compute_and_animate(self):
         'do the computation, plotting during the process'
 
-- 
2.43.0


From 959dd6876d80c02ac630a33a296d2b75c270ec4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:31 +0000
Subject: [PATCH 52/55] fix: clicking next to the sets of an interactive plot,
 or during a simulation, raised an error

---
 hylaa/plotutil.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hylaa/plotutil.py b/hylaa/plotutil.py
index 4dc79ab..6e98e95 100644
--- a/hylaa/plotutil.py
+++ b/hylaa/plotutil.py
@@ -915,11 +915,12 @@ class PlotManager(Freezable):
             except ValueError:
                 subplot = None
 
-            if subplot is not None:
+            if subplot is not None and self.core.result.plot_data is not None: # there's no data during simulation
                 # check which polygon you're in
                 d = self.core.result.plot_data.get_plot_data(x, y, subplot)
 
-                print(d[1:])
+                if d is not None:
+                    print(d[1:])
 
         if self.settings.plot_mode == PlotSettings.PLOT_INTERACTIVE:
             # do one frame
-- 
2.43.0


From f6744a52b772648fd96624bf2154721e330d870a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:31 +0000
Subject: [PATCH 53/55] fix: the axis limits didn't follow sets which are flat
 in one direction

---
 hylaa/plotutil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hylaa/plotutil.py b/hylaa/plotutil.py
index 6e98e95..528d03c 100644
--- a/hylaa/plotutil.py
+++ b/hylaa/plotutil.py
@@ -520,7 +520,7 @@ class PlotManager(Freezable):
                 lim.ymax = y
 
         is_outside = lim.xmin < drawn.xmin or lim.xmax > drawn.xmax or lim.ymin < drawn.ymin or lim.ymax > drawn.ymax
-        if first_draw or (is_outside and lim.xmin != lim.xmax and lim.ymin != lim.ymax):
+        if first_draw or is_outside:
 
             # expand drawn limits to surpass actual
             dx = lim.xmax - lim.xmin
-- 
2.43.0


From f88dc06df90450a3f4a85629e18ef09ff70aac2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:29 +0000
Subject: [PATCH 54/55] fix: plots with several subplots and default labels
 raised an IndexError

---
 hylaa/plotutil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hylaa/plotutil.py b/hylaa/plotutil.py
index 528d03c..9e646c7 100644
--- a/hylaa/plotutil.py
+++ b/hylaa/plotutil.py
@@ -559,7 +559,7 @@ class PlotManager(Freezable):
             ha = self.core.hybrid_automaton
 
             if not isinstance(self.settings.label, list):
-                self.settings.label = [self.settings.label]
+                self.settings.label = [self.settings.label] * self.num_subplots
 
             # only use title for the first subplot the first plot
             title = self.settings.label[0].title
-- 
2.43.0


From 87522b16a1f2cb37db9c0b388c2f513d7e2d15b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:54 +0000
Subject: [PATCH 55/55] fix: minimizing in a dense direction over all columns
 raised an error

---
 hylaa/lpinstance.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/hylaa/lpinstance.py b/hylaa/lpinstance.py
index aaf4131..2220359 100644
--- a/hylaa/lpinstance.py
+++ b/hylaa/lpinstance.py
@@ -491,15 +491,15 @@ class LpInstance(Freezable): # pylint: disable=too-many-public-methods
 
         Timers.tic("set_minimize_direction")
 
+        size = direction_vec.shape[1] if is_csr else len(direction_vec)
+
         if offset is None:
             offset = self.cur_vars_offset
 
-            size = direction_vec.shape[1] if is_csr else len(direction_vec)
-
             assert size <= self.dims, "len(direction_vec) ({}) > number of cur_vars({})".format(
                 size, self.dims)
         else:
-            assert direction_vec.shape[1] + offset <= self.get_num_cols()
+            assert size + offset <= self.get_num_cols()
 
         # set the previous objective columns to zero
         for i in self.obj_cols:
@@ -528,7 +528,6 @@ class LpInstance(Freezable): # pylint: disable=too-many-public-methods
                 direction_vec = np.array(direction_vec, dtype=float)
 
             assert len(direction_vec.shape) == 1
-            assert len(direction_vec) <= self.dims, "dirLen({}) > dims({})".format(len(direction_vec), self.dims)
 
             for i, direction in enumerate(direction_vec):
                 col = int(1 + offset + i)
-- 
2.43.0

