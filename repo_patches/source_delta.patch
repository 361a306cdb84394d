From eb0a522f019367e320eebd10112c5e6203b54b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:02 +0000
Subject: [PATCH 01/47] fix: keep the row-major order of matrix parameters
 through casadi ravel/unravel

---
 lumos/models/tree_utils.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/lumos/models/tree_utils.py b/lumos/models/tree_utils.py
index 932729e..0ee3485 100644
--- a/lumos/models/tree_utils.py
+++ b/lumos/models/tree_utils.py
@@ -251,11 +251,21 @@ def _size_and_shape(x):
 
 def _ravel(x):
     if _is_casadi_instance(x):
-        return x.reshape((x.numel(), 1))
+        # casadi is column-major, transpose first to get the same order as np.ravel
+        return x.T.reshape((x.numel(), 1))
     else:
         return np.ravel(x)
 
 
+def _reshape(x, shape):
+    if _is_casadi_instance(x):
+        # casadi is column-major, so reshape to the transposed shape and transpose
+        # back to restore what has been flattened by np.ravel (row-major)
+        return x.reshape((shape[1], shape[0])).T
+    else:
+        return x.reshape(shape)
+
+
 def _split(arr, indices):
     if _is_casadi_instance(arr):
         indices = [0, *indices, arr.numel()]
@@ -307,7 +317,7 @@ def _ravel_flat_dict(flat_tree):
             new_shapes = shapes
 
         reconstructed_values = [
-            chunk.reshape(shape) if _size(chunk) > 1 else chunk[0]
+            _reshape(chunk, shape) if _size(chunk) > 1 else chunk[0]
             for chunk, shape in zip(chunks, new_shapes)
         ]
         return dict(zip(keys, reconstructed_values))
-- 
2.43.0


From 48015adb04d4150347fe40aa63bbf45e9409fd7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:04 +0000
Subject: [PATCH 02/47] fix: keep the shape of parameter arrays of size one and
 zero when unraveling

---
 lumos/models/tree_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lumos/models/tree_utils.py b/lumos/models/tree_utils.py
index 0ee3485..e000c42 100644
--- a/lumos/models/tree_utils.py
+++ b/lumos/models/tree_utils.py
@@ -317,7 +317,8 @@ def _ravel_flat_dict(flat_tree):
             new_shapes = shapes
 
         reconstructed_values = [
-            _reshape(chunk, shape) if _size(chunk) > 1 else chunk[0]
+            # only scalars have an empty shape, arrays of size 1 (or 0) stay arrays
+            _reshape(chunk, shape) if len(shape) > 0 else chunk[0]
             for chunk, shape in zip(chunks, new_shapes)
         ]
         return dict(zip(keys, reconstructed_values))
-- 
2.43.0


From 09365e17878cac5b2e645404fbc5d8eb997ba9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:17 +0000
Subject: [PATCH 03/47] fix: restore the backend that was active on entering
 use_backend

---
 lumos/numpy/utils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lumos/numpy/utils.py b/lumos/numpy/utils.py
index 7041ab7..ac714fe 100644
--- a/lumos/numpy/utils.py
+++ b/lumos/numpy/utils.py
@@ -13,14 +13,17 @@ logger = logging.getLogger(__name__)
 
 class use_backend(ContextDecorator):
     def __init__(self, backend: str):
-        self._original_backend = lnp.get_backend()
+        # The backends to go back to, stored on entering the context as the same object
+        # can be (re-)entered many times when used as a decorator.
+        self._original_backends: List[str] = []
         self._target_backend = backend
 
     def __enter__(self):
+        self._original_backends.append(lnp.get_backend())
         lnp.set_backend(self._target_backend)
 
     def __exit__(self, *exc):
-        lnp.set_backend(self._original_backend)
+        lnp.set_backend(self._original_backends.pop())
 
 
 def is_jax_array(x: Any) -> bool:
-- 
2.43.0


From cee3222b820e756a695e6f906552feb2bb488e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:17 +0000
Subject: [PATCH 04/47] fix: recompute the upper triangular hessian entries
 after adding or deleting constraints and objectives

---
 lumos/optimal_control/nlp.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lumos/optimal_control/nlp.py b/lumos/optimal_control/nlp.py
index 81ab86f..c38017c 100644
--- a/lumos/optimal_control/nlp.py
+++ b/lumos/optimal_control/nlp.py
@@ -717,10 +717,12 @@ class CompositeProblem(NLPFunction):
         # Update the input scales using the nlp's dec_var_scales
         c.set_input_scales(self._dec_var_scales)
         self._constraints.update({name: c})
+        self._idx_triu = None  # hessian structure has changed
 
     def delete_constraints(self, name: str):
         # FIXME: add checks
         self._constraints.pop(name)
+        self._idx_triu = None  # hessian structure has changed
 
     def add_objective(self, name: str, o: BaseObjective):
         """Add an objecitve function to the problem.
@@ -742,10 +744,11 @@ class CompositeProblem(NLPFunction):
         # decision variable scale
         o.set_input_scales(self._dec_var_scales)
         self._objectives.update({name: o})
+        self._idx_triu = None  # hessian structure has changed
 
     def delete_objective(self, name: str):
         self._objectives.pop(name)
-
+        self._idx_triu = None  # hessian structure has changed
 
     def _compute_objective(self, x):
         return np.sum(np.hstack([p.objective(x) for p in self._objectives.values()]))
-- 
2.43.0


From 061dfcf5b78d53f27221c876b8d0e74c7bfa44b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:37 +0000
Subject: [PATCH 05/47] fix: allow modifying the model parameters of condensed
 problems

---
 lumos/optimal_control/scaled_mesh_ocp.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lumos/optimal_control/scaled_mesh_ocp.py b/lumos/optimal_control/scaled_mesh_ocp.py
index 31c2849..c290059 100644
--- a/lumos/optimal_control/scaled_mesh_ocp.py
+++ b/lumos/optimal_control/scaled_mesh_ocp.py
@@ -162,7 +162,10 @@ class ScaledMeshOCP(CompositeProblem):
         # need the parameters (and we put all model-related computation there)
         # We could make the entire 'CompositeProblem' parameterized, but that might
         # be an over-complication.
-        self._constraints["model_algebra"].set_params(model_params)
+        # For condensed problems, the model algebra is only used inside the condensed
+        # constraints.
+        cons = self._con_storage if self.is_condensed else self._constraints
+        cons["model_algebra"].set_params(model_params)
 
     def modify_model_param(self, path, value):
         self._params.set_param(path, value)
-- 
2.43.0


From 7fe8d7dded4863bad098e43b9f523e962d4ed771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:37 +0000
Subject: [PATCH 06/47] fix: use a builtin dtype in the condensed hessian
 structure, np.int no longer exists

---
 lumos/optimal_control/scaled_mesh_ocp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lumos/optimal_control/scaled_mesh_ocp.py b/lumos/optimal_control/scaled_mesh_ocp.py
index c290059..7463ae2 100644
--- a/lumos/optimal_control/scaled_mesh_ocp.py
+++ b/lumos/optimal_control/scaled_mesh_ocp.py
@@ -466,7 +466,7 @@ class ScaledMeshOCP(CompositeProblem):
             # If mesh_scale is a variable, then the continuity constraints also has
             # non-zero hessian entries.
             cont_rows = np.arange(self.num_dec)
-            cont_cols = np.ones(self.num_dec, dtype=np.int) * (self.num_dec - 1)
+            cont_cols = np.ones(self.num_dec, dtype=int) * (self.num_dec - 1)
             rows = np.hstack([rows.ravel(), cont_rows])
             cols = np.hstack([cols.ravel(), cont_cols])
 
-- 
2.43.0


From bdcdb13cb76471cca235ea9e91b445d540110c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:37 +0000
Subject: [PATCH 07/47] fix: do not add the condensed states_dot bounds to the
 caller's sim config

---
 lumos/optimal_control/scaled_mesh_ocp.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lumos/optimal_control/scaled_mesh_ocp.py b/lumos/optimal_control/scaled_mesh_ocp.py
index 7463ae2..48579c9 100644
--- a/lumos/optimal_control/scaled_mesh_ocp.py
+++ b/lumos/optimal_control/scaled_mesh_ocp.py
@@ -129,16 +129,18 @@ class ScaledMeshOCP(CompositeProblem):
         if sim_config.is_cyclic:
             self._build_cyclic_cons(sim_config.non_cyclic_vars)
 
+        bounds = sim_config.bounds
         if self.is_condensed:
             self._build_condensed_model_algebra()
             # The states_dot decision variables are un-used, so we set it to
             # 0, and IPOPT will take them out of the NLP depending the settings.
-            sim_config.bounds += tuple(
+            # NOTE: not added to the config itself, which belongs to the caller.
+            bounds += tuple(
                 BoundConfig("states_dot", n, (0, 0))
                 for n in self.model.get_group_names("states_dot")
             )
 
-        self.update_bounds(sim_config.bounds)
+        self.update_bounds(bounds)
 
         # Set specific boundary conditions of variables at certain stages
         self.update_boundary_conditions(sim_config.boundary_conditions)
-- 
2.43.0


From c3a166075fc23ad35de172b4a8da18577014ec63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:37 +0000
Subject: [PATCH 08/47] fix: do not add non cyclic variables to the caller's
 list in LTCConfig

---
 lumos/simulations/laptime_simulation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lumos/simulations/laptime_simulation.py b/lumos/simulations/laptime_simulation.py
index 379428b..b18b608 100644
--- a/lumos/simulations/laptime_simulation.py
+++ b/lumos/simulations/laptime_simulation.py
@@ -128,6 +128,8 @@ class LTCConfig(SimConfig):
         # NOTE: somehow if we make track_curvature also non_cyclic, convergence got
         # a lot worse. This is counterintuitive as one would imagine the track curvature
         # from finite difference isn't actually cyclic! (but it's close, ~1e-5 delta)
+        # NOTE: work on a copy, the original list belongs to the caller.
+        self.non_cyclic_vars = list(self.non_cyclic_vars)
         for name in ["states.time", "inputs.track_heading"]:
             if name not in self.non_cyclic_vars:
                 logger.warning(
-- 
2.43.0


From 6357c5532ddc6a852c06e3cbad6a4d2ef6e53470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:37 +0000
Subject: [PATCH 09/47] fix: use the existing hessian function in ModelSolver

---
 lumos/optimal_control/model_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lumos/optimal_control/model_solver.py b/lumos/optimal_control/model_solver.py
index d620c36..cc96f55 100644
--- a/lumos/optimal_control/model_solver.py
+++ b/lumos/optimal_control/model_solver.py
@@ -52,7 +52,7 @@ class ModelSolver(CompositeProblem):
             return np.array(implicit_functions["jacobian"](*args).nonzeros())
 
         def _hessian(*args):
-            return np.array(implicit_functions["_hessian"](*args).nonzeros())
+            return np.array(implicit_functions["hessian"](*args).nonzeros())
 
         # FIXME: we create CasMappedConstraints (839 in base.py), but it actually is NOT
         # a Constriant that can be executed with its .constraints method, as it requires
-- 
2.43.0


From a84d8729ac25eb8fccc5c1acdc0516b3058a4515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:37 +0000
Subject: [PATCH 10/47] fix: call the existing forward_with_arrays in
 Model.apply_and_forward_with_arrays

---
 lumos/models/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lumos/models/base.py b/lumos/models/base.py
index cd8518e..77694c3 100644
--- a/lumos/models/base.py
+++ b/lumos/models/base.py
@@ -151,7 +151,7 @@ class Model(CompositeModel):
 
     def apply_and_forward_with_arrays(self, inputs, params):
         self.set_recursive_params(params)
-        return self.forward_with_array(inputs)
+        return self.forward_with_arrays(inputs)
 
     def _construct_io_names(self):
         """Create model io names while also taking into account submodels compositoin"""
-- 
2.43.0


From eae8440ec0ee738c3257f0f259cd616e110d6ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:37 +0000
Subject: [PATCH 11/47] fix: return integer indices for groups without
 variables

---
 lumos/optimal_control/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lumos/optimal_control/utils.py b/lumos/optimal_control/utils.py
index 98a7164..ab0c0c7 100644
--- a/lumos/optimal_control/utils.py
+++ b/lumos/optimal_control/utils.py
@@ -271,7 +271,8 @@ class DecVarOperator:
                 [
                     self._stage_var_enum[self._make_stage_var_name(group=group, name=n)]
                     for n in getattr(self._model_var_names, group)
-                ]
+                ],
+                dtype=int,
             )
             + stage * self.num_var_stage
         )
-- 
2.43.0


From 967e4f3e5d25ecd45a723b24eaff5d659444a5d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:16 +0000
Subject: [PATCH 12/47] fix: do not leave jax tracers in the model parameters

---
 lumos/models/base.py | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/lumos/models/base.py b/lumos/models/base.py
index 77694c3..c655068 100644
--- a/lumos/models/base.py
+++ b/lumos/models/base.py
@@ -729,11 +729,25 @@ class StateSpaceModel(Model):
 
         return rows[keep], cols[keep]
 
+    def _keep_params(self, fn):
+        """Wrap a function such that calling it leaves the model params unchanged."""
+
+        def wrapped(*args):
+            params = self.get_recursive_params()
+            try:
+                return fn(*args)
+            finally:
+                self.set_recursive_params(params)
+
+        return wrapped
+
     def _make_jax_model_algebra_cons(self):
         # For jax, we rely on jac and hessian to compute the constraints at a later
         # stage. See JaxMappedConstraints
+        # NOTE: the functions are only traced when they're called for the first time, we
+        # must not leave the tracers in the model params.
         implicit_functions = {
-            "constraints": self._apply_and_flat_implicit,
+            "constraints": self._keep_params(self._apply_and_flat_implicit),
         }
 
         # TODO: _stage_hessianstructure not yet implemented
@@ -747,7 +761,12 @@ class StateSpaceModel(Model):
 
         # FIXME: handle batched_forward better
         self._batched_forward = lnp.use_backend("jax")(
-            jit(vmap(self.apply_and_forward_with_arrays, in_axes=[0, 0, 0, None]))
+            jit(
+                vmap(
+                    self._keep_params(self.apply_and_forward_with_arrays),
+                    in_axes=[0, 0, 0, None],
+                )
+            )
         )
 
         # FIXME: here the implicit functions are incomplete
-- 
2.43.0


From 6297dc3c1352521bc49e0e7598880bc81b5f06d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:16 +0000
Subject: [PATCH 13/47] fix: call the hessian of custom derivatives with its
 documented arguments

---
 lumos/models/base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lumos/models/base.py b/lumos/models/base.py
index c655068..83d9b73 100644
--- a/lumos/models/base.py
+++ b/lumos/models/base.py
@@ -777,7 +777,10 @@ class StateSpaceModel(Model):
             "constraints": self._apply_and_flat_implicit,
             "jacobian": self._implicit_jac,
             "jacobian_structure": self._implicit_jacobianstructure(),
-            "hessian": self._implicit_hess,
+            # the mapped hessian is called with (vars, mult, mesh, params)
+            "hessian": lambda flat_vars, mult, mesh, params: self._implicit_hess(
+                flat_vars, mesh, params, mult
+            ),
             "hessian_structure": self._implicit_hessianstructure(),
         }
 
-- 
2.43.0


From f65f84e3248849b7f579bb30be9e2e7ffbf88219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:16 +0000
Subject: [PATCH 14/47] fix: evaluate the batched forward of the custom backend
 with arrays

---
 lumos/models/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lumos/models/base.py b/lumos/models/base.py
index 83d9b73..8d6fa74 100644
--- a/lumos/models/base.py
+++ b/lumos/models/base.py
@@ -792,7 +792,7 @@ class StateSpaceModel(Model):
 
         def custom_batched_forward(_states, _inputs, _mesh, _params):
             self.set_recursive_params(_params)
-            out = lnp.lmap(self.forward)(_states, _inputs, _mesh)
+            out = lnp.lmap(self.forward_with_arrays)(_states, _inputs, _mesh)
             return StateSpaceModelReturn(*out)
 
         self._batched_forward = custom_batched_forward
-- 
2.43.0


From 7fdd17cb76ceb4cf303681d5058aa775be67a2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:16 +0000
Subject: [PATCH 15/47] fix: do not modify the bounds of the caller in place
 when given as a list

---
 lumos/optimal_control/scaled_mesh_ocp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lumos/optimal_control/scaled_mesh_ocp.py b/lumos/optimal_control/scaled_mesh_ocp.py
index 48579c9..1b5b9d3 100644
--- a/lumos/optimal_control/scaled_mesh_ocp.py
+++ b/lumos/optimal_control/scaled_mesh_ocp.py
@@ -135,7 +135,7 @@ class ScaledMeshOCP(CompositeProblem):
             # The states_dot decision variables are un-used, so we set it to
             # 0, and IPOPT will take them out of the NLP depending the settings.
             # NOTE: not added to the config itself, which belongs to the caller.
-            bounds += tuple(
+            bounds = tuple(bounds) + tuple(
                 BoundConfig("states_dot", n, (0, 0))
                 for n in self.model.get_group_names("states_dot")
             )
-- 
2.43.0


From 7ddaa3fd1c023784103b89e9f777c9d2ae34c291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:19 +0000
Subject: [PATCH 16/47] fix: evaluate the model on the new mesh when the
 normalized mesh is changed

---
 lumos/optimal_control/convolution.py     | 3 +++
 lumos/optimal_control/scaled_mesh_ocp.py | 6 ++++++
 2 files changed, 9 insertions(+)

diff --git a/lumos/optimal_control/convolution.py b/lumos/optimal_control/convolution.py
index 8e11a9e..7030e83 100644
--- a/lumos/optimal_control/convolution.py
+++ b/lumos/optimal_control/convolution.py
@@ -111,6 +111,9 @@ class ConvConstraints(MappedConstraints):
         else:
             self._params = params
 
+    def set_normalized_mesh(self, normalized_mesh: np.ndarray):
+        self._normalized_mesh = normalized_mesh
+
     def _transform_inputs(self, x):
         stage_vars, _ = self._op.split_stage_and_global_vars(x)
 
diff --git a/lumos/optimal_control/scaled_mesh_ocp.py b/lumos/optimal_control/scaled_mesh_ocp.py
index 1b5b9d3..070d5c3 100644
--- a/lumos/optimal_control/scaled_mesh_ocp.py
+++ b/lumos/optimal_control/scaled_mesh_ocp.py
@@ -532,6 +532,12 @@ class ScaledMeshOCP(CompositeProblem):
 
             self._normalized_interval_mesh.append(current_interval_mesh)
 
+        # When the mesh changes after the problem is constructed, the model algebra (which
+        # evaluates the model at the mesh points) must follow.
+        if hasattr(self, "_constraints"):
+            cons = self._con_storage if self.is_condensed else self._constraints
+            cons["model_algebra"].set_normalized_mesh(self._flat_normalized_mesh)
+
     @property
     def _flat_normalized_mesh(self) -> np.ndarray:
         # Stack all interval mesh togther, omitting the overlapping stage.
-- 
2.43.0


From c83db549bbd1c2dc54d370e45cc5da1502354247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:19 +0000
Subject: [PATCH 17/47] fix: log the unscaled mesh when mesh_scale has a scale

---
 lumos/optimal_control/scaled_mesh_ocp.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lumos/optimal_control/scaled_mesh_ocp.py b/lumos/optimal_control/scaled_mesh_ocp.py
index 070d5c3..4e6ad38 100644
--- a/lumos/optimal_control/scaled_mesh_ocp.py
+++ b/lumos/optimal_control/scaled_mesh_ocp.py
@@ -1000,7 +1000,9 @@ class ScaledMeshOCP(CompositeProblem):
         # combine dfs
         result_df = pd.concat(df_list, axis=1)
         # add mesh
-        result_df["mesh"] = self._flat_normalized_mesh * self._get_mesh_scale(dec_var)
+        result_df["mesh"] = self._flat_normalized_mesh * self._get_mesh_scale(
+            unscaled_dec_var
+        )
         # add iteration number
         result_df["iter"] = iter_num
         logger.debug("Iteration result dataframe created")
-- 
2.43.0


From d44b3780f1b033a6671a49d578538ba1a607168f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:35 +0000
Subject: [PATCH 18/47] fix: log each solve on its own when a problem is solved
 several times

---
 lumos/optimal_control/nlp.py             |  3 +++
 lumos/optimal_control/scaled_mesh_ocp.py | 17 +++++++++++++----
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/lumos/optimal_control/nlp.py b/lumos/optimal_control/nlp.py
index c38017c..7aa8e85 100644
--- a/lumos/optimal_control/nlp.py
+++ b/lumos/optimal_control/nlp.py
@@ -605,6 +605,9 @@ class NLPFunction(ABC):
         if init_guess is None:
             init_guess = self.get_init_guess()
 
+        # forget the iterations of previous solves
+        self._num_iter = None
+
         # scale initial guess
         scaled_init_guess = init_guess / self._dec_var_scales
 
diff --git a/lumos/optimal_control/scaled_mesh_ocp.py b/lumos/optimal_control/scaled_mesh_ocp.py
index 4e6ad38..8f596a5 100644
--- a/lumos/optimal_control/scaled_mesh_ocp.py
+++ b/lumos/optimal_control/scaled_mesh_ocp.py
@@ -201,6 +201,14 @@ class ScaledMeshOCP(CompositeProblem):
             logger.info("Triggering jax JIT")
             self.profile(x0, repeat=1, hessian=self.hessian_approximation == "exact")
             logger.info("Triggering jax JIT completed")
+
+        # Each solve has its own history. If the last solve failed, it could have left
+        # some iteration files behind.
+        if self.logging_config is not None:
+            self._metrics_history_list = []
+            for file in glob.glob(os.path.join(self._logging_dir, "iter*.csv")):
+                os.remove(file)
+
         # Then solve.
         out = super().solve(*args, **kwargs)
         # TODO: perhaps a better way is to register pre-solve and post-solve tasks.
@@ -844,7 +852,8 @@ class ScaledMeshOCP(CompositeProblem):
     def _log_final_iter(self):
         # TODO: we should be able to do better than these hard-coded names everywhere.
         config = self.logging_config
-        if config is not None:
+        # There is nothing to log if the solver stopped before the first iteration
+        if config is not None and self._num_iter is not None:
             # Write the result file
             result_file = os.path.join(self._logging_dir, "results.csv")
             self._create_result_df(
@@ -895,9 +904,9 @@ class ScaledMeshOCP(CompositeProblem):
                 # NOTE: here the file list will not be arranged according to iter number.
                 for iter_df in df_list:
                     idx, column = iter_df[con_names].abs().stack().idxmax()
-                    iter_num = iter_df["iter"][0]
-                    metrics_history_df.loc[iter_num, "max_violation_con_name"] = column
-                    metrics_history_df.loc[iter_num, "max_violation_mesh"] = iter_df[
+                    is_iter = metrics_history_df["iter_count"] == iter_df["iter"][0]
+                    metrics_history_df.loc[is_iter, "max_violation_con_name"] = column
+                    metrics_history_df.loc[is_iter, "max_violation_mesh"] = iter_df[
                         "mesh"
                     ][idx]
 
-- 
2.43.0


From 0567ca2900101bf55f818ea18be820bc30c0ed60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:35 +0000
Subject: [PATCH 19/47] fix: give problems created within the same second
 separate logging directories

---
 lumos/optimal_control/scaled_mesh_ocp.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/lumos/optimal_control/scaled_mesh_ocp.py b/lumos/optimal_control/scaled_mesh_ocp.py
index 8f596a5..35fdeb8 100644
--- a/lumos/optimal_control/scaled_mesh_ocp.py
+++ b/lumos/optimal_control/scaled_mesh_ocp.py
@@ -818,8 +818,16 @@ class ScaledMeshOCP(CompositeProblem):
             subdir_name = (
                 datetime.now().strftime("%Y%m%d-%H%M%S") + "_" + config.sim_name
             )
-            self._logging_dir = os.path.join(config.results_dir, subdir_name)
-            Path(self._logging_dir).mkdir(parents=True, exist_ok=True)
+            # Problems created within the same second must not share a directory
+            path, suffix = os.path.join(config.results_dir, subdir_name), 0
+            while True:
+                self._logging_dir = f"{path}_{suffix}" if suffix else path
+                try:
+                    Path(self._logging_dir).mkdir(parents=True)
+                    break
+                except FileExistsError:
+                    suffix += 1
+
             self._metrics_history_list = []
 
     @property
-- 
2.43.0


From f7d05e85b685bfaeaa5baaf952c2739c684bd8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:08 +0000
Subject: [PATCH 20/47] fix: find the iteration logs in directories with
 special characters

---
 lumos/optimal_control/scaled_mesh_ocp.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lumos/optimal_control/scaled_mesh_ocp.py b/lumos/optimal_control/scaled_mesh_ocp.py
index 35fdeb8..9dc4e62 100644
--- a/lumos/optimal_control/scaled_mesh_ocp.py
+++ b/lumos/optimal_control/scaled_mesh_ocp.py
@@ -206,7 +206,7 @@ class ScaledMeshOCP(CompositeProblem):
         # some iteration files behind.
         if self.logging_config is not None:
             self._metrics_history_list = []
-            for file in glob.glob(os.path.join(self._logging_dir, "iter*.csv")):
+            for file in self._get_iter_files():
                 os.remove(file)
 
         # Then solve.
@@ -857,6 +857,10 @@ class ScaledMeshOCP(CompositeProblem):
                     iter_num=iter_num,
                 )
 
+    def _get_iter_files(self) -> List[str]:
+        # The directory is not a pattern, it might contain special characters
+        return glob.glob(os.path.join(glob.escape(self._logging_dir), "iter*.csv"))
+
     def _log_final_iter(self):
         # TODO: we should be able to do better than these hard-coded names everywhere.
         config = self.logging_config
@@ -882,7 +886,7 @@ class ScaledMeshOCP(CompositeProblem):
                     os.remove(last_iter_file)
 
                 # Combine all iteration results
-                iter_files = glob.glob(os.path.join(self._logging_dir, "iter*.csv"))
+                iter_files = self._get_iter_files()
 
                 # Add result file to the file list to ensure we always see the last iter
                 iter_files.append(result_file)
-- 
2.43.0


From a59c71144751f8c15be53e8be72cebd38555682a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:20 +0000
Subject: [PATCH 21/47] fix: compile casadi libraries in a private directory
 and only publish complete ones

---
 lumos/models/base.py | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/lumos/models/base.py b/lumos/models/base.py
index 8d6fa74..d6a0588 100644
--- a/lumos/models/base.py
+++ b/lumos/models/base.py
@@ -3,7 +3,9 @@ import logging
 import subprocess
 from abc import abstractmethod
 from collections import namedtuple
-from os.path import exists, getsize
+from os import replace
+from os.path import exists, join
+from tempfile import TemporaryDirectory
 from typing import Any, Dict, List, NamedTuple, Optional, Tuple
 
 import casadi as cas
@@ -826,10 +828,8 @@ class StateSpaceModel(Model):
         lagrange_hessian, lagrange_gradient = cas.hessian(lagrange, stage_vars)
 
         # Generate code
-        filename = "nlpfunctions"
-        cfile = filename + ".c"
         # FIXME: path management, currently local directory only
-        codegen = cas.CodeGenerator(cfile)
+        codegen = cas.CodeGenerator("nlpfunctions.c")
 
         codegen.add(
             cas.Function(
@@ -849,25 +849,27 @@ class StateSpaceModel(Model):
                 [lagrange_hessian],
             )
         )
-        codegen.generate()
+        code = codegen.dump()
 
-        logger.info(f"Generated c-code with {getsize(cfile)} lines: ")
+        logger.info(f"Generated c-code with size {len(code)}")
         # Call compiler if no library exists already
-        with open(cfile, "rb") as f:
-            file_hash = hashlib.md5()
-            for chunk in iter(lambda: f.read(8192), b""):
-                file_hash.update(chunk)
-
-        library_name = file_hash.hexdigest()
+        library_name = hashlib.md5(code.encode()).hexdigest()
         library_path = "./" + library_name + ".so"
 
         if exists(library_path):
             logger.info(f"{library_path} already exists, no compliation is needed.")
         else:
             logger.info(f"Compiling casadi library {library_path}")
-            cmd = ["gcc", "-fPIC", "-o2", "-shared", cfile, "-o", library_path]
-            p = subprocess.Popen(cmd)
-            p.wait()
+            # Work in a private directory, and only move the library to its final path
+            # when it is complete, as that's where other processes would look for it.
+            with TemporaryDirectory(dir=".") as temp_dir:
+                cfile = join(temp_dir, "nlpfunctions.c")
+                with open(cfile, "w") as f:
+                    f.write(code)
+                temp_library = join(temp_dir, library_name + ".so")
+                cmd = ["gcc", "-fPIC", "-o2", "-shared", cfile, "-o", temp_library]
+                subprocess.run(cmd, check=True)
+                replace(temp_library, library_path)
 
         # Wrap the functions to take in dict params
         # FIXME: fixed thread number
-- 
2.43.0


From 7734731adab6dece76d565327c53ec3fd840243d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:54 +0000
Subject: [PATCH 22/47] fix: compute higher order differences in
 casadi_numpy.diff

---
 lumos/numpy/casadi_numpy/calculus.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lumos/numpy/casadi_numpy/calculus.py b/lumos/numpy/casadi_numpy/calculus.py
index 3b9d0da..8f2ed69 100644
--- a/lumos/numpy/casadi_numpy/calculus.py
+++ b/lumos/numpy/casadi_numpy/calculus.py
@@ -20,7 +20,7 @@ def diff(a, n=1, axis=-1):
 
         result = a
         for i in range(n):
-            result = _cas.diff(a)
+            result = _cas.diff(result)
         return result
 
 
-- 
2.43.0


From 05dc83e288a89e532ae45a29c4907ddd0f80bfe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:54 +0000
Subject: [PATCH 23/47] fix: return the mean of all elements in
 casadi_numpy.mean without axis

---
 lumos/numpy/casadi_numpy/arithmetic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lumos/numpy/casadi_numpy/arithmetic.py b/lumos/numpy/casadi_numpy/arithmetic.py
index 316aca6..9e976e1 100644
--- a/lumos/numpy/casadi_numpy/arithmetic.py
+++ b/lumos/numpy/casadi_numpy/arithmetic.py
@@ -41,7 +41,7 @@ def mean(x, axis: int = None):
         elif axis == 1:
             return sum(x, axis=1) / x.shape[1]
         elif axis is None:
-            return mean(mean(x, axis=0), axis=1)
+            return sum(x) / (x.shape[0] * x.shape[1])
         else:
             raise ValueError(
                 "CasADi types can only be up to 2D, so `axis` must be None, 0, or 1."
-- 
2.43.0


From 4ecdfc81e7e1cd635442097a16dcf540c745e22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:54 +0000
Subject: [PATCH 24/47] fix: roll casadi arrays by any number of places

---
 lumos/numpy/casadi_numpy/array.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/lumos/numpy/casadi_numpy/array.py b/lumos/numpy/casadi_numpy/array.py
index f8a0362..fe097d0 100644
--- a/lumos/numpy/casadi_numpy/array.py
+++ b/lumos/numpy/casadi_numpy/array.py
@@ -244,14 +244,13 @@ def roll(a, shift, axis: int = None):
     """
     if not is_casadi_type(a):
         return _onp.roll(a, shift, axis=axis)
-    else:  # TODO add some checking to make sure shift < len(a), or shift is modulo'd down by len(a).
-        # assert shift < a.shape[axis]
-        if 1 in a.shape and axis == 0:
-            return _cas.vertcat(a[-shift, :], a[:-shift, :])
-        elif axis == 0:
-            return _cas.vertcat(a.T[:, -shift], a.T[:, :-shift]).T
+    else:
+        if axis == 0:
+            shift = shift % a.shape[0]
+            return _cas.vertcat(a[a.shape[0] - shift :, :], a[: a.shape[0] - shift, :])
         elif axis == 1:
-            return _cas.horzcat(a[:, -shift], a[:, :-shift])
+            shift = shift % a.shape[1]
+            return _cas.horzcat(a[:, a.shape[1] - shift :], a[:, : a.shape[1] - shift])
         elif axis is None:
             return roll(a, shift=shift, axis=0)
         else:
-- 
2.43.0


From 306a77fd93c800e089a53823c2375f9aa725ccb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:54 +0000
Subject: [PATCH 25/47] fix: infinity norm of casadi vectors

---
 lumos/numpy/casadi_numpy/linalg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lumos/numpy/casadi_numpy/linalg.py b/lumos/numpy/casadi_numpy/linalg.py
index 92163d0..5ec9b98 100644
--- a/lumos/numpy/casadi_numpy/linalg.py
+++ b/lumos/numpy/casadi_numpy/linalg.py
@@ -83,8 +83,8 @@ def norm(x, ord=None, axis=None):
             return sum(x ** 2, axis=axis) ** 0.5
         elif ord == "fro":
             return _cas.norm_fro(x)
-        elif np.isinf(ord):
-            return _cas.norm_inf()
+        elif _onp.isinf(ord):
+            return _cas.norm_inf(x)
         else:
             try:
                 return sum(abs(x) ** ord, axis=axis) ** (1 / ord)
-- 
2.43.0


From bb489a946c4b7e33dd91902a872321341563bd6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:54 +0000
Subject: [PATCH 26/47] fix: geometric spacing in casadi_numpy.geomspace

---
 lumos/numpy/casadi_numpy/spacing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lumos/numpy/casadi_numpy/spacing.py b/lumos/numpy/casadi_numpy/spacing.py
index 6ac2ce8..b05ac2c 100644
--- a/lumos/numpy/casadi_numpy/spacing.py
+++ b/lumos/numpy/casadi_numpy/spacing.py
@@ -58,4 +58,4 @@ def geomspace(start: float = 1.0, stop: float = 10.0, num: int = 50):
     else:
         if start <= 0 or stop <= 0:
             raise ValueError("Both start and stop must be positive!")
-        return _onp.log10(10 ** linspace(start, stop, num))
+        return 10 ** linspace(_onp.log10(start), _onp.log10(stop), num)
-- 
2.43.0


From fae588a82a597b721e88bf92086924404c879cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:54 +0000
Subject: [PATCH 27/47] fix: raise instead of returning errors in
 finite_difference_coefficients

---
 lumos/numpy/casadi_numpy/finite_difference_operators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lumos/numpy/casadi_numpy/finite_difference_operators.py b/lumos/numpy/casadi_numpy/finite_difference_operators.py
index bacdc13..3a9a507 100644
--- a/lumos/numpy/casadi_numpy/finite_difference_operators.py
+++ b/lumos/numpy/casadi_numpy/finite_difference_operators.py
@@ -51,10 +51,10 @@ def finite_difference_coefficients(
     """
     ### Check inputs
     if derivative_degree < 1:
-        return ValueError("The parameter derivative_degree must be an integer >= 1.")
+        raise ValueError("The parameter derivative_degree must be an integer >= 1.")
     expected_order_of_accuracy = length(x) - derivative_degree
     if expected_order_of_accuracy < 1:
-        return ValueError(
+        raise ValueError(
             "You need to provide at least (derivative_degree+1) grid points in the x vector."
         )
 
-- 
2.43.0


From 74f3406d705a161d3fbeec93e887090f9ade8f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:54 +0000
Subject: [PATCH 28/47] fix: reshape casadi arrays in row-major order like
 numpy

---
 lumos/numpy/casadi_numpy/array.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lumos/numpy/casadi_numpy/array.py b/lumos/numpy/casadi_numpy/array.py
index fe097d0..778cf88 100644
--- a/lumos/numpy/casadi_numpy/array.py
+++ b/lumos/numpy/casadi_numpy/array.py
@@ -287,7 +287,11 @@ def reshape(a, newshape):
     if not is_casadi_type(a):
         return _onp.reshape(a, newshape)
     else:
-        return _cas.reshape(a, newshape)
+        # casadi is column-major, while numpy is row-major
+        if isinstance(newshape, int):
+            newshape = (newshape, 1)
+        rows, cols = newshape
+        return _cas.reshape(a.T, (cols, rows)).T
 
 
 def zeros(shape):
-- 
2.43.0


From 6e82b18ec18c69bd26ad92a9c171fe92b59c6388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:45 +0000
Subject: [PATCH 29/47] fix: leave the bounds as they were when an update is
 refused

---
 lumos/optimal_control/scaled_mesh_ocp.py | 32 ++++++++++++++++--------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/lumos/optimal_control/scaled_mesh_ocp.py b/lumos/optimal_control/scaled_mesh_ocp.py
index 9dc4e62..3fa37fe 100644
--- a/lumos/optimal_control/scaled_mesh_ocp.py
+++ b/lumos/optimal_control/scaled_mesh_ocp.py
@@ -646,15 +646,21 @@ class ScaledMeshOCP(CompositeProblem):
         overwrite the earlier ones, so that only the last one will remain in effect.
         """
 
-        # Overwrite with external bound settings
-        for b in bounds:
-            self._set_var_bounds(
-                group=b.group, name=b.name, stage=None, bounds=b.values
-            )
+        previous = np.copy(self.lb), np.copy(self.ub)
+        try:
+            # Overwrite with external bound settings
+            for b in bounds:
+                self._set_var_bounds(
+                    group=b.group, name=b.name, stage=None, bounds=b.values
+                )
 
-        # Apply the boundary conditions again, as when we set all the bounds, the
-        # boundary conditions will be overwritten.
-        self._apply_boundary_conditions()
+            # Apply the boundary conditions again, as when we set all the bounds, the
+            # boundary conditions will be overwritten.
+            self._apply_boundary_conditions()
+        except Exception:
+            # a refused update has no effect
+            self.lb, self.ub = previous
+            raise
 
     def set_scales(self, scale_configs: Tuple[ScaleConfig]):
         """Construct variable scales
@@ -744,8 +750,14 @@ class ScaledMeshOCP(CompositeProblem):
         self, boundary_conditions: Tuple[BoundaryConditionConfig]
     ):
         """Store new boundary conditions to the problem. Will append instead of reset."""
-        self._boundary_conditions += boundary_conditions
-        self._apply_boundary_conditions()
+        previous = self._boundary_conditions, np.copy(self.lb), np.copy(self.ub)
+        try:
+            self._boundary_conditions += boundary_conditions
+            self._apply_boundary_conditions()
+        except Exception:
+            # a refused update has no effect, not even on the updates that follow
+            self._boundary_conditions, self.lb, self.ub = previous
+            raise
 
     def _apply_boundary_conditions(self):
         """Apply the boundary conditions stored."""
-- 
2.43.0


From f13bbaef00720fb4fa5c217f579104e575097558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:30 +0000
Subject: [PATCH 30/47] fix: do not scale half of the problem when a scale is
 refused

---
 lumos/optimal_control/scaled_mesh_ocp.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lumos/optimal_control/scaled_mesh_ocp.py b/lumos/optimal_control/scaled_mesh_ocp.py
index 3fa37fe..ba84c88 100644
--- a/lumos/optimal_control/scaled_mesh_ocp.py
+++ b/lumos/optimal_control/scaled_mesh_ocp.py
@@ -691,14 +691,17 @@ class ScaledMeshOCP(CompositeProblem):
         var_scales["global"] = np.ones(op.num_global_var)
 
         # create default decision variable scales
-        self._dec_var_scales = np.ones(self.num_dec)
+        dec_var_scales = np.ones(self.num_dec)
 
         # Overwrite with scales from configs and update decision variable scales
         for sc in scale_configs:
             var_scales[sc.group][
                 op.get_var_index_in_group(sc.group, sc.name)
             ] = sc.value
-            self._dec_var_scales[op.get_var_index_in_dec(sc.group, sc.name)] = sc.value
+            dec_var_scales[op.get_var_index_in_dec(sc.group, sc.name)] = sc.value
+
+        # Only take effect when all the configs are valid
+        self._dec_var_scales = dec_var_scales
 
         # Set input scales for all objectives
         for _, o in self._objectives.items():
-- 
2.43.0


From 492fcd641b18b6332a2bc0d0ee30edc17123918c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:53 +0000
Subject: [PATCH 31/47] fix: do not leave submodel returns behind when a
 forward call fails

---
 lumos/models/base.py | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/lumos/models/base.py b/lumos/models/base.py
index d6a0588..f43cebd 100644
--- a/lumos/models/base.py
+++ b/lumos/models/base.py
@@ -3,6 +3,7 @@ import logging
 import subprocess
 from abc import abstractmethod
 from collections import namedtuple
+from functools import wraps
 from os import replace
 from os.path import exists, join
 from tempfile import TemporaryDirectory
@@ -123,9 +124,31 @@ class ArrayStateSpaceModelReturn(NamedTuple):
     residuals: lnp.ndarray = np.array([])
 
 
+def _clear_submodel_returns_on_error(forward):
+    """Do not leave the returns of submodels behind when a forward call fails.
+
+    Otherwise they'd make the next forward call fail too, see Model.call_submodel
+    """
+
+    @wraps(forward)
+    def wrapped(self, *args, **kwargs):
+        try:
+            return forward(self, *args, **kwargs)
+        except Exception:
+            self._clear_submodel_return_buffer()
+            raise
+
+    return wrapped
+
+
 class Model(CompositeModel):
     """Abstract class for mathematical models of the simplest form."""
 
+    def __init_subclass__(cls, **kwargs):
+        super().__init_subclass__(**kwargs)
+        if "forward" in vars(cls):
+            cls.forward = _clear_submodel_returns_on_error(cls.forward)
+
     def __init__(
         self, model_config: Dict[str, Any] = {}, params: Dict[str, Any] = {},
     ):
-- 
2.43.0


From 27a546d6c8bf7c43872582d46ed38413f183d8e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:52 +0000
Subject: [PATCH 32/47] fix: restore the model parameters when creating the
 model algebra fails

---
 lumos/models/base.py | 51 +++++++++++++++++++++++---------------------
 1 file changed, 27 insertions(+), 24 deletions(-)

diff --git a/lumos/models/base.py b/lumos/models/base.py
index f43cebd..b7e8f00 100644
--- a/lumos/models/base.py
+++ b/lumos/models/base.py
@@ -666,20 +666,22 @@ class StateSpaceModel(Model):
         # TODO: create a param copy method
         params = ParameterTree.from_dict(self.get_recursive_params().to_dict())
 
-        if backend == "casadi":
-            implicit_functions = self._make_casadi_model_algebra_cons()
-        elif backend == "jax":
-            implicit_functions = self._make_jax_model_algebra_cons()
-        elif backend == "custom":
-            implicit_functions = self._make_custom_model_algebra_cons()
-        else:
-            raise ValueError(
-                f"{backend} is not supported. Only 'jax', 'casadi' and 'custom' backends are supported."
-            )
-
-        # Restore the original params (some backends would replace model params with
-        # objects such as their own symbolic types or tracers during tracing)
-        self.set_recursive_params(params)
+        try:
+            if backend == "casadi":
+                implicit_functions = self._make_casadi_model_algebra_cons()
+            elif backend == "jax":
+                implicit_functions = self._make_jax_model_algebra_cons()
+            elif backend == "custom":
+                implicit_functions = self._make_custom_model_algebra_cons()
+            else:
+                raise ValueError(
+                    f"{backend} is not supported. Only 'jax', 'casadi' and 'custom' backends are supported."
+                )
+        finally:
+            # Restore the original params (some backends would replace model params with
+            # objects such as their own symbolic types or tracers during tracing), also
+            # when it failed, eg because there is no compiler.
+            self.set_recursive_params(params)
 
         return implicit_functions
 
@@ -968,10 +970,17 @@ class StateSpaceModel(Model):
         inputs = CasType.sym("inputs", self.num_inputs)
 
         # Only the model calls need to go inside the context manager.
-        with lnp.use_backend("casadi"):
-            model_return = self.apply_and_forward_with_arrays(
-                states, inputs, mesh, cas_dict_params
-            )
+        try:
+            with lnp.use_backend("casadi"):
+                model_return = self.apply_and_forward_with_arrays(
+                    states, inputs, mesh, cas_dict_params
+                )
+        finally:
+            # Need to set the parameters back to the original params, as they were
+            # replaced with casadi variables during the apply_and_forward_with_arrays
+            # TODO: the same also happens to other casadi export and also jax tracing
+            # right? Can we generalize this problem?
+            self.set_recursive_params(params)
 
         # Generate code
         if options is None:
@@ -988,9 +997,3 @@ class StateSpaceModel(Model):
                 codegen.add_include(inc)
 
         codegen.generate()
-
-        # Need to set the parameters back to the original params, as they were replaced
-        # with casadi variables during the apply_and_forward_with_arrays
-        # TODO: the same also happens to other casadi export and also jax tracing right?
-        # Can we generalize this problem?
-        self.set_recursive_params(params)
-- 
2.43.0


From 62de0e7480198dd5b1abaf23f34a3504f3ec2dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:48 +0000
Subject: [PATCH 33/47] fix: return integer structure indices for models that
 are linear

---
 lumos/models/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lumos/models/base.py b/lumos/models/base.py
index b7e8f00..3bc5f6a 100644
--- a/lumos/models/base.py
+++ b/lumos/models/base.py
@@ -923,8 +923,8 @@ class StateSpaceModel(Model):
             "constraints": cas.external("implicit_con", library_path),
             "jacobian": cas.external("implicit_jac", library_path),
             "hessian": cas.external("implicit_hess", library_path),
-            "jacobian_structure": (np.array(jac_rows), np.array(jac_cols)),
-            "hessian_structure": (np.array(hess_rows), np.array(hess_cols)),
+            "jacobian_structure": (np.array(jac_rows, int), np.array(jac_cols, int)),
+            "hessian_structure": (np.array(hess_rows, int), np.array(hess_cols, int)),
         }
 
         self.model_algebra = CasMappedConstraints(
-- 
2.43.0


From 776c0e578363fa4affa92bf07b9ff74fddc091c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:34 +0000
Subject: [PATCH 34/47] fix: take the batch size of a map from a mapped
 argument

---
 lumos/numpy/utils.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lumos/numpy/utils.py b/lumos/numpy/utils.py
index ac714fe..ab63563 100644
--- a/lumos/numpy/utils.py
+++ b/lumos/numpy/utils.py
@@ -129,7 +129,9 @@ def cmap(
             full_in_axes = [in_axes] * len(args)
 
         # First find an argument that needs to be mapped
-        sample_arg = next(a for a in args if a is not None)
+        sample_arg = next(
+            a for (a, map_axis) in zip(args, full_in_axes) if map_axis is not None
+        )
         batch = sample_arg.shape[0]
 
         # NOTE: Creating the mapped function costs quite a bit of overhead. Therefore we
@@ -226,7 +228,9 @@ def lmap(
             full_in_axes = [in_axes] * len(args)
 
         # First find an argument that needs to be mapped
-        sample_arg = next(a for a in args if a is not None)
+        sample_arg = next(
+            a for (a, map_axis) in zip(args, full_in_axes) if map_axis is not None
+        )
         batch_size = sample_arg.shape[0]
 
         out_array = []
-- 
2.43.0


From 5f7946ce6b826fdc9f980ce893f1d4aab2ac2131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:24 +0000
Subject: [PATCH 35/47] fix: write the results of the last iterate, not of a
 rejected trial point

---
 lumos/optimal_control/scaled_mesh_ocp.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lumos/optimal_control/scaled_mesh_ocp.py b/lumos/optimal_control/scaled_mesh_ocp.py
index ba84c88..7e26370 100644
--- a/lumos/optimal_control/scaled_mesh_ocp.py
+++ b/lumos/optimal_control/scaled_mesh_ocp.py
@@ -884,7 +884,7 @@ class ScaledMeshOCP(CompositeProblem):
             # Write the result file
             result_file = os.path.join(self._logging_dir, "results.csv")
             self._create_result_df(
-                self._last_iter_dec_var, file_path=result_file, iter_num=self._num_iter,
+                self._last_iterate, file_path=result_file, iter_num=self._num_iter,
             )
 
             # Combine the metrics history
@@ -1060,6 +1060,8 @@ class ScaledMeshOCP(CompositeProblem):
         else:
             self._log(metrics)
             self._num_iter = metrics["iter_count"]
+            # The solver might try, and reject, further points after the last iteration
+            self._last_iterate = self._last_iter_dec_var
 
     def _get_cyclic_indices(self) -> Tuple[np.ndarray, np.ndarray]:
         """Return the initial and final variable indices that need to be cyclic."""
-- 
2.43.0


From e8326b43a4c38166c2eb84b66e9d6e557b06695a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:29 +0000
Subject: [PATCH 36/47] fix: integer hessian indices for the constant objective
 of feasibility solves

---
 lumos/optimal_control/nlp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lumos/optimal_control/nlp.py b/lumos/optimal_control/nlp.py
index 7aa8e85..513fed1 100644
--- a/lumos/optimal_control/nlp.py
+++ b/lumos/optimal_control/nlp.py
@@ -594,7 +594,7 @@ class NLPFunction(ABC):
                 objective=lambda x: 0,
                 gradient=lambda x: np.zeros(self.num_dec),
                 hessian=lambda x: [],
-                hessian_structure=([], []),
+                hessian_structure=(np.array([], int), np.array([], int)),
             )
             self.add_objective("const_obj", const_obj)
 
-- 
2.43.0


From 9752adee2f66a83529c0af413100461218912540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:44 +0000
Subject: [PATCH 37/47] fix: distances to the bounds of ConstCurvTrack, which
 were None

---
 lumos/models/tracks.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lumos/models/tracks.py b/lumos/models/tracks.py
index f0ad0ac..eff1d23 100644
--- a/lumos/models/tracks.py
+++ b/lumos/models/tracks.py
@@ -199,3 +199,9 @@ class ConstCurvTrack(Track):
     def half_width_at(self, s: float) -> float:
         """Constant halfwidth for now"""
         return self._half_wdith
+
+    def left_distance_at(self, s: float) -> float:
+        return self.half_width_at(s)
+
+    def right_distance_at(self, s: float) -> float:
+        return self.half_width_at(s)
-- 
2.43.0


From 589e5e2009dabd76c87094ce5718498894b8e6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:41 +0000
Subject: [PATCH 38/47] fix: update the track bounds when the mesh of a laptime
 simulation changes

---
 lumos/simulations/laptime_simulation.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/lumos/simulations/laptime_simulation.py b/lumos/simulations/laptime_simulation.py
index b18b608..6812f22 100644
--- a/lumos/simulations/laptime_simulation.py
+++ b/lumos/simulations/laptime_simulation.py
@@ -1,7 +1,7 @@
 import logging
 import numpy as np
 from dataclasses import dataclass, field
-from typing import Any, Dict, List, Tuple
+from typing import Any, Dict, List, Optional, Tuple
 
 from lumos.optimal_control.config import (
     BoundConfig,
@@ -140,6 +140,7 @@ class LTCConfig(SimConfig):
 
 class LaptimeSimulation(FixedMeshOCP):
     ConfigClass: type = LTCConfig
+    _track: RaceTrack = None
 
     def __init__(
         self,
@@ -186,7 +187,15 @@ class LaptimeSimulation(FixedMeshOCP):
         # update mesh_scale
         self.set_mesh_scale(self._track.total_distance)
 
-        # update variable bounds
+        self._update_track_bounds()
+
+    def set_normalized_mesh(self, interval_points: Optional[np.ndarray] = None):
+        super().set_normalized_mesh(interval_points)
+        # The track is sampled at the mesh. (During construction there is no track yet)
+        if self._track is not None:
+            self._update_track_bounds()
+
+    def _update_track_bounds(self):
         curvature = self._track.curvature_at(self.distance_mesh)
         heading = self._track.heading_at(self.distance_mesh)
         left_distance = self._track.left_distance_at(self.distance_mesh)
-- 
2.43.0


From 5eafa57ae87ba2dc3f071bde2b2027d972b68e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:20 +0000
Subject: [PATCH 39/47] fix: do not share the default bounds, scales and
 boundary conditions between laptime configurations

---
 lumos/simulations/laptime_simulation.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lumos/simulations/laptime_simulation.py b/lumos/simulations/laptime_simulation.py
index 6812f22..4c9324d 100644
--- a/lumos/simulations/laptime_simulation.py
+++ b/lumos/simulations/laptime_simulation.py
@@ -110,11 +110,11 @@ class LTCConfig(SimConfig):
     # Overwrite the default factory to those specific to LTC
     # FIXME: default_factory only takes zero argument functions. So here we could end up
     # with a config that has is_cycli==False, but with the default for is_cyclic==True
-    boundary_conditions: Tuple[
-        BoundaryConditionConfig
-    ] = get_default_boundary_conditions()
-    bounds: Tuple[BoundConfig] = get_default_bounds()
-    scales: Tuple[ScaleConfig] = get_default_scales()
+    boundary_conditions: Tuple[BoundaryConditionConfig] = field(
+        default_factory=get_default_boundary_conditions
+    )
+    bounds: Tuple[BoundConfig] = field(default_factory=get_default_bounds)
+    scales: Tuple[ScaleConfig] = field(default_factory=get_default_scales)
     con_output_names: Tuple[str] = get_default_con_output_names()
 
     def __post_init__(self):
-- 
2.43.0


From 0121a300b2189348c0bfe156659233af4de9dc64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:29 +0000
Subject: [PATCH 40/47] fix: read tire files with tabs and with comments that
 contain anything

Tabs were kept as part of the parameter name, a comment containing "=" could
create a parameter, and a value followed by a "!" comment was lost.
---
 lumos/models/tires/utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lumos/models/tires/utils.py b/lumos/models/tires/utils.py
index 33c1b0c..6e89354 100644
--- a/lumos/models/tires/utils.py
+++ b/lumos/models/tires/utils.py
@@ -31,10 +31,10 @@ def read_tir_file(file_path: str) -> Dict[str, Any]:
         tir_data = f.readlines()
 
         for line in tir_data:
-            # TODO: this is pretty flaky and would break if somebody puts a "=" into
-            # comments
-            if "=" in line:
-                name, val, *_ = re.split("[=$]", line.replace(" ", ""))
+            # '$' and '!' start comments, which may contain anything (including "=")
+            content = re.split("[$!]", line, maxsplit=1)[0]
+            if "=" in content:
+                name, val, *_ = (s.strip() for s in content.split("="))
                 try:
                     params[name] = float(val)
                 except ValueError:
-- 
2.43.0


From a89ebe9b710ec51c5449a51d24dd8438c64db44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:02 +0000
Subject: [PATCH 41/47] fix: rebuild the logging configuration from its
 dictionary form

---
 lumos/optimal_control/config.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lumos/optimal_control/config.py b/lumos/optimal_control/config.py
index 85c33b5..4bab520 100644
--- a/lumos/optimal_control/config.py
+++ b/lumos/optimal_control/config.py
@@ -156,6 +156,9 @@ class SimConfig:
                 BoundaryConditionConfig(**d) for d in self.boundary_conditions
             )
 
+        if isinstance(self.logging_config, dict):
+            self.logging_config = LoggingConfig(**self.logging_config)
+
     def to_dict(self) -> Dict[str, Any]:
         """Convert a nested config to a dictionary."""
         return asdict(self)
-- 
2.43.0


From 3d46c0d374ee273883b91685548f3d361a4af813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:47 +0000
Subject: [PATCH 42/47] fix: honour the delimiter when getting, setting and
 replacing nested tree entries

---
 lumos/models/tree_utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lumos/models/tree_utils.py b/lumos/models/tree_utils.py
index e000c42..c6df15b 100644
--- a/lumos/models/tree_utils.py
+++ b/lumos/models/tree_utils.py
@@ -98,7 +98,7 @@ class Tree:
             subtree._data = value
         elif self._data_type == dict:
             *path_names, param_key = path.split(delimiter)
-            subtree = self._get_subtree(delimiter.join(path_names))
+            subtree = self._get_subtree(delimiter.join(path_names), delimiter)
             subtree._data[param_key] = value
         else:
             raise TypeError("Only str and dict supported for Tree at the moment")
@@ -111,7 +111,7 @@ class Tree:
             )
         *path_to_parent, child_name = path.split(delimiter)
         path_to_parent = delimiter.join(path_to_parent)
-        parent = self._get_subtree(path_to_parent)
+        parent = self._get_subtree(path_to_parent, delimiter)
 
         # Ensure the child to be replaced does actually exist
         if child_name in parent._children:
@@ -173,7 +173,7 @@ class ParameterTree(Tree):
 
     def get_param(self, path, delimiter="."):
         *path_names, param_key = path.split(delimiter)
-        t = self._get_subtree(delimiter.join(path_names))
+        t = self._get_subtree(delimiter.join(path_names), delimiter)
         return t._data[param_key]
 
     def set_param(self, path, value, delimiter="."):
-- 
2.43.0


From 4991388173d26664fbe93b8f49569f58648a689a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:58 +0000
Subject: [PATCH 43/47] fix: structure of the condensed jacobian no longer
 misses entries that vanish at the probed point

---
 lumos/optimal_control/scaled_mesh_ocp.py | 33 +++++++++++++-----------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/lumos/optimal_control/scaled_mesh_ocp.py b/lumos/optimal_control/scaled_mesh_ocp.py
index 7e26370..263abbd 100644
--- a/lumos/optimal_control/scaled_mesh_ocp.py
+++ b/lumos/optimal_control/scaled_mesh_ocp.py
@@ -341,25 +341,28 @@ class ScaledMeshOCP(CompositeProblem):
 
     def _condensed_jacobianstructure(self):
         """Return jacobian structure by a pessimistic estimate"""
-        # We estimate the sparsity by passing in a random vecotr. There is the risk
-        # that the sparse library would actually remove explicit zeros (opposite to
-        # structural zeros, these are values that happen to be zero at this point of
-        # calculation and make the estimation more optimistic/sparser). But the risk
-        # is pretty low when we're using float, and it's probably very very small
-        # probability that float computations will become 'zero' accidentally.
-        #
-        # If we want to be conservative, we could create the algebraic and continuity
-        # jacobians with no explicit zeros, which would probably give a more
-        # pessimistic estimate.
-        x0 = np.random.randn(self.num_dec)
-        algebraic_jac = self._con_storage["model_algebra"].get_csc_jacobian(x0)
-        continuity_jac = self._con_storage["continuity"].get_csc_jacobian(x0)
+        # NOTE: we can't estimate the sparsity from the values at some point, because
+        # entries which are zero there (and with the current parameters) could be non
+        # zero elsewhere. So we use jacobians with a 1 at every structural non-zero, and
+        # as nothing is negative, nothing cancels out in the chain rule either.
+        def make_structure_jac(con):
+            rows, cols = con.jacobianstructure()
+            return sparse.csc_matrix(
+                (np.ones(len(rows)), (rows, cols)), shape=(con.num_con, con.num_in)
+            )
+
         # This jac should have a pessimistic structure: the least possible sparsity
         structure_jac = self._make_chainrule_condensed_jacobian(
-            continuity_jac, algebraic_jac
+            make_structure_jac(self._con_storage["continuity"]),
+            make_structure_jac(self._con_storage["model_algebra"]),
         )
+        rows, cols = structure_jac.nonzero()
 
-        return structure_jac.nonzero()
+        # The condensed constraints don't depend on states_dot
+        idx_states_dot = self.dec_var_operator.get_group_indcies_in_dec("states_dot")
+        keep = np.isin(cols, idx_states_dot, invert=True)
+
+        return rows[keep], cols[keep]
 
     def _condensed_hessian(self, x, lagrange):
         """Compute the condensed hessian values.
-- 
2.43.0


From 39897daba281cd92f7830ceff90218a2cd302e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:17 +0000
Subject: [PATCH 44/47] fix: refuse submodels in a configuration that the model
 does not have

---
 lumos/models/composition.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lumos/models/composition.py b/lumos/models/composition.py
index 5e201f0..460b97c 100644
--- a/lumos/models/composition.py
+++ b/lumos/models/composition.py
@@ -105,6 +105,14 @@ class CompositeModel:
                 f"Expects a config for {expected_cls_str} but got a config for {actual_cls_str}"
             )
 
+        # a place the model does not have would silently be ignored
+        unknown = set(model_config._children) - set(self.get_submodel_names())
+        if unknown:
+            raise KeyError(
+                f"{expected_cls_str} has no submodels {sorted(unknown)}. "
+                f"Valid ones are {self.get_submodel_names()}"
+            )
+
         if not self.is_leaf():
             # FIXME: access private attribute
             self._build_submodels(model_config._children)
-- 
2.43.0


From d952e1dc8e61a3cf1a450c50933fae03d3f9dd6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:50 +0000
Subject: [PATCH 45/47] fix: read tire files whose comments hold characters of
 another encoding

---
 lumos/models/tires/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lumos/models/tires/utils.py b/lumos/models/tires/utils.py
index 6e89354..5760ae9 100644
--- a/lumos/models/tires/utils.py
+++ b/lumos/models/tires/utils.py
@@ -27,7 +27,8 @@ def read_tir_file(file_path: str) -> Dict[str, Any]:
     """
 
     params = {}
-    with open(file_path, "r") as f:
+    # comments may hold characters of any encoding
+    with open(file_path, "r", errors="replace") as f:
         tir_data = f.readlines()
 
         for line in tir_data:
-- 
2.43.0


From d2f0ced286dd0f8fc5c76954a2a0c6507d53d297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:25 +0000
Subject: [PATCH 46/47] fix: ConstAero returns a copy of its parameters as
 outputs

The returned outputs were the parameter dictionary of the model itself, so that
changing them changed what later calls return.
---
 lumos/models/aero/aero.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lumos/models/aero/aero.py b/lumos/models/aero/aero.py
index a1fa7bb..738abfd 100644
--- a/lumos/models/aero/aero.py
+++ b/lumos/models/aero/aero.py
@@ -22,7 +22,8 @@ class ConstAero(AeroModel):
         return {"Cx": 0.6, "Cy": 0.0, "Cz": 1.9}
 
     def forward(self, inputs):
-        return ModelReturn(outputs=self._params)
+        # NOTE: a copy, so that changing the outputs does not change the parameters
+        return ModelReturn(outputs=dict(self._params))
 
 
 class GPAero(AeroModel):
-- 
2.43.0


From f412bed60a9da138780c9085f13598dfdf8866ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:25 +0000
Subject: [PATCH 47/47] fix: MLPAero takes its layers by their number

The layers were taken in the order of the parameter dictionary, so that weights
given in another order, or more than ten layers passing through jax (which sorts
by name), gave another network or an error.
---
 lumos/models/aero/aero.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lumos/models/aero/aero.py b/lumos/models/aero/aero.py
index 738abfd..e2986ff 100644
--- a/lumos/models/aero/aero.py
+++ b/lumos/models/aero/aero.py
@@ -70,9 +70,11 @@ class MLPAero(AeroModel):
 
     @classmethod
     def _dict_to_list(cls, weights: dict):
-        # NOTE: this requires ordered dict, which is default in python for 3.6+
-        # We rely on the ordered dict instead of the number in name
-        return [v for k, v in weights.items() if k.startswith(cls.weights_prefix)]
+        # NOTE: we rely on the number in the name instead of the order of the dict, as
+        # the latter depends on the order in which the parameters were given (and is
+        # alphabetical when they come out of jax, i.e. layer 10 before layer 2).
+        names = [k for k in weights if k.startswith(cls.weights_prefix)]
+        return [weights[k] for k in sorted(names, key=lambda k: int(k.split("_")[-1]))]
 
     @classmethod
     def get_default_params(cls):
-- 
2.43.0

