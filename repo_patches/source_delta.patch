From 0af32b2cf311a80d7305c36b9dec2a3de8906171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:41 +0000
Subject: [PATCH 01/29] fix: place axis labels relative to the figure origin

update_subplots subtracted the figure's lower left corner from axes frames
but not from axis label points, so labels were misplaced whenever the figure
quadrilateral did not start at (0, 0).
---
 src/mpllayout/matplotlibutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpllayout/matplotlibutils.py b/src/mpllayout/matplotlibutils.py
index fb2323b..7f69e77 100644
--- a/src/mpllayout/matplotlibutils.py
+++ b/src/mpllayout/matplotlibutils.py
@@ -114,7 +114,7 @@ def update_subplots(
             axis_label = f"{axis_prefix}AxisLabel"
             if axis_label in root_prim[key]:
                 axis_label_point: pr.Point = root_prim[f"{key}/{axis_label}"]
-                label_coords = axis_label_point.value
+                label_coords = axis_label_point.value - fig_origin
                 axis.set_label_coords(
                     *(label_coords / fig_size), transform=fig.transFigure
                 )
-- 
2.43.0


From f7728828d286bd06b44af7a7bdbf85f6b5839ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:41 +0000
Subject: [PATCH 02/29] fix: keep the angle between two lines within (-pi, pi)

Angle subtracted two arctan2 angles, so lines on either side of the negative
x-axis gave an angle off by 2*pi from the documented range.
---
 src/mpllayout/constructions.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/mpllayout/constructions.py b/src/mpllayout/constructions.py
index 839b7fd..5bf2e0e 100644
--- a/src/mpllayout/constructions.py
+++ b/src/mpllayout/constructions.py
@@ -1018,9 +1018,10 @@ class Angle(LeafConstruction, _LineLineSignature):
         line0, line1 = prims
         dir0 = UnitLineVector.assem((line0,))
         dir1 = UnitLineVector.assem((line1,))
-        angle0 = jnp.arctan2(dir0[1], dir0[0])
-        angle1 = jnp.arctan2(dir1[1], dir1[0])
-        return angle1 - angle0
+        # NOTE: Subtracting the two line angles could leave the range `(-pi, pi)`
+        sin = dir0[0] * dir1[1] - dir0[1] * dir1[0]
+        cos = jnp.dot(dir0, dir1)
+        return jnp.arctan2(sin, cos)
 
 
 ## Point and Line constructions
-- 
2.43.0


From c80f61b82f2176ea13c5f72bba56494cb456520b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:41 +0000
Subject: [PATCH 03/29] fix: rotation of lines pointing downwards

A unit vector with a negative y-component has rotation 360 - arccos(x),
not 180 + arccos(x).
---
 src/mpllayout/ui.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpllayout/ui.py b/src/mpllayout/ui.py
index dd212b1..ccef777 100644
--- a/src/mpllayout/ui.py
+++ b/src/mpllayout/ui.py
@@ -48,7 +48,7 @@ def rotation_from_line(line: pr.Line) -> float:
     # Since `unit_vec` has unit length, the x-component is the cosine
     theta = 180/np.pi * np.arccos(unit_vec[0])
     if unit_vec[1] < 0:
-        theta = theta + 180
+        theta = 360 - theta
 
     return theta
 
-- 
2.43.0


From 818ce833eefea2419233a9ab7ce8699d4682a37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:41 +0000
Subject: [PATCH 04/29] fix: plot_polygon requires an alpha keyword argument

The keyword arguments are documented as additional but omitting alpha
raised a KeyError.
---
 src/mpllayout/ui.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpllayout/ui.py b/src/mpllayout/ui.py
index ccef777..128d2d5 100644
--- a/src/mpllayout/ui.py
+++ b/src/mpllayout/ui.py
@@ -99,7 +99,7 @@ def plot_polygon(ax: Axes, polygon: pr.Polygon, label: Optional[str]=None, **kwa
     ]
     verts = np.array([point.value for point in points])
     patch_kwargs = kwargs.copy()
-    patch_kwargs['alpha'] = 0.1*kwargs['alpha']
+    patch_kwargs['alpha'] = 0.1*kwargs.get('alpha', 1)
     poly_patch = Polygon(verts, closed=True, **patch_kwargs)
     ax.add_patch(poly_patch)
 
-- 
2.43.0


From 932a7d8edcb8ee70ff915e533b9bdc0a7d91bb8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:41 +0000
Subject: [PATCH 05/29] fix: leave the layout unchanged when adding a
 constraint fails

If the child parameters of a constraint couldn't be built, the constraint and
primitive key trees were already updated while the parameter tree wasn't, so
later constraints were paired with the wrong parameters.
---
 src/mpllayout/layout.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/mpllayout/layout.py b/src/mpllayout/layout.py
index 8df961c..78816b2 100644
--- a/src/mpllayout/layout.py
+++ b/src/mpllayout/layout.py
@@ -205,9 +205,14 @@ class Layout:
         except TypeError as exc:
             raise RuntimeError(f"Wrong parameters {param} for constraint {type(constraint)}\n{exc}") from exc
 
+        # Build all nodes before adding any of them so that an error can't leave
+        # the trees with mismatched structures
+        root_prim_keys = constraint.root_prim_keys(prim_keys)
+        root_param = constraint.root_params(param)
+
         self.root_constraint.add_child(key, constraint)
-        self.root_prim_keys.add_child(key, constraint.root_prim_keys(prim_keys))
-        self.root_param.add_child(key, constraint.root_params(param))
+        self.root_prim_keys.add_child(key, root_prim_keys)
+        self.root_param.add_child(key, root_param)
 
 def update_layout_constraints(
     layout: Layout,
-- 
2.43.0


From 0d3e668504efc6a04555cd27b1ba2af5c8675deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:41 +0000
Subject: [PATCH 06/29] fix: `in` raises a KeyError for keys with a missing
 parent

---
 src/mpllayout/containers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mpllayout/containers.py b/src/mpllayout/containers.py
index bee6167..7bbc7c1 100644
--- a/src/mpllayout/containers.py
+++ b/src/mpllayout/containers.py
@@ -169,7 +169,10 @@ class Node(Generic[TValue]):
         if child_key == "":
             return parent_key in self.children
         else:
-            return child_key in self[parent_key]
+            return (
+                parent_key in self.children
+                and child_key in self.children[parent_key]
+            )
 
     def __len__(self) -> int:
         return len(self.children)
-- 
2.43.0


From 1a9b510c72dd8e8cace3ed62b35a7b959f62c977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:41 +0000
Subject: [PATCH 07/29] fix: copying a node loses the node types

Node.copy returned plain Node instances for subclasses; for example, copying a
PrimitiveNode or ParamsNode.
---
 src/mpllayout/containers.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/mpllayout/containers.py b/src/mpllayout/containers.py
index 7bbc7c1..602e250 100644
--- a/src/mpllayout/containers.py
+++ b/src/mpllayout/containers.py
@@ -142,9 +142,12 @@ class Node(Generic[TValue]):
             self.children[key] = child
 
     def copy(self):
-        def identity(value: TValue) -> TValue:
-            return value
-        return map(identity, self)
+        """
+        Return a copy of the tree
+
+        All nodes are copied (with the same node types) but node values are not.
+        """
+        return unflatten(flatten('', self))[0]
 
     ## String methods
 
-- 
2.43.0


From 0ed732c640400a651dca7be62a52ae9c5bf7d0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:41 +0000
Subject: [PATCH 08/29] fix: updated layouts share trees with the original
 layout

Adding a constraint to the layout from update_layout_constraints also added it
to the original layout's constraints but not its parameters (and vice-versa).
---
 src/mpllayout/layout.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/mpllayout/layout.py b/src/mpllayout/layout.py
index 78816b2..c245d3e 100644
--- a/src/mpllayout/layout.py
+++ b/src/mpllayout/layout.py
@@ -265,10 +265,11 @@ def update_layout_constraints(
         constraintkey_to_param
     )
 
+    # Copy trees so that adding to one of the two layouts doesn't affect the other
     return Layout(
-        layout.root_prim,
-        layout.root_constraint,
-        layout.root_prim_keys,
+        layout.root_prim.copy(),
+        layout.root_constraint.copy(),
+        layout.root_prim_keys.copy(),
         new_root_param
     )
 
-- 
2.43.0


From 3cbd81d63e0402deb4e1ef970d314cfe0c0dc2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:04 +0000
Subject: [PATCH 09/29] fix: reject wrong numbers of child construction
 parameters

---
 src/mpllayout/constraints.py   |  2 +-
 src/mpllayout/constructions.py | 10 +++++++++-
 src/mpllayout/layout.py        |  2 +-
 3 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/mpllayout/constraints.py b/src/mpllayout/constraints.py
index 66c25ea..676718f 100644
--- a/src/mpllayout/constraints.py
+++ b/src/mpllayout/constraints.py
@@ -1034,7 +1034,7 @@ class RectilinearGrid(ArrayConstraint, con._QuadrilateralsSignature):
         prim_keys = tuple(align_row_args + align_col_args)
 
         def child_params(params: Params) -> tuple[Params, ...]:
-            return 4 * num_row*num_col * ((),)
+            return (num_row + num_col) * ((),)
         return keys, constraints, prim_keys, child_params
 
     @classmethod
diff --git a/src/mpllayout/constructions.py b/src/mpllayout/constructions.py
index 5bf2e0e..42b3f1f 100644
--- a/src/mpllayout/constructions.py
+++ b/src/mpllayout/constructions.py
@@ -356,7 +356,15 @@ class ConstructionNode(Node[ConstructionValue]):
         root_params: ParamsNode
             A tree of params
         """
-        children_params = self.child_params(params)
+        self.validate_params(params)
+
+        children_params = tuple(self.child_params(params))
+        if len(children_params) != len(self):
+            raise TypeError(
+                f"Expected parameters for {len(self)} child constructions"
+                f", not {len(children_params)}"
+            )
+
         children = {
             key: child.root_params(child_params)
             for (key, child), child_params in zip(self.items(), children_params)
diff --git a/src/mpllayout/layout.py b/src/mpllayout/layout.py
index c245d3e..6a95369 100644
--- a/src/mpllayout/layout.py
+++ b/src/mpllayout/layout.py
@@ -202,13 +202,13 @@ class Layout:
 
         try:
             constraint.validate_params(param)
+            root_param = constraint.root_params(param)
         except TypeError as exc:
             raise RuntimeError(f"Wrong parameters {param} for constraint {type(constraint)}\n{exc}") from exc
 
         # Build all nodes before adding any of them so that an error can't leave
         # the trees with mismatched structures
         root_prim_keys = constraint.root_prim_keys(prim_keys)
-        root_param = constraint.root_params(param)
 
         self.root_constraint.add_child(key, constraint)
         self.root_prim_keys.add_child(key, root_prim_keys)
-- 
2.43.0


From 3c8503d8c7400e1ae4ed59341a08196e07df8c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:04 +0000
Subject: [PATCH 10/29] fix: split vectors into the chunk for every node

---
 src/mpllayout/constructions.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/mpllayout/constructions.py b/src/mpllayout/constructions.py
index 42b3f1f..59be361 100644
--- a/src/mpllayout/constructions.py
+++ b/src/mpllayout/constructions.py
@@ -644,18 +644,18 @@ class Vector(Construction, _NullSignature):
         prim_keys = num_child*((),)
 
         child_cumsizes = tuple(node.value for _, node in cumsize_node.items())
-        child_sizes = tuple(node.value for _, node in size_node.items())
 
         def child_params(params: Params) -> tuple[Params, ...]:
             value, = params
 
-            if isinstance(value, (float, int)):
-                value = value* np.ones(cumsize_node.value)
+            if np.ndim(value) == 0:
+                value = value * np.ones(cumsize_node.value)
 
+            # The first chunk belongs to the node itself and the remaining ones
+            # belong to the children (and all their children)
             return tuple(
-                (child_value[:size],)
-                for child_value, size
-                in zip(chunk(value, child_cumsizes), child_sizes)
+                (child_value,)
+                for child_value in chunk(value[size_node.value:], child_cumsizes)
             )
 
         return (keys, constructions, prim_keys, child_params)
@@ -666,10 +666,14 @@ class Vector(Construction, _NullSignature):
 
     @classmethod
     def assem(cls, prims: tuple[()], value: float | NDArray):
-        # FIXME: Does this work for an empty root node???
-        # Seems that it would return a non-empty vector which would be wrong?
         return value
 
+    def assem_atleast_1d(self, prims: Prims, *params: Params) -> NDArray:
+        # Only return the chunk for this node since remaining chunks are returned
+        # by children
+        value = super().assem_atleast_1d(prims, *params)
+        return value[:self.signature.value_size]
+
 
 class Scalar(LeafConstruction, _NullSignature):
     """
@@ -1664,7 +1668,10 @@ def transform_sum(cons_a: TCons, cons_b: TCons) -> ConstructionNode:
             def assem(cls, sum_prims: Prims, *sum_params: Params) -> NDArray:
                 prims_a, prims_b = split_prims(sum_prims)
                 params_a, params_b = split_params(sum_params)
-                return cons_a.assem(prims_a, *params_a) + cons_b.assem(prims_b, *params_b)
+                return (
+                    cons_a.assem_atleast_1d(prims_a, *params_a)
+                    + cons_b.assem_atleast_1d(prims_b, *params_b)
+                )
 
         return SumConstruction, node_value, sum_child_keys
 
-- 
2.43.0


From f6576a6d453df17deb3cbc911c3afcc42d7db9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:04 +0000
Subject: [PATCH 11/29] fix: sum compound constructions over both sets of
 primitives

---
 src/mpllayout/constructions.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/mpllayout/constructions.py b/src/mpllayout/constructions.py
index 59be361..05707dc 100644
--- a/src/mpllayout/constructions.py
+++ b/src/mpllayout/constructions.py
@@ -1646,9 +1646,15 @@ def transform_sum(cons_a: TCons, cons_b: TCons) -> ConstructionNode:
         concat_params, split_params = cat_split_params
 
         # Build the sum construction `ConstructionValue` tuple
+        # The primitives for `cons_b` come after the primitives for `cons_a`
+        num_prims_a = len(signature_a.prim_types)
+        num_prims_b = len(signature_b.prim_types)
+        child_prim_keys_b = cons_b.child_prim_keys(
+            tuple(f"arg{num_prims_a + n}" for n in range(num_prims_b))
+        )
         sum_child_prim_keys = tuple(
             concat_prims(prim_keys_a, prim_keys_b) for prim_keys_a, prim_keys_b
-            in zip(value_a.child_prim_keys, value_b.child_prim_keys)
+            in zip(value_a.child_prim_keys, child_prim_keys_b)
         )
 
         def sum_child_params(sum_params: Params) -> tuple[Params, ...]:
-- 
2.43.0


From f0ee3433212c64f56c9ecb48ea5cf2c02e31522b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:04 +0000
Subject: [PATCH 12/29] fix: keep all parameters when no parameters are frozen

---
 src/mpllayout/constructions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpllayout/constructions.py b/src/mpllayout/constructions.py
index 05707dc..8cff768 100644
--- a/src/mpllayout/constructions.py
+++ b/src/mpllayout/constructions.py
@@ -1849,7 +1849,7 @@ def transform_partial(cons: TCons, *freeze_params: tuple[Param, ...]):
         return child_params(params)
 
     partial_sig = ConstructionSignature(
-        prim_types, param_types[:-len(freeze_params)], value_size
+        prim_types, param_types[:len(param_types) - len(freeze_params)], value_size
     )
 
     partial_value = ConstructionValue(
-- 
2.43.0


From b38fa6e561540dcfa774fedef7f3a4356da9c135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:04 +0000
Subject: [PATCH 13/29] fix: keep the child order in pytree flattening

---
 src/mpllayout/containers.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/mpllayout/containers.py b/src/mpllayout/containers.py
index 602e250..6b5619c 100644
--- a/src/mpllayout/containers.py
+++ b/src/mpllayout/containers.py
@@ -516,13 +516,15 @@ AuxData = Any
 def _make_flatten_unflatten(node_type: type[TNode]):
 
     def _flatten_node(node: TNode) -> tuple[FlatNode, AuxData]:
-        flat_node = (node.value, node.children)
-        aux_data = None
+        # NOTE: `jax` sorts dictionary keys so the order of child keys is stored in
+        # the auxiliary data
+        flat_node = (node.value, tuple(node.children.values()))
+        aux_data = tuple(node.children.keys())
         return (flat_node, aux_data)
 
     def _unflatten_node(aux_data: AuxData, flat_node: FlatNode) -> TNode:
         value, children = flat_node
-        return node_type.from_tree(value, children)
+        return node_type.from_tree(value, dict(zip(aux_data, children)))
 
     return _flatten_node, _unflatten_node
 
-- 
2.43.0


From 998529e00c89fa1e03c5834c946fcdd50191eb07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:04 +0000
Subject: [PATCH 14/29] fix: restore the axis label visibility on errors

---
 src/mpllayout/constraints.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/mpllayout/constraints.py b/src/mpllayout/constraints.py
index 676718f..2fa1ce6 100644
--- a/src/mpllayout/constraints.py
+++ b/src/mpllayout/constraints.py
@@ -641,7 +641,10 @@ def get_axis_thickness(axis: XAxis | YAxis, side: str):
     label_visibility = axis.label.get_visible()
     axis.label.set_visible(False)
 
-    axis_bbox = axis.get_tightbbox()
+    try:
+        axis_bbox = axis.get_tightbbox()
+    finally:
+        axis.label.set_visible(label_visibility)
 
     if axis_bbox is None:
         dim = 0
@@ -661,8 +664,6 @@ def get_axis_thickness(axis: XAxis | YAxis, side: str):
         else:
             raise ValueError()
 
-    axis.label.set_visible(label_visibility)
-
     return dim
 
 
-- 
2.43.0


From ccdbb867c9a1071376a9a5785a77275e48190cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:04 +0000
Subject: [PATCH 15/29] fix: copy primitive values from input arrays

---
 src/mpllayout/primitives.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mpllayout/primitives.py b/src/mpllayout/primitives.py
index 20aae2b..cde8dc2 100644
--- a/src/mpllayout/primitives.py
+++ b/src/mpllayout/primitives.py
@@ -177,10 +177,10 @@ class Primitive(PrimitiveNode):
     ):
         if value is None:
             value = self.default_value(**kwargs)
-        elif isinstance(value, (list, tuple)):
+        elif isinstance(value, (list, tuple, np.ndarray, jax.numpy.ndarray)):
+            # NOTE: This copies `value` because shared arrays represent shared
+            # primitives (see `filter_unique_values_from_prim`)
             value = np.array(value)
-        elif isinstance(value, (np.ndarray, jax.numpy.ndarray)):
-            value = value
         else:
             raise TypeError()
 
-- 
2.43.0


From 1b0df23fb2f8ac670031000e7da2d736d9d32f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:19 +0000
Subject: [PATCH 16/29] fix: solve layouts without any constraints

---
 src/mpllayout/solver.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mpllayout/solver.py b/src/mpllayout/solver.py
index 8a93d6f..00b2c32 100644
--- a/src/mpllayout/solver.py
+++ b/src/mpllayout/solver.py
@@ -116,7 +116,8 @@ def solve_newton(
         residuals = assem_constraint_residual(
             root_prim, constraints, constraint_graph, constraint_params
         )
-        return jnp.concatenate(residuals)
+        # The empty array handles the case without any constraints
+        return jnp.concatenate([jnp.zeros(0), *residuals])
 
     assem_global_jac = jax.jacfwd(assem_global_res)
 
@@ -204,7 +205,8 @@ def solve_minimize(
         residuals = assem_constraint_residual(
             root_prim, constraints, constraint_graph, constraint_params
         )
-        return jnp.sum(jnp.concatenate(residuals)**2)
+        # The empty array handles the case without any constraints
+        return jnp.sum(jnp.concatenate([jnp.zeros(0), *residuals])**2)
 
     class MinHistory:
 
-- 
2.43.0


From 6b3f5d89ba3523a0a14dd153f3727e26ab93f65b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:19 +0000
Subject: [PATCH 17/29] fix: use the residual 2-norm for the minimize absolute
 error

---
 src/mpllayout/solver.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mpllayout/solver.py b/src/mpllayout/solver.py
index 00b2c32..c1c839d 100644
--- a/src/mpllayout/solver.py
+++ b/src/mpllayout/solver.py
@@ -215,7 +215,8 @@ def solve_minimize(
             self.rel_errs = []
 
         def callback(self, intermediate_result: OptimizeResult):
-            abs_err = intermediate_result['fun']
+            # The objective function is the square of the residual 2-norm
+            abs_err = np.sqrt(intermediate_result['fun'])
             self.abs_errs.append(abs_err)
 
             rel_err = abs_err / self.abs_errs[0]
-- 
2.43.0


From f5688b090ed55607df85a996086781537e0f505e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:19 +0000
Subject: [PATCH 18/29] fix: multiply Scalar by a float

---
 src/mpllayout/constructions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpllayout/constructions.py b/src/mpllayout/constructions.py
index 8cff768..bef6343 100644
--- a/src/mpllayout/constructions.py
+++ b/src/mpllayout/constructions.py
@@ -453,7 +453,7 @@ class ConstructionNode(Node[ConstructionValue]):
         return transform_sum(other, self)
 
     def __mul__(self, other: "float | Scalar"):
-        if isinstance(self, Scalar):
+        if isinstance(self, Scalar) and isinstance(other, ConstructionNode):
             return transform_scalar_mul(other, self)
         else:
             return transform_scalar_mul(self, other)
-- 
2.43.0


From 56b4cf1326cd147d0dc1360cfd7f63eaedb570e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:19 +0000
Subject: [PATCH 19/29] fix: update axis thickness for nested axes keys

---
 src/mpllayout/layout.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mpllayout/layout.py b/src/mpllayout/layout.py
index 6a95369..29ba3de 100644
--- a/src/mpllayout/layout.py
+++ b/src/mpllayout/layout.py
@@ -251,12 +251,14 @@ def update_layout_constraints(
 
             if isinstance(constraint, cr.XAxisThickness):
                 axis_key, = prim_keys.value
-                axes_key = axis_key.split("/", 1)[0]
+                # The axes key is the parent of the axis key
+                axes_key = axis_key.rsplit("/", 1)[0]
                 constraintkey_to_param[key] = (axs[axes_key].xaxis,)
 
             if isinstance(constraint, cr.YAxisThickness):
                 axis_key, = prim_keys.value
-                axes_key = axis_key.split("/", 1)[0]
+                # The axes key is the parent of the axis key
+                axes_key = axis_key.rsplit("/", 1)[0]
                 constraintkey_to_param[key] = (axs[axes_key].yaxis,)
 
     new_root_param = update_root_param(
-- 
2.43.0


From 44fafac00c1bcf3dd5522a16fb78ad53005cc3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:19 +0000
Subject: [PATCH 20/29] fix: allow integer shapes for OuterMarginArray

---
 src/mpllayout/constraints.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mpllayout/constraints.py b/src/mpllayout/constraints.py
index 2fa1ce6..69cdfe2 100644
--- a/src/mpllayout/constraints.py
+++ b/src/mpllayout/constraints.py
@@ -805,6 +805,8 @@ class OuterMarginArray(con.CompoundConstruction):
     """
 
     def __init__(self, shape: tuple[int, ...], side: Literal['bottom', 'top', 'left', 'right']):
+        if isinstance(shape, int):
+            shape = (shape,)
         super().__init__(shape=shape, side=side)
 
     @classmethod
-- 
2.43.0


From 700c5af3883dcb9a8dca6370ef038af4544e645e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:29 +0000
Subject: [PATCH 21/29] fix: allow sequences for constraint values

---
 src/mpllayout/constructions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mpllayout/constructions.py b/src/mpllayout/constructions.py
index bef6343..49de9ed 100644
--- a/src/mpllayout/constructions.py
+++ b/src/mpllayout/constructions.py
@@ -666,7 +666,8 @@ class Vector(Construction, _NullSignature):
 
     @classmethod
     def assem(cls, prims: tuple[()], value: float | NDArray):
-        return value
+        # This allows sequences as well as arrays (for example, `[0, 0]`)
+        return jnp.asarray(value)
 
     def assem_atleast_1d(self, prims: Prims, *params: Params) -> NDArray:
         # Only return the chunk for this node since remaining chunks are returned
-- 
2.43.0


From db7c222a8b7a1caea19c3ea83112ea6d8c68f7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:35 +0000
Subject: [PATCH 22/29] fix: `in` and item assignment with empty child keys

---
 src/mpllayout/containers.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/mpllayout/containers.py b/src/mpllayout/containers.py
index 6b5619c..2811cf8 100644
--- a/src/mpllayout/containers.py
+++ b/src/mpllayout/containers.py
@@ -166,15 +166,14 @@ class Node(Generic[TValue]):
 
     def __contains__(self, key: str) -> bool:
         split_keys = key.split("/", 1)
-        parent_key = split_keys[0]
-        child_key = "/".join(split_keys[1:])
+        parent_key, child_keys = split_keys[0], split_keys[1:]
 
-        if child_key == "":
+        if len(child_keys) == 0:
             return parent_key in self.children
         else:
             return (
                 parent_key in self.children
-                and child_key in self.children[parent_key]
+                and child_keys[0] in self.children[parent_key]
             )
 
     def __len__(self) -> int:
@@ -222,7 +221,7 @@ class Node(Generic[TValue]):
         if key not in self:
             raise KeyError(key)
         else:
-            if parent_key == "":
+            if len(split_keys) == 1:
                 parent = self
             else:
                 parent = self[parent_key]
-- 
2.43.0


From 3895168321480082757a0c872c6015483fab2f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:05 +0000
Subject: [PATCH 23/29] fix: keep axis labels at their points when their text
 is set

`Axes.set_xlabel` and `Axes.set_ylabel` reset the label coordinate along the
axis to 0.5, so labels set after creating the subplots moved to the centre of
the figure.
---
 src/mpllayout/matplotlibutils.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/mpllayout/matplotlibutils.py b/src/mpllayout/matplotlibutils.py
index 7f69e77..9100119 100644
--- a/src/mpllayout/matplotlibutils.py
+++ b/src/mpllayout/matplotlibutils.py
@@ -11,6 +11,7 @@ import numpy as np
 from matplotlib import pyplot as plt
 from matplotlib.figure import Figure
 from matplotlib.axes import Axes
+from matplotlib.transforms import Affine2D
 
 from . import primitives as pr
 from . import constraints as cr
@@ -114,9 +115,12 @@ def update_subplots(
             axis_label = f"{axis_prefix}AxisLabel"
             if axis_label in root_prim[key]:
                 axis_label_point: pr.Point = root_prim[f"{key}/{axis_label}"]
-                label_coords = axis_label_point.value - fig_origin
+                label_coords = (axis_label_point.value - fig_origin) / fig_size
+                # `Axes.set_xlabel` and `Axes.set_ylabel` replace the label
+                # coordinate along the axis, so map any coordinate to the point
+                to_label_point = Affine2D().scale(0).translate(*label_coords)
                 axis.set_label_coords(
-                    *(label_coords / fig_size), transform=fig.transFigure
+                    *label_coords, transform=to_label_point + fig.transFigure
                 )
 
             # Set the axis tick position
-- 
2.43.0


From 1fc62b1f301591b189bcfa347dc8f87e3fbad450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:27 +0000
Subject: [PATCH 24/29] fix: give the length of zero-length lines a finite
 derivative

Solving a layout with a length constraint on a line that has zero length
raised an error, also if the length constraint was satisfied.
---
 src/mpllayout/constructions.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/mpllayout/constructions.py b/src/mpllayout/constructions.py
index 49de9ed..33c7b73 100644
--- a/src/mpllayout/constructions.py
+++ b/src/mpllayout/constructions.py
@@ -863,7 +863,11 @@ class Length(LeafConstruction, _LineSignature):
     @classmethod
     def assem(cls, prims: tuple[pr.Line]):
         (line,) = prims
-        return jnp.sum(LineVector.assem((line,)) ** 2) ** (1 / 2)
+        square_length = jnp.sum(LineVector.assem((line,)) ** 2)
+        # The square root has an infinite derivative for lines with zero length, which
+        # gives an undefined (nan) derivative of the length
+        is_zero = square_length == 0
+        return jnp.where(is_zero, 0.0, jnp.where(is_zero, 1.0, square_length) ** (1 / 2))
 
 
 class DirectedLength(LeafConstruction, _LineSignature):
-- 
2.43.0


From 8b72b4197e074ec86d19e76068d057612dde5a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:57 +0000
Subject: [PATCH 25/29] fix: declare the size of coincident line errors

CoincidentLines returns two points' errors (4 values), but declared 2 values so that it
couldn't be turned into a constraint with a value
---
 src/mpllayout/constraints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpllayout/constraints.py b/src/mpllayout/constraints.py
index 69cdfe2..9eb0dce 100644
--- a/src/mpllayout/constraints.py
+++ b/src/mpllayout/constraints.py
@@ -448,7 +448,7 @@ class CoincidentLines(con.LeafConstruction, con._LineLineSignature):
 
     @classmethod
     def init_signature(cls):
-        return cls.make_signature(2, (bool,))
+        return cls.make_signature(4, (bool,))
 
     @classmethod
     def assem(cls, prims: tuple[pr.Line, pr.Line], reverse: bool):
-- 
2.43.0


From bc49d6e0ad2f22ef60cbd8e6a8c912bc26885572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:29 +0000
Subject: [PATCH 26/29] fix: reject wrong numbers of child construction
 primitives

---
 src/mpllayout/constructions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpllayout/constructions.py b/src/mpllayout/constructions.py
index 33c7b73..587b8ba 100644
--- a/src/mpllayout/constructions.py
+++ b/src/mpllayout/constructions.py
@@ -176,7 +176,7 @@ class ConstructionNode(Node[ConstructionValue]):
             for (key, prim_types), prim_keys
             in zip(child_prim_types.items(), value.child_prim_keys)
         }
-        if not all(valid_child_prim_keys):
+        if not all(valid_child_prim_keys.values()):
             invalid_cons_keys = {
                 key for key, valid in valid_child_prim_keys.items() if not valid
             }
-- 
2.43.0


From 94a7dc65493a2144ecfed2c5e29a662e89fec298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:29 +0000
Subject: [PATCH 27/29] fix: reject wrong numbers of child primitives

---
 src/mpllayout/primitives.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mpllayout/primitives.py b/src/mpllayout/primitives.py
index cde8dc2..9e65a82 100644
--- a/src/mpllayout/primitives.py
+++ b/src/mpllayout/primitives.py
@@ -188,6 +188,12 @@ class Primitive(PrimitiveNode):
             prims = self.default_prims(**kwargs)
 
         child_keys, child_prims = self.init_children(prims, **kwargs)
+        # Otherwise `zip` would silently drop the additional keys or primitives
+        if len(child_keys) != len(child_prims):
+            raise ValueError(
+                f"Expected {len(child_keys)} child primitives for {child_keys}"
+                f", not {len(child_prims)}"
+            )
 
         super().__init__(
             value, {key: prim for key, prim in zip(child_keys, child_prims)}
-- 
2.43.0


From 1300e30841ada1f8badbe96a96f409b1def22d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:03 +0000
Subject: [PATCH 28/29] fix: raise integers to negative integer powers

---
 src/mpllayout/constructions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mpllayout/constructions.py b/src/mpllayout/constructions.py
index 587b8ba..2804c0b 100644
--- a/src/mpllayout/constructions.py
+++ b/src/mpllayout/constructions.py
@@ -1802,9 +1802,9 @@ def transform_scalar_pow(
             def assem(cls, prims: Prims, *params: Params) -> NDArray:
                 prims_a, prims_b = split_prims(prims)
                 params_a, params_b = split_params(params)
-                return (
-                    cons_a.assem(prims_a, *params_a) ** cons_b.assem(prims_b, *params_b)
-                )
+                # Integers can't be raised to negative integer powers
+                base = 1.0 * cons_a.assem(prims_a, *params_a)
+                return base ** cons_b.assem(prims_b, *params_b)
 
         def mul_child_params(params: Params) -> tuple[Params, ...]:
             params_a, params_b = split_params(params)
-- 
2.43.0


From 9af80fa1bab6050825282d34f6d14ad0c73a184a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:03 +0000
Subject: [PATCH 29/29] fix: multiply numpy scalars and constructions

---
 src/mpllayout/constructions.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mpllayout/constructions.py b/src/mpllayout/constructions.py
index 2804c0b..13cf9f8 100644
--- a/src/mpllayout/constructions.py
+++ b/src/mpllayout/constructions.py
@@ -440,6 +440,10 @@ class ConstructionNode(Node[ConstructionValue]):
 
     ## Special methods
 
+    # This makes `numpy` scalars leave operators (for example, `np.float64(2) * self`)
+    # to constructions, instead of treating constructions as arrays
+    __array_ufunc__ = None
+
     def __neg__(self):
         return transform_scalar_mul(self, -1.0)
 
-- 
2.43.0

