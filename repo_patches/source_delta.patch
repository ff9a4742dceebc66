From de825f9fd73de1b5de3069ee8e74c1fab5a32821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:07 +0000
Subject: [PATCH 01/42] fix: mirror padding of edge-aligned Dirichlet data when
 another axis is periodic

The periodic axes of an inhomogeneous boundary condition carry (None, None)
values, which jnp.pad rejects; use the nan-mapped values as elsewhere.
---
 jax_cfd/base/boundaries.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_cfd/base/boundaries.py b/jax_cfd/base/boundaries.py
index de47b34..8a0e1cb 100644
--- a/jax_cfd/base/boundaries.py
+++ b/jax_cfd/base/boundaries.py
@@ -253,7 +253,7 @@ class ConstantBoundaryConditions(BoundaryConditions):
             # here we are adding 0 boundary cell with 0 value
             expanded_data = jnp.pad(
                 data, bc_padding, mode='constant', constant_values=(0, 0))
-            padding_values = list(self.bc_values)
+            padding_values = list(self.constant_values)
             padding_values[axis] = [pad / 2 for pad in padding_values[axis]]
             data = 2 * jnp.pad(
                 data,
-- 
2.43.0


From dc9e6caf29f8f281813288e9f7e0aaad6f7fad4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:07 +0000
Subject: [PATCH 02/42] fix: implicit diffusion with Dirichlet walls on any
 axis

solve_fast_diag subtracted a linear lift of the wall values that was taken
along the wrong mesh axis (failing or wrong for walls on any axis but the last
of a 2D grid), and that cannot represent values on several axes at once.
Evaluate the Laplacian with the boundary values instead; the update is then
homogeneous for any constant boundary values.
---
 jax_cfd/base/diffusion.py | 99 ++++-----------------------------------
 1 file changed, 9 insertions(+), 90 deletions(-)

diff --git a/jax_cfd/base/diffusion.py b/jax_cfd/base/diffusion.py
index eb28919..dd7a8ba 100644
--- a/jax_cfd/base/diffusion.py
+++ b/jax_cfd/base/diffusion.py
@@ -15,9 +15,8 @@
 # TODO(pnorgaard) Implement bicgstab for non-symmetric operators
 
 """Module for functionality related to diffusion."""
-from typing import Optional, Tuple
+from typing import Optional
 
-import jax.numpy as jnp
 import jax.scipy.sparse.linalg
 from jax_cfd.base import array_utils
 from jax_cfd.base import boundaries
@@ -57,83 +56,6 @@ def stable_time_step(viscosity: float, grid: grids.Grid) -> float:
   return dx ** 2 / (viscosity * 2 ** ndim)
 
 
-def _subtract_linear_part_dirichlet(
-    c_data: Array,
-    grid: grids.Grid,
-    axis: int,
-    offset: Tuple[float, float],
-    bc_values: Tuple[float, float],
-) -> Array:
-  """Transforms c_data such that c_data satisfies dirichlet boundary.
-
-  The function subtracts a linear function from c_data s.t. the returned
-  array has homogeneous dirichlet boundaries. Note that this assumes c_data has
-  constant dirichlet boundary values.
-
-  Args:
-    c_data: right-hand-side of diffusion equation.
-    grid: grid object
-    axis: axis along which to impose boundary transformation
-    offset: offset of the right-hand-side
-    bc_values: boundary values along axis
-
-  Returns:
-    transformed right-hand-side
-  """
-
-  def _update_rhs_along_axis(arr_1d, linear_part):
-    arr_1d = arr_1d - linear_part
-    return arr_1d
-
-  lower_value, upper_value = bc_values
-  y = grid.mesh(offset)[axis][0]
-  one_d_grid = grids.Grid((grid.shape[axis],), domain=(grid.domain[axis],))
-  y_boundary = boundaries.dirichlet_boundary_conditions(ndim=1)
-  y = y_boundary.trim_boundary(grids.GridArray(y, (offset[axis],),
-                                               one_d_grid)).data
-  domain_length = (grid.domain[axis][1] - grid.domain[axis][0])
-  domain_start = grid.domain[axis][0]
-  linear_part = lower_value + (upper_value - lower_value) * (
-      y - domain_start) / domain_length
-  c_data = jnp.apply_along_axis(
-      _update_rhs_along_axis, axis, c_data, linear_part)
-  return c_data
-
-
-def _rhs_transform(
-    u: grids.GridArray,
-    bc: boundaries.BoundaryConditions,
-) -> Array:
-  """Transforms the RHS of diffusion equation.
-
-  In case of constant dirichlet boundary conditions for heat equation
-  the linear term is subtracted. See diffusion.solve_fast_diag.
-
-  Args:
-    u: a GridArray that solves ∇²x = ∇²u for x.
-    bc: specifies boundary of u.
-
-  Returns:
-    u' s.t. u = u' + w where u' has 0 dirichlet bc and w is linear.
-  """
-  if not isinstance(bc, boundaries.ConstantBoundaryConditions):
-    raise NotImplementedError(
-        f'transformation cannot be done for this {bc}.')
-  u_data = u.data
-  for axis in range(u.grid.ndim):
-    for i, _ in enumerate(['lower', 'upper']):  # lower and upper boundary
-      if bc.types[axis][i] == boundaries.BCType.DIRICHLET:
-        bc_values = [0., 0.]
-        bc_values[i] = bc.bc_values[axis][i]
-        u_data = _subtract_linear_part_dirichlet(u_data, u.grid, axis, u.offset,
-                                                 bc_values)
-      elif bc.types[axis][i] == boundaries.BCType.NEUMANN:
-        if any(bc.bc_values[axis]):
-          raise NotImplementedError(
-              'transformation is not implemented for inhomogeneous Neumann bc.')
-  return u_data
-
-
 def solve_cg(v: GridVariableVector,
              nu: float,
              dt: float,
@@ -174,17 +96,14 @@ def solve_fast_diag(
   # because this is better conditioned than directly diagonalizing 1 - ν Δt ∇²
   # when ν Δt is small.
   def func(x):
-    dt_nu_x = (dt * nu) * x
-    return dt_nu_x / (1 - dt_nu_x)
+    dt_nu = dt * nu
+    return dt_nu / (1 - dt_nu * x)
 
-  # Compute (1 - ν Δt ∇²)⁻¹ u as u + (1 - ν Δt ∇²)⁻¹ (ν Δt ∇²) u, for less
+  # Compute (1 - ν Δt ∇²)⁻¹ u as u + (1 - ν Δt ∇²)⁻¹ ν Δt (∇² u), for less
   # error when ν Δt is small.
-  # If dirichlet bc are supplied: only works for dirichlet bc that are linear
-  # functions on the boundary. Then u = u' + w where u' has 0 dirichlet bc and
-  # w is linear. Then u + (1 - ν Δt ∇²)⁻¹ (ν Δt ∇²) u = u +
-  # (1 - ν Δt ∇²)⁻¹(ν Δt ∇²)u'. The function _rhs_transform subtracts
-  # the linear part s.t. fast_diagonalization solves
-  # u + (1 - ν Δt ∇²)⁻¹ (ν Δt ∇²) u'.
+  # ∇² u is evaluated with the boundary values of u. The remaining update has
+  # homogeneous boundary conditions, so that fast_diagonalization applies to
+  # any constant boundary values, along any number of axes.
   v_diffused = list()
   if boundaries.has_all_periodic_boundary_conditions(*v):
     circulant = True
@@ -203,9 +122,9 @@ def solve_fast_diag(
         circulant=circulant,
         implementation=implementation)
     u_interior = u.bc.trim_boundary(u.array)
-    u_interior_transformed = _rhs_transform(u_interior, u.bc)
+    laplacian_u = u.bc.trim_boundary(fd.laplacian(u.impose_bc()))
     u_dt_diffused = grids.GridArray(
-        op(u_interior_transformed), u_interior.offset, u_interior.grid)
+        op(laplacian_u.data), u_interior.offset, u_interior.grid)
     u_diffused = u_interior + u_dt_diffused
     u_diffused = u.bc.pad_and_impose_bc(u_diffused, offset_to_pad_to=u.offset)
     v_diffused.append(u_diffused)
-- 
2.43.0


From 4ee90772928469b8931beed851e2ba84434f5b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:51 +0000
Subject: [PATCH 03/42] fix: van Leer flux correction for staggered and
 edge-aligned quantities

---
 jax_cfd/base/advection.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jax_cfd/base/advection.py b/jax_cfd/base/advection.py
index f4afd5b..d41f30b 100644
--- a/jax_cfd/base/advection.py
+++ b/jax_cfd/base/advection.py
@@ -288,7 +288,8 @@ def advect_van_leer(
   for axis, (u, h) in enumerate(zip(aligned_v, c.grid.step)):
     u = u.bc.shift(u.array, int(u.offset[axis] % 1 - u.offset[axis]), axis=axis)
     # c is put to offset .5 or 1.
-    c_center_arr = c.shift(int(1 - c.offset[ax]), axis=ax)
+    c_center_arr = c_left_var.shift(
+        int(1 - c_left_var.offset[axis]), axis=axis)
     # if c offset is 1, u offset is .5.
     # if c offset is .5, u offset is 0.
     # u_i is always on the left of c_center_var_i
-- 
2.43.0


From 81ce449e953c215964993be7c43a4a0d15a7cb07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:20 +0000
Subject: [PATCH 04/42] fix: make the default pseudoinverse cutoff relative to
 the operator's eigenvalues

---
 jax_cfd/base/fast_diagonalization.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/jax_cfd/base/fast_diagonalization.py b/jax_cfd/base/fast_diagonalization.py
index af00a31..2d76fa9 100644
--- a/jax_cfd/base/fast_diagonalization.py
+++ b/jax_cfd/base/fast_diagonalization.py
@@ -249,17 +249,18 @@ def pseudoinverse(
       TPUs.
     cutoff: eigenvalues with absolute value smaller than this number are
       discarded rather than being inverted. By default, uses 10 times floating
-      point epsilon.
+      point epsilon of the eigenvalues, relative to the largest eigenvalue.
 
   Returns:
     A function that computes the pseudo-inverse of the indicated operator.
   """
-  if cutoff is None:
-    cutoff = 10 * jnp.finfo(dtype).eps
-
   def func(v):
+    if cutoff is None:
+      min_abs = 10 * np.finfo(v.dtype).eps * np.max(abs(v))
+    else:
+      min_abs = cutoff
     with np.errstate(divide='ignore', invalid='ignore'):
-      return np.where(abs(v) > cutoff, 1 / v, 0)
+      return np.where(abs(v) > min_abs, 1 / v, 0)
 
   return transform(func, operators, dtype, hermitian=hermitian,
                    circulant=circulant, implementation=implementation,
-- 
2.43.0


From 274124adc11d99573137c2ea73bc63410d3ac711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:20 +0000
Subject: [PATCH 05/42] fix: fast diagonalization of complex Hermitian
 operators

---
 jax_cfd/base/fast_diagonalization.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jax_cfd/base/fast_diagonalization.py b/jax_cfd/base/fast_diagonalization.py
index 2d76fa9..9542025 100644
--- a/jax_cfd/base/fast_diagonalization.py
+++ b/jax_cfd/base/fast_diagonalization.py
@@ -156,7 +156,8 @@ def _hermitian_matmul_transform(
     # Use tensordot so we have more control over the underlying XLA operations.
     out = rhs
     for vectors in eigenvectors:
-      out = jnp.tensordot(out, vectors, axes=(0, 0), precision=precision)
+      out = jnp.tensordot(
+          out, vectors.conj(), axes=(0, 0), precision=precision)
     out *= diagonals
     for vectors in eigenvectors:
       out = jnp.tensordot(out, vectors, axes=(0, 1), precision=precision)
-- 
2.43.0


From d44a76d37ee81689d1b1313f2077592b74256a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:20 +0000
Subject: [PATCH 06/42] fix: reject a mis-shaped right-hand side in the rfft
 fast diagonalization

---
 jax_cfd/base/fast_diagonalization.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jax_cfd/base/fast_diagonalization.py b/jax_cfd/base/fast_diagonalization.py
index 9542025..505cd78 100644
--- a/jax_cfd/base/fast_diagonalization.py
+++ b/jax_cfd/base/fast_diagonalization.py
@@ -214,11 +214,14 @@ def _circulant_rfft_transform(
   summed_eigenvalues = functools.reduce(np.add.outer, eigenvalues)
   diagonals = jnp.asarray(func(summed_eigenvalues))
 
+  shape = tuple(op.shape[0] for op in operators)
   if diagonals.shape != summed_eigenvalues.shape:
     raise ValueError('output shape from func() does not match input shape: '
                      f'{diagonals.shape} vs {summed_eigenvalues.shape}')
 
   def apply(rhs: Array) -> Array:
+    if rhs.shape != shape:
+      raise ValueError(f'rhs.shape={rhs.shape} does not match shape={shape}')
     if rhs.dtype != dtype:
       raise ValueError(f'rhs.dtype={rhs.dtype} does not match dtype={dtype}')
     return _cast(jnp.fft.irfftn(diagonals * jnp.fft.rfftn(rhs)), dtype)
-- 
2.43.0


From f7c08f0fbe45d37543e4e6ac0e2360afc628e08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:50 +0000
Subject: [PATCH 07/42] fix: one-dimensional Laplacian matrices of axes with
 one or two cells

---
 jax_cfd/base/array_utils.py | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/jax_cfd/base/array_utils.py b/jax_cfd/base/array_utils.py
index d40d153..cb8b349 100644
--- a/jax_cfd/base/array_utils.py
+++ b/jax_cfd/base/array_utils.py
@@ -169,7 +169,9 @@ def laplacian_matrix(size: int, step: float) -> np.ndarray:
   """Create 1D Laplacian operator matrix, with periodic BC."""
   column = np.zeros(size)
   column[0] = -2 / step**2
-  column[1] = column[-1] = 1 / step**2
+  # with one or two cells, both neighbors of a cell are the same cell.
+  column[1 % size] += 1 / step**2
+  column[-1] += 1 / step**2
   return scipy.linalg.circulant(column)
 
 
@@ -205,11 +207,6 @@ def _laplacian_boundary_dirichlet_cell_centered(laplacians: List[Array],
     laplacians[axis][0, 0] = laplacians[axis][0, 0] - 1 / grid.step[axis]**2
   else:
     laplacians[axis][-1, -1] = laplacians[axis][-1, -1] - 1 / grid.step[axis]**2
-  # deletes corner dependencies on the "looped-around" part.
-  # this should be done irrespective of which side, since one boundary cannot
-  # be periodic while the other is.
-  laplacians[axis][0, -1] = 0.0
-  laplacians[axis][-1, 0] = 0.0
   return
 
 
@@ -235,14 +232,25 @@ def _laplacian_boundary_neumann_cell_centered(laplacians: List[Array],
     laplacians[axis][0, 0] = laplacians[axis][0, 0] + 1 / grid.step[axis]**2
   else:
     laplacians[axis][-1, -1] = laplacians[axis][-1, -1] + 1 / grid.step[axis]**2
-  # deletes corner dependencies on the "looped-around" part.
-  # this should be done irrespective of which side, since one boundary cannot
-  # be periodic while the other is.
-  laplacians[axis][0, -1] = 0.0
-  laplacians[axis][-1, 0] = 0.0
   return
 
 
+def _laplacian_remove_wraparound(laplacians: List[Array], grid: grids.Grid,
+                                 axis: int) -> None:
+  """Deletes the dependencies on the "looped-around" part along `axis`.
+
+  This should be done once for an axis that is not periodic, irrespective of
+  which side, since one boundary cannot be periodic while the other is.
+
+  Args:
+    laplacians: list of 1d laplacians, updated in place.
+    grid: grid object
+    axis: axis along which to disconnect the first from the last cell.
+  """
+  laplacians[axis][0, -1] -= 1 / grid.step[axis]**2
+  laplacians[axis][-1, 0] -= 1 / grid.step[axis]**2
+
+
 def laplacian_matrix_w_boundaries(
     grid: grids.Grid,
     offset: Tuple[float, ...],
@@ -269,6 +277,8 @@ def laplacian_matrix_w_boundaries(
   laplacians = list(map(laplacian_matrix, grid.shape, grid.step))
   for axis in range(grid.ndim):
     if np.isclose(offset[axis], 0.5):
+      if bc.types[axis][0] != boundaries.BCType.PERIODIC:
+        _laplacian_remove_wraparound(laplacians, grid, axis)
       for i, side in enumerate(['lower', 'upper']):  # lower and upper boundary
         if bc.types[axis][i] == boundaries.BCType.NEUMANN:
           _laplacian_boundary_neumann_cell_centered(
-- 
2.43.0


From 76056c6980f44d2f7eec04b637935e761faeab0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:41 +0000
Subject: [PATCH 08/42] fix: pressure projection with stale velocity samples on
 walls

---
 jax_cfd/base/pressure.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jax_cfd/base/pressure.py b/jax_cfd/base/pressure.py
index dca8160..d245970 100644
--- a/jax_cfd/base/pressure.py
+++ b/jax_cfd/base/pressure.py
@@ -186,6 +186,10 @@ def projection(
   grid = grids.consistent_grid(*v)
   pressure_bc = boundaries.get_pressure_bc_from_velocity(v)
 
+  # samples on a wall may have been changed by other terms of a time step. The
+  # divergence must be computed from the wall values that will be imposed.
+  v = tuple(u.impose_bc() for u in v)
+
   q0 = grids.GridArray(jnp.zeros(grid.shape), grid.cell_center, grid)
   q0 = pressure_bc.impose_bc(q0)
 
-- 
2.43.0


From 81d22c27fccc81ee72dfe879ae06612154349251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:48 +0000
Subject: [PATCH 09/42] fix: keep the mean of the Poisson right-hand side when
 the pressure is prescribed on a wall

---
 jax_cfd/base/pressure.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/jax_cfd/base/pressure.py b/jax_cfd/base/pressure.py
index d245970..0c6f105 100644
--- a/jax_cfd/base/pressure.py
+++ b/jax_cfd/base/pressure.py
@@ -55,12 +55,12 @@ def _rhs_transform(
     u' s.t. u = u' + kernel of the laplacian.
   """
   u_data = u.data
-  for axis in range(u.grid.ndim):
-    if bc.types[axis][0] == boundaries.BCType.NEUMANN and bc.types[axis][
-        1] == boundaries.BCType.NEUMANN:
-      # if all sides are neumann, poisson solution has a kernel of constant
-      # functions. We substact the mean to ensure consistency.
-      u_data = u_data - jnp.mean(u_data)
+  types = [side for axis_types in bc.types for side in axis_types]
+  if (boundaries.BCType.NEUMANN in types and
+      boundaries.BCType.DIRICHLET not in types):
+    # if all sides are neumann, poisson solution has a kernel of constant
+    # functions. We substact the mean to ensure consistency.
+    u_data = u_data - jnp.mean(u_data)
   return u_data
 
 
-- 
2.43.0


From 0fcc7e325284aeabb6182d2663a5244c19659331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:06 +0000
Subject: [PATCH 10/42] fix: reject mismatched low-storage Runge-Kutta
 coefficients

---
 jax_cfd/spectral/time_stepping.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_cfd/spectral/time_stepping.py b/jax_cfd/spectral/time_stepping.py
index 6a5720b..2528be8 100644
--- a/jax_cfd/spectral/time_stepping.py
+++ b/jax_cfd/spectral/time_stepping.py
@@ -156,7 +156,7 @@ def low_storage_runge_kutta_crank_nicolson(
   G = tree_math.unwrap(equation.implicit_terms)
   G_inv = tree_math.unwrap(equation.implicit_solve, vector_argnums=0)
 
-  if len(alphas) - 1 != len(betas) != len(gammas):
+  if not len(alphas) - 1 == len(betas) == len(gammas):
     raise ValueError("number of RK coefficients does not match")
 
   @tree_math.wrap
-- 
2.43.0


From 4083b67ee9038c5d557caf2616305f5bf8f183f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:25 +0000
Subject: [PATCH 11/42] fix: smooth=False in NavierStokes2D

---
 jax_cfd/spectral/equations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_cfd/spectral/equations.py b/jax_cfd/spectral/equations.py
index a8f9b63..999be1a 100644
--- a/jax_cfd/spectral/equations.py
+++ b/jax_cfd/spectral/equations.py
@@ -169,7 +169,7 @@ class NavierStokes2D(time_stepping.ImplicitExplicitODE):
     advection = -(grad_x * vx + grad_y * vy)
     advection_hat = jnp.fft.rfftn(advection)
 
-    if self.smooth is not None:
+    if self.smooth:
       advection_hat *= self.filter_
 
     terms = advection_hat
-- 
2.43.0


From 160793ada41541a797bf4d80e2e5dcb750ec6978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:25 +0000
Subject: [PATCH 12/42] fix: asymmetric truncation in brick_wall_filter_2d

---
 jax_cfd/spectral/utils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/jax_cfd/spectral/utils.py b/jax_cfd/spectral/utils.py
index 97a6b49..09d5a53 100644
--- a/jax_cfd/spectral/utils.py
+++ b/jax_cfd/spectral/utils.py
@@ -128,9 +128,12 @@ def circular_filter_2d(grid: grids.Grid) -> spectral_types.Array:
 def brick_wall_filter_2d(grid: grids.Grid):
   """Implements the 2/3 rule."""
   n, m = grid.shape
+  # wavenumbers of either sign are kept up to the same magnitude, so that the
+  # filter preserves the Hermitian symmetry of the spectrum of a real field.
+  max_k = (n - 1) // 3
   filter_ = jnp.zeros((n, m // 2 + 1))
-  filter_ = filter_.at[:int(2 / 3 * n) // 2, :int(2 / 3 * (m // 2 + 1))].set(1)
-  filter_ = filter_.at[-int(2 / 3 * n) // 2:, :int(2 / 3 * (m // 2 + 1))].set(1)
+  filter_ = filter_.at[:max_k + 1, :int(2 / 3 * (m // 2 + 1))].set(1)
+  filter_ = filter_.at[n - max_k:, :int(2 / 3 * (m // 2 + 1))].set(1)
   return filter_
 
 
-- 
2.43.0


From 3c4a9f1be1534ea1b21880d7359320f2400323ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:25 +0000
Subject: [PATCH 13/42] fix: exponential_filter of non-square and odd-sized
 signals

---
 jax_cfd/spectral/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jax_cfd/spectral/utils.py b/jax_cfd/spectral/utils.py
index 09d5a53..4149854 100644
--- a/jax_cfd/spectral/utils.py
+++ b/jax_cfd/spectral/utils.py
@@ -146,12 +146,12 @@ def exponential_filter(signal, alpha=1e-6, order=2):
 
   # TODO(dresdner) save a few ffts by factoring out the actual filter, sigma.
   alpha = -jnp.log(alpha)
-  n, _ = signal.shape  # TODO(dresdner) check square / handle 1D case
-  kx, ky = jnp.fft.fftfreq(n), jnp.fft.rfftfreq(n)
+  n, m = signal.shape  # TODO(dresdner) handle 1D case
+  kx, ky = jnp.fft.fftfreq(n), jnp.fft.rfftfreq(m)
   kx, ky = jnp.meshgrid(kx, ky, indexing="ij")
   eta = jnp.sqrt(kx**2 + ky**2)
   sigma = jnp.exp(-alpha * eta**(2 * order))
-  return jnp.fft.irfft2(sigma * jnp.fft.rfft2(signal))
+  return jnp.fft.irfft2(sigma * jnp.fft.rfft2(signal), s=signal.shape)
 
 
 def vorticity_to_velocity(
-- 
2.43.0


From 3968d745827f4e0e758515efedc3146951da4ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:29 +0000
Subject: [PATCH 14/42] fix: downsample_spectral to odd-sized and
 anisotropically coarser grids

---
 jax_cfd/base/resize.py | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/jax_cfd/base/resize.py b/jax_cfd/base/resize.py
index ceb3c3c..df4633b 100644
--- a/jax_cfd/base/resize.py
+++ b/jax_cfd/base/resize.py
@@ -222,17 +222,33 @@ def downsample_staggered_velocity(
 
 
 # TODO(dresdner) gin usage should be restricted to jax_cfd.ml
-def downsample_spectral(_: grids.Grid, destination_grid: grids.Grid,
-                        signal_hat: RawArray):
-  """Downsamples a 2D signal in the Fourier basis to the `destination_grid`."""
+def downsample_spectral(source_grid: Optional[grids.Grid],
+                        destination_grid: grids.Grid, signal_hat: RawArray):
+  """Downsamples a 2D signal in the Fourier basis to the `destination_grid`.
+
+  Args:
+    source_grid: the grid of the signal. If `None`, both axes are downsampled by
+      the same factor.
+    destination_grid: the grid to downsample to.
+    signal_hat: the signal in the (rfftn) Fourier basis.
+
+  Returns:
+    The downsampled signal in the Fourier basis.
+  """
   kx, ky = destination_grid.rfft_axes()
   (num_x,), (num_y,) = kx.shape, ky.shape
 
   input_num_x, _ = signal_hat.shape
 
-  downed = jnp.concatenate(
-      [signal_hat[:num_x // 2, :num_y], signal_hat[-num_x // 2:, :num_y]])
-
-  scale = (num_x / input_num_x)
-  downed *= scale**2
+  # non-negative wavenumbers come first; an odd number of rows has one more
+  # non-negative than negative wavenumbers.
+  downed = jnp.concatenate([
+      signal_hat[:(num_x + 1) // 2, :num_y],
+      signal_hat[input_num_x - num_x // 2:, :num_y]
+  ])
+
+  if source_grid is None:
+    downed *= (num_x / input_num_x)**2
+  else:
+    downed *= np.prod(destination_grid.shape) / np.prod(source_grid.shape)
   return downed
-- 
2.43.0


From 38fc00020e5e89b98cf4de55596bebb33825d860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:36 +0000
Subject: [PATCH 15/42] fix: reject anisotropic coarsening in
 downsample_staggered_velocity

---
 jax_cfd/base/resize.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jax_cfd/base/resize.py b/jax_cfd/base/resize.py
index df4633b..bbdf982 100644
--- a/jax_cfd/base/resize.py
+++ b/jax_cfd/base/resize.py
@@ -193,6 +193,10 @@ def downsample_staggered_velocity(
   factor = destination_grid.step[0] / source_grid.step[0]
   assert destination_grid.domain == source_grid.domain
   assert round(factor) == factor, factor
+  # all axes are downsampled by the same factor.
+  assert all(
+      n == round(factor) * m
+      for n, m in zip(source_grid.shape, destination_grid.shape)), factor
   result = []
   for j, u in enumerate(velocity):
     if isinstance(u, GridVariable):
-- 
2.43.0


From c52e21417ef96b7868f31061eba56f60d9650583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:21 +0000
Subject: [PATCH 16/42] fix: amplitude and size of padded and truncated 1-D
 transforms for all sizes

---
 jax_cfd/spectral/utils.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/jax_cfd/spectral/utils.py b/jax_cfd/spectral/utils.py
index 4149854..ce88b7f 100644
--- a/jax_cfd/spectral/utils.py
+++ b/jax_cfd/spectral/utils.py
@@ -32,8 +32,9 @@ def truncated_rfft(u: spectral_types.Array) -> spectral_types.Array:
   """
   uhat = jnp.fft.rfft(u)
   k, = uhat.shape
-  final_size = int(2 / 3 * k) + 1
-  return 2 / 3 * uhat[:final_size]
+  # the size that `padded_irfft` pads to `k` modes, i.e. 2/3 of it rounded up.
+  final_size = (2 * k + 2) // 3
+  return (final_size - 1) / (k - 1) * uhat[:final_size]
 
 
 def padded_irfft(uhat: spectral_types.Array) -> spectral_types.Array:
@@ -50,7 +51,8 @@ def padded_irfft(uhat: spectral_types.Array) -> spectral_types.Array:
   final_shape = int(3 / 2 * n)
   smoothed = jnp.pad(uhat, (0, final_shape - n))
   assert smoothed.shape == (final_shape,), "incorrect padded shape"
-  return 1.5 * jnp.fft.irfft(smoothed)
+  # the signals have 2 * (n - 1) and 2 * (final_shape - 1) samples.
+  return (final_shape - 1) / (n - 1) * jnp.fft.irfft(smoothed)
 
 
 def truncated_fft_2x(u: spectral_types.Array) -> spectral_types.Array:
@@ -65,7 +67,8 @@ def truncated_fft_2x(u: spectral_types.Array) -> spectral_types.Array:
   uhat = jnp.fft.fftshift(jnp.fft.fft(u))
   k, = uhat.shape
   final_size = (k + 1) // 2
-  return jnp.fft.ifftshift(uhat[final_size // 2:(-final_size + 1) // 2]) / 2
+  return jnp.fft.ifftshift(uhat[final_size // 2:(-final_size + 1) // 2]) * (
+      final_size / k)
 
 
 def padded_ifft_2x(uhat: spectral_types.Array) -> spectral_types.Array:
@@ -86,7 +89,7 @@ def padded_ifft_2x(uhat: spectral_types.Array) -> spectral_types.Array:
   added = n // 2
   smoothed = jnp.pad(jnp.fft.fftshift(uhat), (added, added))
   assert smoothed.shape == (final_size,), "incorrect padded shape"
-  return 2 * jnp.fft.ifft(jnp.fft.ifftshift(smoothed))
+  return final_size / n * jnp.fft.ifft(jnp.fft.ifftshift(smoothed))
 
 
 def circular_filter_2d(grid: grids.Grid) -> spectral_types.Array:
-- 
2.43.0


From e4b611bc6838d2c1228cd29938baa559973926a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:27 +0000
Subject: [PATCH 17/42] fix: reject an even top-hat filter centered on cell
 centers of an uncoarsened axis

---
 jax_cfd/base/resize.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jax_cfd/base/resize.py b/jax_cfd/base/resize.py
index bbdf982..5a795b7 100644
--- a/jax_cfd/base/resize.py
+++ b/jax_cfd/base/resize.py
@@ -161,6 +161,10 @@ def top_hat_downsample(
           start = 0
           end = c_centered.shape[axis] - 1
         elif np.isclose(offset[axis], 0.5):
+          if factor[axis] == 1:
+            raise NotImplementedError(
+                'a filter of even size is not centered on the cell centers of '
+                'a grid that is not coarsened.')
           start = int(factor[axis]) // 2
           end = None
         elif np.isclose(offset[axis], 1.0):
-- 
2.43.0


From ab84294995c71c60a631d6b46fdeb192e6b4d373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:03 +0000
Subject: [PATCH 18/42] fix: rounding of the grid steps made downsampling
 reject integer factors

---
 jax_cfd/base/resize.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/jax_cfd/base/resize.py b/jax_cfd/base/resize.py
index 5a795b7..197c701 100644
--- a/jax_cfd/base/resize.py
+++ b/jax_cfd/base/resize.py
@@ -106,9 +106,10 @@ def top_hat_downsample(
     a tuple of GridVariables interpolated on destination_grid
   """
   # assumes different filtering can be done in different directions
+  # the ratio of the shapes is the ratio of the steps, without rounding errors.
   factor = tuple(
-      dx / dx_source
-      for dx, dx_source in zip(destination_grid.step, source_grid.step))
+      n_source / n
+      for n, n_source in zip(destination_grid.shape, source_grid.shape))
   if filter_size is None:
     filter_size = factor
   if isinstance(filter_size, int):
@@ -194,7 +195,8 @@ def downsample_staggered_velocity(
     velocity: Union[Field, GridArrayVector, GridVariableVector],
 ):
   """Downsamples each component of `v` by `factor`."""
-  factor = destination_grid.step[0] / source_grid.step[0]
+  # the ratio of the shapes is the ratio of the steps, without rounding errors.
+  factor = source_grid.shape[0] / destination_grid.shape[0]
   assert destination_grid.domain == source_grid.domain
   assert round(factor) == factor, factor
   # all axes are downsampled by the same factor.
-- 
2.43.0


From e70b9c6de1df47c843c2c39918d2bcfa0471b27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:58 +0000
Subject: [PATCH 19/42] fix: implicit diffusion with the kinematic viscosity of
 the given density

---
 jax_cfd/base/equations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_cfd/base/equations.py b/jax_cfd/base/equations.py
index af0954e..922eb5b 100644
--- a/jax_cfd/base/equations.py
+++ b/jax_cfd/base/equations.py
@@ -190,6 +190,6 @@ def implicit_diffusion_navier_stokes(
     # Pressure projection to incompressible velocity field
     v = pressure_projection(v, pressure_solve)
     # Solve for implicit diffusion
-    v = diffusion_solve(v, viscosity, dt)
+    v = diffusion_solve(v, viscosity / density, dt)
     return v
   return navier_stokes_step
-- 
2.43.0


From 88ebd5befeedacaed64effbd1a65e2e2fc7a2764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:58 +0000
Subject: [PATCH 20/42] fix: eddy viscosity acceleration of the explicit
 Smagorinsky model for any density

---
 jax_cfd/base/subgrid_models.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/jax_cfd/base/subgrid_models.py b/jax_cfd/base/subgrid_models.py
index d2bba37..48b09cb 100644
--- a/jax_cfd/base/subgrid_models.py
+++ b/jax_cfd/base/subgrid_models.py
@@ -206,10 +206,14 @@ def explicit_smagorinsky_navier_stokes(dt, cs, forcing, **kwargs):
       smagorinsky_viscosity, dt=dt, cs=cs)
   smagorinsky_acceleration = functools.partial(
       evm_model, viscosity_fn=viscosity_fn)
+  # forcings are divided by the density, but the eddy viscosity is kinematic.
+  density = kwargs['density']
+  def smagorinsky_forcing(v):
+    return tuple(density * a for a in smagorinsky_acceleration(v))
   if forcing is None:
-    forcing = smagorinsky_acceleration
+    forcing = smagorinsky_forcing
   else:
-    forcing = forcings.sum_forcings(forcing, smagorinsky_acceleration)
+    forcing = forcings.sum_forcings(forcing, smagorinsky_forcing)
   return equations.semi_implicit_navier_stokes(dt=dt, forcing=forcing, **kwargs)
 
 
-- 
2.43.0


From 63d81307016a62022e5767e00bb6cbf433689195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:08 +0000
Subject: [PATCH 21/42] fix: NavierStokes2D on grids with an odd number of
 columns

---
 jax_cfd/spectral/equations.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/jax_cfd/spectral/equations.py b/jax_cfd/spectral/equations.py
index 999be1a..856cb12 100644
--- a/jax_cfd/spectral/equations.py
+++ b/jax_cfd/spectral/equations.py
@@ -15,6 +15,7 @@
 """Pseudospectral equations."""
 
 import dataclasses
+import functools
 from typing import Callable, Optional
 
 import jax.numpy as jnp
@@ -160,11 +161,13 @@ class NavierStokes2D(time_stepping.ImplicitExplicitODE):
   def explicit_terms(self, vorticity_hat):
     velocity_solve = spectral_utils.vorticity_to_velocity(self.grid)
     vxhat, vyhat = velocity_solve(vorticity_hat)
-    vx, vy = jnp.fft.irfftn(vxhat), jnp.fft.irfftn(vyhat)
+    # the number of columns does not follow from the number of modes.
+    irfftn = functools.partial(jnp.fft.irfftn, s=self.grid.shape)
+    vx, vy = irfftn(vxhat), irfftn(vyhat)
 
     grad_x_hat = 2j * jnp.pi * self.kx * vorticity_hat
     grad_y_hat = 2j * jnp.pi * self.ky * vorticity_hat
-    grad_x, grad_y = jnp.fft.irfftn(grad_x_hat), jnp.fft.irfftn(grad_y_hat)
+    grad_x, grad_y = irfftn(grad_x_hat), irfftn(grad_y_hat)
 
     advection = -(grad_x * vx + grad_y * vy)
     advection_hat = jnp.fft.rfftn(advection)
-- 
2.43.0


From 545316eac185f609f97e056993f577895b9f8d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:08 +0000
Subject: [PATCH 22/42] fix: reject odd grid sizes in the 1-D real spectral
 equations

---
 jax_cfd/spectral/equations.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jax_cfd/spectral/equations.py b/jax_cfd/spectral/equations.py
index 856cb12..50506d6 100644
--- a/jax_cfd/spectral/equations.py
+++ b/jax_cfd/spectral/equations.py
@@ -51,6 +51,8 @@ class KuramotoSivashinsky(time_stepping.ImplicitExplicitODE):
   smooth: bool = True
 
   def __post_init__(self):
+    if self.grid.shape[0] % 2:
+      raise ValueError('odd grid sizes are not supported by real transforms')
     self.kx, = self.grid.rfft_axes()
     self.two_pi_i_k = 2j * jnp.pi * self.kx
     self.linear_term = -self.two_pi_i_k ** 2 - self.two_pi_i_k ** 4
@@ -83,6 +85,8 @@ class ForcedBurgersEquation(time_stepping.ImplicitExplicitODE):
   _forcing_fn = None
 
   def __post_init__(self):
+    if self.grid.shape[0] % 2:
+      raise ValueError('odd grid sizes are not supported by real transforms')
     self.kx, = self.grid.rfft_axes()
     self.two_pi_i_k = 2j * jnp.pi * self.kx
     self.linear_term = self.viscosity * self.two_pi_i_k ** 2
-- 
2.43.0


From b2a2bb3eff6c89455fa6a2c0e92c38b792c679b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:08 +0000
Subject: [PATCH 23/42] fix: vorticity encoders and decoders on grids with an
 odd number of columns

---
 jax_cfd/ml/decoders.py | 4 ++--
 jax_cfd/ml/encoders.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/jax_cfd/ml/decoders.py b/jax_cfd/ml/decoders.py
index 57cfd91..07a5fc8 100644
--- a/jax_cfd/ml/decoders.py
+++ b/jax_cfd/ml/decoders.py
@@ -150,7 +150,7 @@ def vorticity_decoder(
     vorticity = jnp.squeeze(vorticity, axis=-1)  # remove channel dim
     vorticity_hat = jnp.fft.rfft2(vorticity)
     uhat, vhat = velocity_solve(vorticity_hat)
-    v = (jnp.fft.irfft2(uhat), jnp.fft.irfft2(vhat))
+    v = (jnp.fft.irfft2(uhat, s=grid.shape), jnp.fft.irfft2(vhat, s=grid.shape))
     return v
 
   return decode_fn
@@ -167,7 +167,7 @@ def spectral_vorticity_decoder(
   velocity_solve = spectral_utils.vorticity_to_velocity(grid)
   def decode_fn(vorticity_hat):
     uhat, vhat = velocity_solve(vorticity_hat)
-    v = (jnp.fft.irfft2(uhat), jnp.fft.irfft2(vhat))
+    v = (jnp.fft.irfft2(uhat, s=grid.shape), jnp.fft.irfft2(vhat, s=grid.shape))
     return v
 
   return decode_fn
diff --git a/jax_cfd/ml/encoders.py b/jax_cfd/ml/encoders.py
index c2ca2de..9b70b32 100644
--- a/jax_cfd/ml/encoders.py
+++ b/jax_cfd/ml/encoders.py
@@ -214,7 +214,7 @@ def vorticity_encoder(
     vorticity_hat = 2j * jnp.pi * (vhat * kx - uhat * ky)
     # TODO(dresdner) main difference is that the output is ifft'ed.
     # TODO(dresdner) and also that the output has a channel dim.
-    return jnp.fft.irfft2(vorticity_hat)[..., jnp.newaxis]
+    return jnp.fft.irfft2(vorticity_hat, s=grid.shape)[..., jnp.newaxis]
 
   return encode_fn
 
@@ -237,7 +237,7 @@ def vorticity_velocity_encoder(
     uhat, vhat = jnp.fft.rfft2(u), jnp.fft.rfft2(v)
     kx, ky = grid.rfft_mesh()
     vorticity_hat = 2j * jnp.pi * (vhat * kx - uhat * ky)
-    return jnp.stack([u, v, ifft(vorticity_hat)], axis=-1)
+    return jnp.stack([u, v, ifft(vorticity_hat, s=grid.shape)], axis=-1)
 
   return encode_fn
 
-- 
2.43.0


From 5f62675d147a7eb08c081be545ef845b90905079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:36 +0000
Subject: [PATCH 24/42] fix: offsets of the zero components of the Kolmogorov
 forcing

---
 jax_cfd/base/forcings.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/jax_cfd/base/forcings.py b/jax_cfd/base/forcings.py
index 7990a83..d27095e 100644
--- a/jax_cfd/base/forcings.py
+++ b/jax_cfd/base/forcings.py
@@ -76,11 +76,11 @@ def kolmogorov_forcing(
     v = scale * grids.GridArray(jnp.sin(k * x), offsets[1], grid)
 
     if grid.ndim == 2:
-      u = grids.GridArray(jnp.zeros_like(v.data), (1, 1/2), grid)
+      u = grids.GridArray(jnp.zeros_like(v.data), offsets[0], grid)
       f = (u, v)
     elif grid.ndim == 3:
-      u = grids.GridArray(jnp.zeros_like(v.data), (1, 1/2, 1/2), grid)
-      w = grids.GridArray(jnp.zeros_like(u.data), (1/2, 1/2, 1), grid)
+      u = grids.GridArray(jnp.zeros_like(v.data), offsets[0], grid)
+      w = grids.GridArray(jnp.zeros_like(u.data), offsets[2], grid)
       f = (u, v, w)
     else:
       raise NotImplementedError
@@ -89,11 +89,11 @@ def kolmogorov_forcing(
     u = scale * grids.GridArray(jnp.sin(k * y), offsets[0], grid)
 
     if grid.ndim == 2:
-      v = grids.GridArray(jnp.zeros_like(u.data), (1/2, 1), grid)
+      v = grids.GridArray(jnp.zeros_like(u.data), offsets[1], grid)
       f = (u, v)
     elif grid.ndim == 3:
-      v = grids.GridArray(jnp.zeros_like(u.data), (1/2, 1, 1/2), grid)
-      w = grids.GridArray(jnp.zeros_like(u.data), (1/2, 1/2, 1), grid)
+      v = grids.GridArray(jnp.zeros_like(u.data), offsets[1], grid)
+      w = grids.GridArray(jnp.zeros_like(u.data), offsets[2], grid)
       f = (u, v, w)
     else:
       raise NotImplementedError
-- 
2.43.0


From 21665042ade4c0690e5d4cd9bfba373da7fe0809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:36 +0000
Subject: [PATCH 25/42] fix: Taylor-Green solution for unequal wavenumbers and
 any density

---
 jax_cfd/base/validation_problems.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/jax_cfd/base/validation_problems.py b/jax_cfd/base/validation_problems.py
index bb09b2c..ff56ac5 100644
--- a/jax_cfd/base/validation_problems.py
+++ b/jax_cfd/base/validation_problems.py
@@ -85,12 +85,17 @@ class TaylorGreen(Problem):
     if offsets is None:
       offsets = self.grid.cell_faces
 
-    scale = jnp.exp(-2 * self.viscosity * t)
+    decay_rate = (self._kx**2 + self._ky**2) * self.viscosity / self.density
+    scale = jnp.exp(-decay_rate * t)
+    # kx * u_scale == ky * v_scale, as required for incompressibility.
+    k_max = max(self._kx, self._ky, key=abs) or 1
+    u_scale = scale * self._ky / k_max
+    v_scale = scale * self._kx / k_max
 
     ux, uy = self.grid.mesh(offsets[0])
     u = grids.GridVariable(
         array=grids.GridArray(
-            data=scale * jnp.cos(self._kx * ux) * jnp.sin(self._ky * uy),
+            data=u_scale * jnp.cos(self._kx * ux) * jnp.sin(self._ky * uy),
             offset=offsets[0],
             grid=self.grid),
         bc=boundaries.periodic_boundary_conditions(self.grid.ndim))
@@ -98,7 +103,7 @@ class TaylorGreen(Problem):
     vx, vy = self.grid.mesh(offsets[1])
     v = grids.GridVariable(
         array=grids.GridArray(
-            data=-scale * jnp.sin(self._kx * vx) * jnp.cos(self._ky * vy),
+            data=-v_scale * jnp.sin(self._kx * vx) * jnp.cos(self._ky * vy),
             offset=offsets[1],
             grid=self.grid),
         bc=boundaries.periodic_boundary_conditions(self.grid.ndim))
-- 
2.43.0


From 986695219dd0df9e246a10deb5bd4d7684c1df77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:50 +0000
Subject: [PATCH 26/42] fix: vorticity forcing and filtered spectral steps on
 grids with an odd number of columns

---
 jax_cfd/ml/equations.py | 3 ++-
 jax_cfd/ml/forcings.py  | 4 +++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/jax_cfd/ml/equations.py b/jax_cfd/ml/equations.py
index 159197d..1781093 100644
--- a/jax_cfd/ml/equations.py
+++ b/jax_cfd/ml/equations.py
@@ -80,7 +80,8 @@ def modular_spectral_step_fn(
   if do_filter_step:
     # lambdas don't place nice with gin config.
     def ret(vhat):
-      v = jnp.fft.irfft2(step_fn(vhat))  # TODO(dresdner) unnecessary fft's
+      # TODO(dresdner) unnecessary fft's
+      v = jnp.fft.irfft2(step_fn(vhat), s=grid.shape)
       return jnp.fft.rfft2(spectral_utils.exponential_filter(v))
   else:
     ret = step_fn
diff --git a/jax_cfd/ml/forcings.py b/jax_cfd/ml/forcings.py
index 1d62eb5..ece9200 100644
--- a/jax_cfd/ml/forcings.py
+++ b/jax_cfd/ml/forcings.py
@@ -1,5 +1,6 @@
 """Components that apply forcing. See jax_cfd.base.forcings for forcing API."""
 
+import functools
 from typing import Callable
 
 from typing import Optional, Tuple
@@ -52,7 +53,8 @@ def vorticity_space_forcing(grid: grids.Grid, forcing_module: ForcingModule):
   forcing_fn = forcing_module(grid, offsets=((0.0, 0.0), (0.0, 0.0)))
   velocity_solve = spectral_utils.vorticity_to_velocity(grid)
   kx, ky = grid.rfft_mesh()
-  fft, ifft = jnp.fft.rfft2, jnp.fft.irfft2
+  fft = jnp.fft.rfft2
+  ifft = functools.partial(jnp.fft.irfft2, s=grid.shape)
   bc = boundaries.periodic_boundary_conditions(grid.ndim)
   offset = (0.0, 0.0)  # TODO(dresdner) do not hard code
 
-- 
2.43.0


From 8e1895669983a2ff67d4d36ea1e136dfd7bdcfe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:50 +0000
Subject: [PATCH 27/42] fix: last-n encoders slice the time axis they are given

---
 jax_cfd/ml/encoders.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jax_cfd/ml/encoders.py b/jax_cfd/ml/encoders.py
index 9b70b32..786f19c 100644
--- a/jax_cfd/ml/encoders.py
+++ b/jax_cfd/ml/encoders.py
@@ -101,7 +101,8 @@ def slice_last_n_state_encoder(
   """Generates encoder that returns last `n` data slices along last axis."""
   del grid, dt, physics_specs  # unused.
   def encode_fn(inputs):
-    init_slice = array_utils.slice_along_axis(inputs, 0, slice(-n, None))
+    init_slice = array_utils.slice_along_axis(
+        inputs, time_axis, slice(-n, None))
     return jax.tree.map(lambda x: jnp.moveaxis(x, time_axis, -1), init_slice)
   return encode_fn
 
@@ -117,7 +118,7 @@ def stack_last_n_state_encoder(
   """Generates encoder that stacks last `n` inputs slices along last axis."""
   del grid, dt, physics_specs  # unused.
   def encode_fn(inputs):
-    inputs = array_utils.slice_along_axis(inputs, 0, slice(-n, None))
+    inputs = array_utils.slice_along_axis(inputs, time_axis, slice(-n, None))
     inputs = jax.tree.map(lambda x: jnp.moveaxis(x, time_axis, -1), inputs)
     return array_utils.concat_along_axis(jax.tree.leaves(inputs), axis=-1)
 
-- 
2.43.0


From b79b49c630a2c5fcb8e4bdeffd7e1fb5c55caf5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:24 +0000
Subject: [PATCH 28/42] fix: state axes of correlation_single_step

---
 jax_cfd/ml/metrics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jax_cfd/ml/metrics.py b/jax_cfd/ml/metrics.py
index 0fbea33..3b3fe37 100644
--- a/jax_cfd/ml/metrics.py
+++ b/jax_cfd/ml/metrics.py
@@ -67,7 +67,8 @@ def correlation_single_step(trajectory: Tuple[Array, ...],
   """Computes correlation on the `n`th time slice."""
   trajectory = jnp.stack(arr_utils.slice_along_axis(trajectory, time_axis, n))
   target = jnp.stack(arr_utils.slice_along_axis(target, time_axis, n))
-  state_axes = tuple(axis if axis <= time_axis else axis - 1
+  # Slicing removed the time axis and stacking added a leading component axis.
+  state_axes = tuple(axis + 1 if axis < time_axis else axis
                      for axis in range(trajectory.ndim)
                      if axis != time_axis and axis != batch_axis)
   trajectory_normalized = _normalize(trajectory, state_axes)
-- 
2.43.0


From 2736b75764c9fa6fc1640b4e60a12ef34c2fc923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:20 +0000
Subject: [PATCH 29/42] fix: finite gradients of the Smagorinsky viscosity at
 zero strain

---
 jax_cfd/base/subgrid_models.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/jax_cfd/base/subgrid_models.py b/jax_cfd/base/subgrid_models.py
index 48b09cb..f7c0ddc 100644
--- a/jax_cfd/base/subgrid_models.py
+++ b/jax_cfd/base/subgrid_models.py
@@ -17,6 +17,7 @@ import functools
 from typing import Any, Callable, Mapping, Optional
 
 import jax
+import jax.numpy as jnp
 from jax_cfd.base import boundaries
 from jax_cfd.base import equations
 from jax_cfd.base import finite_differences
@@ -37,6 +38,13 @@ ViscosityFn = Callable[[grids.GridArrayTensor, GridVariableVector],
 # TODO(pnorgaard) Refactor subgrid_models to interpolate, then differentiate
 
 
+@grids.applied
+def _safe_sqrt(x):
+  """Square root with zero, rather than infinite, derivative at zero."""
+  is_zero = x == 0
+  return jnp.where(is_zero, 0, jnp.sqrt(jnp.where(is_zero, 1, x)))
+
+
 def smagorinsky_viscosity(
     s_ij: grids.GridArrayTensor,
     v: GridVariableVector,
@@ -89,7 +97,7 @@ def smagorinsky_viscosity(
   centered_s_ij = np.vectorize(interpolate_to_center)(s_ij)
   # geometric average
   cutoff = np.prod(np.array(grid.step))**(1 / grid.ndim)
-  viscosity = (cs * cutoff)**2 * np.sqrt(
+  viscosity = (cs * cutoff)**2 * _safe_sqrt(
       2 * np.trace(centered_s_ij.dot(centered_s_ij)))
   viscosities_dict = {
       offset: wrapped_interp_fn(viscosity, offset, v, dt).data
-- 
2.43.0


From 51458539f6e32c9127ca27e85a484b5c387ce025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:26 +0000
Subject: [PATCH 30/42] fix: local_reduce reduces the axis that holds the
 mapped metric values

vmap stacks the values of the metric along axis 0 whichever axis of the
inputs is the batch, so reducing over batch_axis failed (or reduced the
wrong axis of a non-scalar metric) unless batch_axis was 0.
---
 jax_cfd/ml/metrics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jax_cfd/ml/metrics.py b/jax_cfd/ml/metrics.py
index 3b3fe37..5232927 100644
--- a/jax_cfd/ml/metrics.py
+++ b/jax_cfd/ml/metrics.py
@@ -98,8 +98,9 @@ def local_reduce(metric: Callable[..., Array],
     along the batch axis.
   """
   def reduced_metric(*args, **kwargs):
+    # the values of the metric are stacked along their leading axis.
     metric_value = jax.vmap(metric, batch_axis)(*args, **kwargs)
-    return reduction_function(metric_value, batch_axis)
+    return reduction_function(metric_value, 0)
   return reduced_metric
 
 
-- 
2.43.0


From 72949a2b3d0e313a90d4e4b432a5f613bfca5bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:26 +0000
Subject: [PATCH 31/42] fix: the default process_fn of
 velocity_corrector_network_w_boundaries takes the field

The default was the identity module, which takes (grid, dt, physics_specs),
so that the network could not be used without passing process_fn.
---
 jax_cfd/ml/networks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_cfd/ml/networks.py b/jax_cfd/ml/networks.py
index f8b2a0d..4c83571 100644
--- a/jax_cfd/ml/networks.py
+++ b/jax_cfd/ml/networks.py
@@ -199,7 +199,7 @@ def velocity_corrector_network_w_boundaries(
     network_offsets: Tuple[Tuple[float, ...], ...],
     num_output_channels: int,
     name: Optional[str] = None,
-    process_fn: Optional[Callable] = _identity,  # pylint: disable=g-bare-generic
+    process_fn: Optional[Callable] = lambda x: x,  # pylint: disable=g-bare-generic
 ):
   """Returns a module that computes corrections to the velocity field."""
   pre_process = functools.partial(
-- 
2.43.0


From ea6d86b12a17c660d1fab22d77fa7714d49b8fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:34 +0000
Subject: [PATCH 32/42] fix: spatial_autocorrelation labels displacements and
 runs with current xarray

The coordinate along the displacement axis held the leading positions of
the samples (half a cell plus the lower end of the domain) instead of the
displacements, and passing it as a DataArray is rejected by xarray.
---
 jax_cfd/data/xarray_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jax_cfd/data/xarray_utils.py b/jax_cfd/data/xarray_utils.py
index 1dc971b..7a7e4bc 100644
--- a/jax_cfd/data/xarray_utils.py
+++ b/jax_cfd/data/xarray_utils.py
@@ -225,7 +225,8 @@ def spatial_autocorrelation(array, spatial_axis='x'):
   # we only report the unique half of the autocorrelation.
   num_unique_displacements = spatial_axis_size // 2
   result = full_result.isel({out_axis_name: slice(0, num_unique_displacements)})
-  displacement_coords = array.coords[spatial_axis][:num_unique_displacements]
+  positions = array.coords[spatial_axis].data
+  displacement_coords = positions[:num_unique_displacements] - positions[0]
   result.coords[out_axis_name] = (out_axis_name, displacement_coords)
   return result
 
-- 
2.43.0


From 021f222bbba57d9de0f717294318cd7dd1eaf15e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:34 +0000
Subject: [PATCH 33/42] fix: velocity_trajectory_to_xarray records the offset
 of the velocities it is given

Velocities given as GridArray or GridVariable were labelled with the cell
faces even when they live elsewhere, e.g. on a collocated grid.
---
 jax_cfd/data/xarray_utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jax_cfd/data/xarray_utils.py b/jax_cfd/data/xarray_utils.py
index 7a7e4bc..128e287 100644
--- a/jax_cfd/data/xarray_utils.py
+++ b/jax_cfd/data/xarray_utils.py
@@ -91,11 +91,12 @@ def velocity_trajectory_to_xarray(
   for component in range(dimension):
     name = XR_VELOCITY_NAMES[component]
     data = trajectory[component + num_scalars]
-    if isinstance(data, GridArray) or isinstance(data, GridVariable):
-      data = data.data
     var_attrs = {}
     if grid is not None:
       var_attrs[XR_OFFSET_NAME] = grid.cell_faces[component]
+    if isinstance(data, GridArray) or isinstance(data, GridVariable):
+      var_attrs[XR_OFFSET_NAME] = data.offset
+      data = data.data
     data_vars[prefix_name + name] = xarray.Variable(dims, data, var_attrs)
 
   if samples:
-- 
2.43.0


From 65830f94112f37dfafdc51eee99f2fed35554bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:34 +0000
Subject: [PATCH 34/42] fix: compute_summary_dataset averages over the
 non-spatial dimensions it is given

non_spatial_dims was only used for the isotropic spectrum, so that means,
errors and thresholds kept any dimension other than 'sample'.
---
 jax_cfd/data/evaluation.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/jax_cfd/data/evaluation.py b/jax_cfd/data/evaluation.py
index 9c81d78..6fdd689 100644
--- a/jax_cfd/data/evaluation.py
+++ b/jax_cfd/data/evaluation.py
@@ -304,11 +304,13 @@ def compute_summary_dataset(
     custom_summaries = []
 
   mean_summaries = [
-      average(s.sel(model=eval_model_name), ndim).rename(s.name + '_mean')
+      average(s.sel(model=eval_model_name), ndim, non_spatial_dims).rename(
+          s.name + '_mean')
       for s in summaries
   ]
   error_summaries = [
-      average(absolute_error(s, eval_model_name, target_model_name), ndim)
+      average(absolute_error(s, eval_model_name, target_model_name), ndim,
+              non_spatial_dims)
       for s in summaries
   ]
   correlation_summaries = [
@@ -330,7 +332,7 @@ def compute_summary_dataset(
       below_error = below_error_threshold(summary, error_threshold,
                                           eval_model_name, target_model_name)
       below_error.name = f'{name}_within_q={threshold_quantile}'
-      threshold_summaries.append(average(below_error, ndim))
+      threshold_summaries.append(average(below_error, ndim, non_spatial_dims))
 
   all_summaries = (
       mean_summaries + error_summaries + threshold_summaries +
-- 
2.43.0


From a540e2cf0106e97b1b52f11c6a36a460692fe9ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:57 +0000
Subject: [PATCH 35/42] fix: temporal_autocorrelation labels lags rather than
 times

The dt coordinate held the times of the samples, which are the lags only
when the trajectory starts at time zero.
---
 jax_cfd/data/evaluation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jax_cfd/data/evaluation.py b/jax_cfd/data/evaluation.py
index 6fdd689..1517250 100644
--- a/jax_cfd/data/evaluation.py
+++ b/jax_cfd/data/evaluation.py
@@ -199,7 +199,8 @@ def temporal_autocorrelation(array):
   full_result = xarray.Dataset(
       data_vars=dict(t_corr=(['time', 'sample', 'x', 'model'], full_result)),
       coords={
-          'dt': np.array(array.time[slice(None, None, subsample)]),
+          'dt': np.array(array.time[slice(None, None, subsample)]
+                         - array.time[0]),
           'sample': array.sample,
           'x': array.x,
           'model': array.model
-- 
2.43.0


From 52d38b727abe3e6d5afd354b43de6437d5edeac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:33 +0000
Subject: [PATCH 36/42] fix: MirrorConv pads each axis by its own kernel size

---
 jax_cfd/ml/layers.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/jax_cfd/ml/layers.py b/jax_cfd/ml/layers.py
index 9c662d7..8e2d6ce 100644
--- a/jax_cfd/ml/layers.py
+++ b/jax_cfd/ml/layers.py
@@ -165,12 +165,11 @@ class MirrorConvGeneral(hk.Module):
       **conv_kwargs: additional arguments passed to `base_convolution`.
     """
     super().__init__(name=name)
-    self._padding = np.zeros(2).astype('int')
+    self._padding = []
     for kernel_size in kernel_shape:
       effective_kernel = kernel_size + (rate - 1) * (kernel_size - 1)
       pad_left = effective_kernel // 2
-      self._padding += np.array([pad_left,
-                                 effective_kernel - pad_left - 1]).astype('int')
+      self._padding.append((pad_left, effective_kernel - pad_left - 1))
     self._tile_layout = tile_layout
     self._conv_module = base_convolution(
         output_channels=output_channels, kernel_shape=kernel_shape,
@@ -178,7 +177,7 @@ class MirrorConvGeneral(hk.Module):
 
   def _expand_var(self, var):
     var = var.bc.pad_all(
-        var, (self._padding,) * var.grid.ndim, mode=boundaries.Padding.MIRROR)
+        var, tuple(self._padding), mode=boundaries.Padding.MIRROR)
     return jnp.expand_dims(var.data, axis=-1)
 
   def __call__(self, inputs):
-- 
2.43.0


From 3887b5e2abdb6056149b1a7101a2229450a1fbf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:57 +0000
Subject: [PATCH 37/42] fix: learned spatial derivatives roll each axis by its
 own shift

---
 jax_cfd/ml/layers.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/jax_cfd/ml/layers.py b/jax_cfd/ml/layers.py
index 8e2d6ce..6fa8641 100644
--- a/jax_cfd/ml/layers.py
+++ b/jax_cfd/ml/layers.py
@@ -624,7 +624,7 @@ class SpatialDerivativeFromLogits:
                        f'size; {logits.shape[-1]} vs. {self.subspace_size}')
 
   def extract_patches(self, inputs):
-    rolled = jnp.roll(inputs, self.roll)
+    rolled = jnp.roll(inputs, self.roll, axis=tuple(range(len(self.roll))))
     patches = layers_util.extract_patches(
         rolled, self.stencil_shape,
         self._extract_patch_method, self.tile_layout)
@@ -746,12 +746,14 @@ class SpatialDerivative:
     # `roll` implementation of `extract_patches`, we can simply add it to the
     # `shifts`. For the `conv` implementation, we may be able to effectively
     # roll the input by adjusting how arrays are padded.
-    rolled = jnp.roll(inputs, self._roll)
+    roll_axes = tuple(range(len(self._roll)))
+    rolled = jnp.roll(inputs, self._roll, axis=roll_axes)
     patches = layers_util.extract_patches(
         rolled, self._stencil_shape,
         self._extract_patch_method, self._tile_layout)
     if auxiliary_inputs is not None:
-      auxiliary_inputs = [jnp.roll(aux, self._roll) for aux in auxiliary_inputs]
+      auxiliary_inputs = [
+          jnp.roll(aux, self._roll, axis=roll_axes) for aux in auxiliary_inputs]
       rolled = jnp.concatenate([rolled, *auxiliary_inputs], axis=-1)
     coefficients = self._coefficients_module(rolled)
     return layers_util.apply_coefficients(coefficients, patches)
-- 
2.43.0


From d6dc324a0a439d10139f21ac43259faac331a254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:57 +0000
Subject: [PATCH 38/42] fix: FusedLearnedInterpolation returns the field
 unchanged when no interpolation is needed

---
 jax_cfd/ml/interpolations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jax_cfd/ml/interpolations.py b/jax_cfd/ml/interpolations.py
index f984038..1db3458 100644
--- a/jax_cfd/ml/interpolations.py
+++ b/jax_cfd/ml/interpolations.py
@@ -104,11 +104,11 @@ class FusedLearnedInterpolation:
                dt: float,
                tag=None) -> GridVariable:
     del dt  # not used.
+    # TODO(jamieas): Try removing the following line.
+    if c.offset == offset: return c
     # TODO(dkochkov) Add decorator to expand/squeeze channel dim.
     c = grids.GridVariable(
         grids.GridArray(jnp.expand_dims(c.data, -1), c.offset, c.grid), c.bc)
-    # TODO(jamieas): Try removing the following line.
-    if c.offset == offset: return c
     key = (c.offset, offset, tag)
     interpolator = self._interpolators.get(key)
     if interpolator is None:
-- 
2.43.0


From ecede6e46ef8d5fc67c090bb372c08aa3bcee166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:16 +0000
Subject: [PATCH 39/42] fix: PolynomialConstraint rejects stencils without free
 parameters

---
 jax_cfd/ml/layers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_cfd/ml/layers.py b/jax_cfd/ml/layers.py
index 6fa8641..1cf26ff 100644
--- a/jax_cfd/ml/layers.py
+++ b/jax_cfd/ml/layers.py
@@ -508,7 +508,7 @@ class PolynomialConstraint():
     # https://en.wikipedia.org/wiki/Kernel_(linear_algebra)#Nonhomogeneous_systems_of_linear_equations
     _, _, v = np.linalg.svd(constraint_matrix)
     nullspace_size = constraint_matrix.shape[1] - constraint_matrix.shape[0]
-    if not nullspace_size:
+    if nullspace_size <= 0:
       raise ValueError(
           'there is only one valid solution accurate to this order')
 
-- 
2.43.0


From 39166a5518bf06a907e77b21df614a541df4e9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:26 +0000
Subject: [PATCH 40/42] fix: domain_interior_masks compares sample positions in
 cells, not absolute coordinates

---
 jax_cfd/base/grids.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/jax_cfd/base/grids.py b/jax_cfd/base/grids.py
index 3c87f38..1763b61 100644
--- a/jax_cfd/base/grids.py
+++ b/jax_cfd/base/grids.py
@@ -679,11 +679,13 @@ def domain_interior_masks(grid: Grid):
   """Returns cell face arrays with 1 on the interior, 0 on the boundary."""
   masks = []
   for offset in grid.cell_faces:
-    mesh = grid.mesh(offset)
+    # compare in units of cells: coordinates near a wall are only "close" to it
+    # relative to the step, not relative to the coordinates themselves.
+    positions = np.meshgrid(
+        *[np.arange(size) + o for size, o in zip(grid.shape, offset)],
+        indexing='ij')
     mask = 1
-    for i, x in enumerate(mesh):
-      lower = (np.invert(np.isclose(x, grid.domain[i][0]))).astype('int')
-      upper = (np.invert(np.isclose(x, grid.domain[i][1]))).astype('int')
-      mask = mask * upper * lower
+    for size, x in zip(grid.shape, positions):
+      mask = mask * (x > 0) * (x < size)
     masks.append(mask)
   return tuple(masks)
-- 
2.43.0


From bf617818844151cb46677b38918c63070bc47303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:15 +0000
Subject: [PATCH 41/42] fix: preprocess ends with its data instead of raising
 RuntimeError

---
 jax_cfd/ml/train_utils.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/jax_cfd/ml/train_utils.py b/jax_cfd/ml/train_utils.py
index d4f9af5..7b09cd8 100644
--- a/jax_cfd/ml/train_utils.py
+++ b/jax_cfd/ml/train_utils.py
@@ -222,6 +222,5 @@ def preprocess(
     Batch of data from `data_iterator` preprocessed with `preprocess_fn`.
   """
   preprocess_fn = jax.jit(preprocess_fn)
-  while True:
-    rng = next(rng_stream)
-    yield preprocess_fn(next(data_iterator), rng)
+  for rng, batch in zip(rng_stream, data_iterator):
+    yield preprocess_fn(batch, rng)
-- 
2.43.0


From 41f45bc57539ecb7d00b6955bc39a987a65b0b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:10 +0000
Subject: [PATCH 42/42] fix: keep the null space out of the conjugate gradient
 pressure solves

The pressure equation is singular, and once the residual is down to rounding
error the iterations amplify the part of it in the null space: in single
precision, projecting an (almost) divergence-free field of speed 10 returned
NaN on collocated grids and a divergent field on staggered ones, and so did
derivatives.
---
 jax_cfd/base/pressure.py       |  8 +++++++-
 jax_cfd/collocated/pressure.py | 15 ++++++++++++++-
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/jax_cfd/base/pressure.py b/jax_cfd/base/pressure.py
index 0c6f105..a600a53 100644
--- a/jax_cfd/base/pressure.py
+++ b/jax_cfd/base/pressure.py
@@ -98,9 +98,15 @@ def solve_cg(
   if pressure_bc is None:
     pressure_bc = boundaries.get_pressure_bc_from_velocity(v)
 
+  # Without Dirichlet conditions the Laplacian leaves constants undetermined. They
+  # must not be left to rounding errors, on which the iterations can diverge.
+  singular = not any(boundaries.BCType.DIRICHLET in axis
+                     for axis in pressure_bc.types)
+  scale = sum(1 / h ** 2 for h in v[0].grid.step) if singular else 0
+
   def laplacian_with_bcs(array: GridArray) -> GridArray:
     variable = pressure_bc.impose_bc(array)
-    return fd.laplacian(variable)
+    return fd.laplacian(variable) - scale * jnp.mean(array.data)
 
   q, _ = jax.scipy.sparse.linalg.cg(
       laplacian_with_bcs,
diff --git a/jax_cfd/collocated/pressure.py b/jax_cfd/collocated/pressure.py
index 985b180..fb7e259 100644
--- a/jax_cfd/collocated/pressure.py
+++ b/jax_cfd/collocated/pressure.py
@@ -63,6 +63,17 @@ def solve_cg(
     A pressure correction `q` such that `div(v - grad(q))` is zero.
   """
   rhs = fd.centered_divergence(v)
+  scale = sum(1 / h ** 2 for h in v[0].grid.step)
+
+  def nullspace(data: Array) -> Array:
+    """Part without gradient: constant, and alternating along even axes."""
+    for axis, size in enumerate(data.shape):
+      period = 2 - size % 2
+      split = data.reshape(
+          data.shape[:axis] + (-1, period) + data.shape[axis + 1:])
+      mean = jnp.mean(split, axis, keepdims=True)
+      data = jnp.broadcast_to(mean, split.shape).reshape(data.shape)
+    return data
 
   def laplacian_with_bcs(array: GridArray) -> GridArray:
     if not boundaries.has_all_periodic_boundary_conditions(q0):
@@ -71,7 +82,9 @@ def solve_cg(
     variable = grids.GridVariable(array, q0.bc)
     gradient = fd.central_difference(variable, axis=None)
     gradient = tuple(grids.GridVariable(g, q0.bc) for g in gradient)
-    return fd.centered_divergence(gradient)
+    # The null space must not be left to rounding errors, on which the iterations
+    # can diverge.
+    return fd.centered_divergence(gradient) - scale * nullspace(array.data)
 
   q, _ = jax.scipy.sparse.linalg.cg(
       laplacian_with_bcs,
-- 
2.43.0

