SEEDS = [
dict(id='C18-init-context-leak', prop='C18', edits={'jax_cfd/base/funcutils.py': [(
"""  global _INITIALIZING
  _INITIALIZING += 1
  try:
    yield
  finally:
    _INITIALIZING -= 1
""", """  global _INITIALIZING
  _INITIALIZING += 1
  yield
  _INITIALIZING -= 1
""")]},
 needs='an initialization that fails with an exception inside init_context, followed by ordinary runs in the same process', breaks='every later trajectory repeats its first frame',
 demo='''
from jax_cfd.base import funcutils
try:
  with funcutils.init_context(): raise KeyError('initialization failed')
except KeyError: pass
final = funcutils.trajectory(lambda x: x + 1, 3)(0.)[1] if False else funcutils.scan(lambda c, x: (c + x, c + x), 0., jnp.ones(4))[1]
if not np.allclose(final, [1, 2, 3, 4]): sys.exit(f'frames {final}')
'''),
dict(id='C10-cg-tolerances', prop='C10', edits={'jax_cfd/base/pressure.py': [(
"""      laplacian_with_bcs,
      rhs,
      x0=q0.array,
      tol=rtol,
      atol=atol,
""", """      laplacian_with_bcs,
      rhs,
      x0=q0.array,
      tol=atol,
      atol=rtol,
""")]},
 needs='a conjugate gradient solve with relative and absolute tolerances that differ, on a velocity of small or large scale', breaks='the projection stops too early',
 demo='''
from jax_cfd.base import boundaries as B, finite_differences as fd, grids as G, pressure
g = G.Grid((8, 8), step=1.); r = np.random.default_rng(0)
v = tuple(G.GridVariable(G.GridArray(1e-8 * jnp.asarray(r.standard_normal(g.shape)), o, g), B.periodic_boundary_conditions(2)) for o in g.cell_faces)
w = pressure.projection(v, functools.partial(pressure.solve_cg, rtol=1e-6, atol=1e-14))
d = np.abs(fd.divergence(w).data).max() / 1e-8
if d > 1e-3: sys.exit(f'relative divergence {d}')
'''),
dict(id='C13-negative-weights', prop='C13', edits={'jax_cfd/base/time_stepping.py': [(
"sum(a[i-1][j] * k[j] for j in range(i) if a[i-1][j])", "sum(a[i-1][j] * k[j] for j in range(i) if a[i-1][j] > 0)")]},
 needs='a user-supplied tableau with negative stage coefficients (Kutta\'s third-order method)', breaks='stages are evaluated without the negative coefficients',
 demo='''
from jax_cfd.base import time_stepping as ts
import tree_math
class Eq:
  def explicit_terms(self, u): return jax.tree_util.tree_map(lambda x: -x, u)
  def pressure_projection(self, u): return u
t = ts.ButcherTableau(a=[[.5], [-1., 2.]], b=[1/6, 2/3, 1/6])
u = ts.navier_stokes_rk(t, Eq(), .1)(jnp.asarray(1.))
if abs(float(u) - (1 - .1 + .005 - 1e-3 / 6)) > 1e-6: sys.exit(f'amplification {u}')
'''),
dict(id='C24-offset-overwritten', prop='C24', edits={'jax_cfd/data/xarray_utils.py': [(
"""    if grid is not None:
      var_attrs[XR_OFFSET_NAME] = grid.cell_faces[component]
    if isinstance(data, GridArray) or isinstance(data, GridVariable):
      var_attrs[XR_OFFSET_NAME] = data.offset
      data = data.data
""", """    if isinstance(data, GridArray) or isinstance(data, GridVariable):
      var_attrs[XR_OFFSET_NAME] = data.offset
      data = data.data
    if grid is not None:
      var_attrs[XR_OFFSET_NAME] = grid.cell_faces[component]
""")]},
 needs='a trajectory of fields that do not live on the faces, converted together with a grid', breaks='the recorded offsets are not those of the samples',
 demo='''
from jax_cfd.base import grids as G
from jax_cfd.data import xarray_utils as xu
g = G.Grid((4, 6), step=1.)
v = tuple(G.GridArray(jnp.ones((2,) + g.shape), g.cell_center, g) for _ in range(2))
ds = xu.velocity_trajectory_to_xarray(v, g, time=np.arange(2.))
if tuple(ds['u'].attrs['offset']) != g.cell_center: sys.exit(f"offset {ds['u'].attrs['offset']}")
'''),
dict(id='C23-update-step', prop='C23', edits={'jax_cfd/ml/train_utils.py': [(
"    optimizer_state = update_fn(step, grad, optimizer_state)\n    return (step + 1, optimizer_state), loss", "    step = step + 1\n    optimizer_state = update_fn(step, grad, optimizer_state)\n    return (step, optimizer_state), loss")]},
 needs='an optimizer whose update depends on the step number (a schedule or bias correction)', breaks='the first update uses the second step number',
 demo='''
from jax_cfd.ml import train_utils as tu
f = tu.train_step(lambda p, b: (0., 1.), lambda step, g, s: s - g * step, lambda s: s)
(n, s), l = f((0, 5.), None)
if s != 5. or n != 1: sys.exit(f'state {s} after the step with number 0')
'''),
dict(id='C23-frames-reversed', prop='C23', edits={'jax_cfd/ml/encoders.py': [(
"""    inputs = array_utils.slice_along_axis(inputs, time_axis, slice(-n, None))
    inputs = jax.tree.map(lambda x: jnp.moveaxis(x, time_axis, -1), inputs)
    return array_utils.concat_along_axis(jax.tree.leaves(inputs), axis=-1)
""", """    frames = [
        array_utils.slice_along_axis(inputs, time_axis, -i, expect_same_dims=False)
        for i in range(n, 0, -1)
    ]
    return jnp.stack([x for f in frames for x in jax.tree.leaves(f)], axis=-1)
""")]},
 needs='an encoder stacking several frames of more than one variable', breaks='channels are ordered by frame instead of by variable',
 demo='''
from jax_cfd.ml import encoders
from jax_cfd.base import grids as G
g = G.Grid((4, 4), step=1.)
x = (jnp.arange(3.)[:, None, None] * jnp.ones(g.shape), 10 + jnp.arange(3.)[:, None, None] * jnp.ones(g.shape))
y = encoders.stack_last_n_state_encoder(g, .1, None, n=2)(x)
if list(np.asarray(y)[0, 0]) != [1., 2., 11., 12.]: sys.exit(f'channels {np.asarray(y)[0, 0]}')
'''),
dict(id='C21-halo-start', prop='C21', edits={'jax_cfd/ml/tiling.py': [(
"    start = array.shape[spatial_axis] - pad_left\n", "    start = min(array.shape[1:-1]) - pad_left\n")]},
 needs='tiles that are not square', breaks='the halo of a longer axis is filled from the middle of the neighbouring tile',
 demo='''
from jax_cfd.ml import tiling
x = jnp.arange(4. * 12).reshape(4, 12, 1)
a = tiling.batch_to_space(tiling.halo_exchange_pad(tiling.space_to_batch(x, (1, 1)), (1, 1), ((1, 1), (1, 1))), (1, 1))
if not np.allclose(a[..., 0], np.pad(np.asarray(x)[..., 0], 1, mode='wrap')): sys.exit('the padding is not periodic')
'''),
dict(id='C11-relative-cutoff', prop='C11', edits={'jax_cfd/base/fast_diagonalization.py': [(
"      min_abs = 10 * np.finfo(v.dtype).eps * np.max(abs(v))\n", "      min_abs = 10 * np.finfo(dtype).eps * np.max(abs(v))\n")]},
 needs='single precision right-hand sides of an operator with a wide range of eigenvalues (anisotropic or fine grids)', breaks='small but non-zero eigenvalues are discarded',
 demo='''
from jax_cfd.base import fast_diagonalization as f
d = np.diag([-1., -2e-7]); e = np.diag([-1e-9, -3e-9])
op = [np.diag([-1., -2e-7, -.5]), np.diag([-1e-8, -3e-8])]
x = np.ones((3, 2), np.float32)
y = f.pseudoinverse(op, x.dtype, hermitian=True, implementation='matmul')(x)
w = 1 / np.add.outer(np.diag(op[0]), np.diag(op[1]))
if not np.allclose(y, w, rtol=1e-3): sys.exit(f'{y} instead of {w}')
'''),
]
