SEEDS = [
dict(id='C05-laplacian-isotropic', prop='C05', edits={'jax_cfd/base/finite_differences.py': [(
"""  scales = np.square(1 / np.array(u.grid.step, dtype=u.dtype))
""", """  steps = np.array(u.grid.step, dtype=u.dtype)
  if np.allclose(steps, steps[0]):
    steps = np.full_like(steps, steps[0])  # isotropic grid: one common scale
  scales = np.square(1 / steps)
""")]},
 needs='a very fine anisotropic grid (steps below the absolute tolerance of allclose, 1e-8) or steps that differ by less than 1e-5', breaks='the Laplacian uses the step of the first axis everywhere',
 demo='''
from jax_cfd.base import boundaries as B, grids as G, finite_differences as F
g = G.Grid((6, 6), domain=((0., 6e-9), (0., 18e-9)))
x = np.random.default_rng(0).standard_normal((6, 6))
u = G.GridVariable(G.GridArray(jnp.asarray(x), (.5, .5), g), B.periodic_boundary_conditions(2))
want = sum((np.roll(x, 1, a) + np.roll(x, -1, a) - 2 * x) / g.step[a]**2 for a in range(2))
if not np.allclose(F.laplacian(u).data, want, rtol=1e-6): sys.exit('wrong Laplacian')
'''),
dict(id='C21-dilated-even', prop='C21', edits={'jax_cfd/ml/layers.py': [(
"""      effective_kernel = kernel_size + (rate - 1) * (kernel_size - 1)
      pad_left = effective_kernel // 2
      self._padding.append((pad_left, effective_kernel - pad_left - 1))
    self._tile_layout = tile_layout
    self._conv_module = base_convolution(
        output_channels=output_channels, kernel_shape=kernel_shape,
        padding='VALID', rate=rate, **conv_kwargs)

  def __call__(self, inputs):
    return tiling""", """      effective_kernel = kernel_size + (rate - 1) * (kernel_size - 1)
      pad_left = rate * (kernel_size // 2)
      self._padding.append((pad_left, effective_kernel - pad_left - 1))
    self._tile_layout = tile_layout
    self._conv_module = base_convolution(
        output_channels=output_channels, kernel_shape=kernel_shape,
        padding='VALID', rate=rate, **conv_kwargs)

  def __call__(self, inputs):
    return tiling""")]},
 needs='an even kernel with dilation', breaks='the receptive field is displaced to the left of its stated place',
 demo='''
import haiku as hk
from jax_cfd.ml import layers
f = hk.without_apply_rng(hk.transform(lambda x: layers.PeriodicConv1D(1, (4,), rate=3)(x)))
p = f.init(jax.random.PRNGKey(0), jnp.zeros((16, 1)))
x = np.zeros((16, 1)); x[8] = 1
d = np.asarray(f.apply(p, jnp.asarray(x)) - f.apply(p, jnp.zeros((16, 1))))[:, 0]
seen = sorted(np.nonzero(d)[0] - 8)
if seen != [-4, -1, 2, 5]: sys.exit(f'outputs at {seen} see the cell')
'''),
dict(id='C12-dynamic-speed', prop='C12', edits={'jax_cfd/base/equations.py': [(
"""  v_max = jnp.sqrt(jnp.max(sum(u.data ** 2 for u in v)))""",
"""  v_max = jnp.max(jnp.stack([jnp.max(jnp.abs(u.data)) for u in v]))""")]},
 needs='velocity whose components are large at the same cell', breaks='the dynamic time step exceeds the limit set by the speed',
 demo='''
from jax_cfd.base import boundaries as B, grids as G, equations as E
g = G.Grid((8, 8), step=1.)
v = tuple(G.GridVariable(G.GridArray(jnp.ones((8, 8)), o, g), B.periodic_boundary_conditions(2)) for o in g.cell_faces)
with jax.disable_jit(): dt = E.dynamic_time_step(v, .5, 1e-6, g)
if abs(dt - .5 / np.sqrt(2)) > 1e-6: sys.exit(f'time step {dt}')
'''),
dict(id='C18-init-leak', prop='C18', edits={'jax_cfd/base/funcutils.py': [(
"""  try:
    yield
  finally:
    _INITIALIZING -= 1
""", """  yield
  _INITIALIZING -= 1
""")]},
 needs='an exception inside init_context (for instance a model that fails to initialise), followed by a run in the same process', breaks='every later repeated or trajectory run executes a single step',
 demo='''
from jax_cfd.base import funcutils as F
try:
  with F.init_context(): raise ValueError('bad configuration')
except ValueError: pass
x = F.repeated(lambda x: x + 1., 5)(jnp.zeros(()))
if x != 5: sys.exit(f'five steps from 0 give {x}')
'''),
dict(id='C03-tensor-order', prop='C03', edits={'jax_cfd/base/grids.py': [(
"""    lambda tensor: (tensor.ravel().tolist(), tensor.shape),""", """    lambda tensor: (tensor.ravel(order='K').tolist(), tensor.shape),""")]},
 needs='a tensor of fields that was transposed (a strided view) before it is flattened for a transformation', breaks='components come back in transposed positions',
 demo='''
from jax_cfd.base import grids as G
g = G.Grid((3, 3), step=1.)
t = G.GridArrayTensor([[G.GridArray(jnp.full((3, 3), 10. * i + j), (.5, .5), g) for j in range(2)] for i in range(2)]).T
r = jax.tree_util.tree_map(lambda x: x, t)
if float(r[0, 1].data[0, 0]) != 10.: sys.exit('components moved')
'''),
dict(id='C03-applied-kwargs', prop='C03', edits={'jax_cfd/base/grids.py': [(
"""    offset = consistent_offset(*[
        arg for arg in args + tuple(kwargs.values())
        if isinstance(arg, GridArray)
    ])
""", """    offset = consistent_offset(*([
        arg for arg in args if isinstance(arg, GridArray)
    ] or [arg for arg in kwargs.values() if isinstance(arg, GridArray)]))
""")]},
 needs='a function applied to one field by position and to another, at a different location, by keyword', breaks='fields at different locations are combined',
 demo='''
from jax_cfd.base import grids as G
g = G.Grid((3, 3), step=1.)
a, b = (G.GridArray(jnp.ones((3, 3)), o, g) for o in g.cell_faces)
try: G.applied(lambda x, y: x + y)(a, y=b)
except G.InconsistentOffsetError: sys.exit(0)
sys.exit('fields at different faces were added')
'''),
]
