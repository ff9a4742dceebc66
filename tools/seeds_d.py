SEEDS = [
dict(id='C25-cached-laplacian', prop='C25', edits={'jax_cfd/base/array_utils.py': [(
"""def laplacian_matrix(size: int, step: float) -> np.ndarray:
  \"\"\"Create 1D Laplacian operator matrix, with periodic BC.\"\"\"
""", """@functools.lru_cache(maxsize=None)
def laplacian_matrix(size: int, step: float) -> np.ndarray:
  \"\"\"Creates the 1D Laplacian operator matrix, with periodic BC.\"\"\"
"""), ("\nimport jax\nimport jax.numpy as jnp\nfrom jax_cfd.base import boundaries\n", "\nimport functools\n\nimport jax\nimport jax.numpy as jnp\nfrom jax_cfd.base import boundaries\n")]},
 needs='operators assembled with walls first and for a periodic axis of the same size and step afterwards: the wall rows are written into the cached matrix',
 breaks='assembled Laplacians depend on which operators were assembled before',
 demo='''
from jax_cfd.base import array_utils, boundaries as B, grids as G
g = G.Grid((5, 7), step=(.5, .25))
def m(b): return [np.array(x) for x in array_utils.laplacian_matrix_w_boundaries(g, g.cell_center, b)]
a = m(B.periodic_boundary_conditions(2)); m(B.neumann_boundary_conditions(2)); b = m(B.periodic_boundary_conditions(2))
if not all(np.allclose(x, y) for x, y in zip(a, b)): sys.exit('the periodic operator changed after a wall operator was assembled')
'''),
dict(id='C10-cached-pseudoinverse', prop='C10', edits={'jax_cfd/base/pressure.py': [(
"""  pinv = fast_diagonalization.pseudoinverse(
      laplacians,
      rhs_transformed.dtype,
      hermitian=True,
      circulant=circulant,
      implementation=implementation)
""", """  # assembling the operators dominates the cost of building a time step.
  key = (rhs.grid.shape, str(rhs_transformed.dtype), str(pressure_bc.types),
         implementation)
  if key not in _PSEUDOINVERSES:
    _PSEUDOINVERSES[key] = fast_diagonalization.pseudoinverse(
        laplacians,
        rhs_transformed.dtype,
        hermitian=True,
        circulant=circulant,
        implementation=implementation)
  pinv = _PSEUDOINVERSES[key]
"""), ("\ndef solve_fast_diag(\n", "\n_PSEUDOINVERSES = {}\n\n\ndef solve_fast_diag(\n")]},
 needs='two grids of the same shape but different spacing, used one after the other in one process', breaks='the projected velocity is not divergence-free on the second grid',
 demo='''
from jax_cfd.base import boundaries as B, finite_differences as fd, grids as G, pressure
r = np.random.default_rng(0)
for step in [(1., 1.), (1., .5)]:
  g = G.Grid((8, 6), step=step)
  v = tuple(G.GridVariable(G.GridArray(jnp.asarray(r.standard_normal(g.shape)), o, g), B.periodic_boundary_conditions(2)) for o in g.cell_faces)
  d = np.abs(fd.divergence(pressure.projection(v)).data).max()
  if d > 1e-3: sys.exit(f'divergence {d} after projection on {g}')
'''),
dict(id='C27-cached-frequencies', prop='C27', edits={'jax_cfd/base/filter_utils.py': [(
"""def _angular_frequency_magnitude(grid: grids.Grid) -> Array:
  frequencies = [2 * jnp.pi * jnp.fft.fftfreq(size, step)
                 for size, step in zip(grid.shape, grid.step)]
  freq_vector = jnp.stack(jnp.meshgrid(*frequencies, indexing='ij'), axis=0)
  return jnp.linalg.norm(freq_vector, axis=0)
""", """_FREQUENCIES = {}


def _angular_frequency_magnitude(grid: grids.Grid) -> Array:
  if grid.shape not in _FREQUENCIES:
    frequencies = [2 * np.pi * np.fft.fftfreq(size, step)
                   for size, step in zip(grid.shape, grid.step)]
    freq_vector = np.stack(np.meshgrid(*frequencies, indexing='ij'), axis=0)
    _FREQUENCIES[grid.shape] = np.linalg.norm(freq_vector, axis=0)
  return jnp.asarray(_FREQUENCIES[grid.shape])
"""), ("import jax.numpy as jnp\n", "import jax.numpy as jnp\nimport numpy as np\n")]},
 needs='filters on two grids of the same shape but different domain in one process', breaks='the second grid filters a different wavenumber band than requested',
 demo='''
from jax_cfd.base import boundaries as B, forcings, grids as G
for L in (1., 4.):
  g = G.Grid((16, 8), domain=((0, L), (0, L)))
  v = tuple(G.GridVariable(g.eval_on_mesh(lambda x, y: jnp.sin(2 * jnp.pi * 2 * x / L), o), B.periodic_boundary_conditions(2)) for o in g.cell_faces)
  f = forcings.filtered_linear_forcing(1.5 / L, 2.5 / L, 1., g)(v)
  if not np.allclose(f[0].data, v[0].data, atol=1e-4): sys.exit(f'the wave inside the band is not forced on {g}')
'''),
dict(id='C23-cached-specs', prop='C23', edits={'jax_cfd/ml/physics_specifications.py': [(
"""def get_physics_specs(physics_specs_cls=gin.REQUIRED):
  \"\"\"Returns an instance of `physics_specs_cls`, configured by gin.\"\"\"
  return physics_specs_cls()
""", """def get_physics_specs(physics_specs_cls=gin.REQUIRED):
  \"\"\"Returns an instance of `physics_specs_cls`, configured by gin.\"\"\"
  # forcing modules may be expensive to build, so they are built once.
  name = getattr(physics_specs_cls, "__name__", str(physics_specs_cls))
  if name not in _SPECS:
    _SPECS[name] = physics_specs_cls()
  return _SPECS[name]
"""), ("@gin.configurable\ndef get_physics_specs", "_SPECS = {}\n\n\n@gin.configurable\ndef get_physics_specs")]},
 needs='two configurations loaded one after the other', breaks='the second model runs with the physics of the first',
 demo='''
import gin
from jax_cfd.ml import physics_specifications as ps
got = []
for nu in (.5, .25):
  gin.clear_config()
  gin.parse_config(['get_physics_specs.physics_specs_cls=@NavierStokesPhysicsSpecs', 'NavierStokesPhysicsSpecs.density=1.', f'NavierStokesPhysicsSpecs.viscosity={nu}', 'NavierStokesPhysicsSpecs.forcing_module=None'])
  got.append(ps.get_physics_specs().viscosity)
if got != [.5, .25]: sys.exit(f'viscosities {got}')
'''),
dict(id='C22-cached-constraints', prop='C22', edits={'jax_cfd/ml/layers_util.py': [(
"""  if accuracy_order < 1:
    raise ValueError('cannot compute constriants with non-positive '
                     'accuracy_order: {}'.format(accuracy_order))

  all_constraints = {}
""", """  if accuracy_order < 1:
    raise ValueError('cannot compute constriants with non-positive '
                     'accuracy_order: {}'.format(accuracy_order))

  # constraints only depend on the geometry of the stencils.
  key = (tuple((len(s), float(s[0])) for s in stencils), method,
         tuple(derivative_orders), accuracy_order, grid_step)
  all_constraints = _CONSTRAINTS.setdefault(key, {})
"""), ("def polynomial_accuracy_constraints(", "_CONSTRAINTS = {}\n\n\ndef polynomial_accuracy_constraints(")]},
 needs='stencils with the same start and length but a different spacing or direction in one process', breaks='constraints of another stencil are reused or accumulated',
 demo='''
from jax_cfd.ml import layers_util as lu
for s in (np.array([-1., 0., 1.]), np.array([-1., 1., 3.])):
  c = lu.polynomial_accuracy_coefficients([s], lu.Method.FINITE_DIFFERENCE, [1], 1)
  if not (abs(np.sum(c)) < 1e-6 and abs(np.sum(c * s) - 1) < 1e-6): sys.exit(f'{c} is not a derivative on {s}')
'''),
]
