SEEDS = [
dict(id='C01-neumann-step', prop='C01', edits={'jax_cfd/base/boundaries.py': [(
"            derivative_direction * u.grid.step[axis] *", "            derivative_direction * min(u.grid.step) *")]},
 needs='a grid with different spacings and a non-zero Neumann value on an axis that does not have the smallest spacing',
 breaks='ghost cells realise the prescribed wall gradient with the wrong spacing',
 demo='''
from jax_cfd.base import boundaries as B, grids as G
N = B.BCType.NEUMANN
g = G.Grid((6, 8), domain=((0, 6.0), (0, 2.0)))
bc = B.ConstantBoundaryConditions(((N, N), (N, N)), ((.7, -.3), (.2, .4)))
d = np.random.default_rng(0).normal(size=g.shape)
u = G.GridVariable(G.GridArray(jnp.asarray(d), (.5, .5), g), bc)
for ax in (0, 1):
  h = g.step[ax]
  hi = np.take(np.asarray(u.shift(1, ax).data), -1, ax); lo = np.take(np.asarray(u.shift(-1, ax).data), 0, ax)
  ok = np.allclose((hi - np.take(d, -1, ax)) / h, bc.bc_values[ax][1]) and np.allclose((np.take(d, 0, ax) - lo) / h, bc.bc_values[ax][0])
  if not ok: sys.exit(f'wall gradient not realised on axis {ax}')
'''),
dict(id='C07-vanleer-courant', prop='C07', edits={'jax_cfd/base/advection.py': [(
"  for axis, (u, h) in enumerate(zip(aligned_v, c.grid.step)):\n    u = u.bc.shift", "  h = min(c.grid.step)\n  for axis, u in enumerate(aligned_v):\n    u = u.bc.shift")]},
 needs='different spacings per axis and a time step that is not negligible',
 breaks='the flux of the van Leer scheme uses the wrong Courant number, so the two implementations of the scheme disagree',
 demo='''
from jax_cfd.base import advection as A, boundaries as B, grids as G
g = G.Grid((8, 6), domain=((0, 4.0), (0, 9.0)))
r = np.random.default_rng(1); pb = B.periodic_boundary_conditions(2)
c = G.GridVariable(G.GridArray(jnp.asarray(r.normal(size=g.shape)), (.5, .5), g), pb)
v = tuple(G.GridVariable(G.GridArray(jnp.asarray(r.normal(size=g.shape)), o, g), pb) for o in g.cell_faces)
a = np.asarray(A.advect_van_leer(c, v, .1).data); b = np.asarray(A.advect_van_leer_using_limiters(c, v, .1).data)
sys.exit(0 if np.allclose(a, b, atol=1e-10) else 'the two van Leer implementations disagree')
'''),
dict(id='C20-cutoff-3d', prop='C20', edits={'jax_cfd/base/subgrid_models.py': [(
"  cutoff = np.prod(np.array(grid.step))**(1 / grid.ndim)", "  cutoff = np.sqrt(np.prod(np.array(grid.step)))")]},
 needs='a three-dimensional grid', breaks='the filter width is not the geometric mean spacing in 3-D',
 demo='''
from jax_cfd.base import boundaries as B, grids as G, subgrid_models as S
g = G.Grid((4, 4, 6), domain=((0, 2.), (0, 2.), (0, 3.)))
pb = B.periodic_boundary_conditions(3)
z = jnp.zeros(g.shape); e = np.zeros((3, 3)); 
x = np.sin(2 * np.pi * np.arange(4) / 4)
u = tuple(G.GridVariable(G.GridArray(z, o, g), pb) for o in g.cell_faces)
one = jnp.ones(g.shape)
s = G.GridArrayTensor([[G.GridArray(one if i == j else 0 * one, tuple(.5 + .5 * (np.eye(3)[i] + np.eye(3)[j])), g) for j in range(3)] for i in range(3)])
nu = S.smagorinsky_viscosity(s, u, dt=None, cs=.3)
got = np.asarray(getattr(nu[0, 0], 'data', nu[0, 0])); want = (.3 * .5) ** 2 * np.sqrt(2 * 3)
sys.exit(0 if np.allclose(np.asarray(got, float), want) else f'viscosity {np.ravel(got)[0]} expected {want}')
'''),
dict(id='C06-lax-wendroff-neg', prop='C06', edits={'jax_cfd/base/interpolation.py': [(
"  floor = int(np.floor(offset_delta))  # used for positive velocity\n  ceil = int(np.ceil(offset_delta))  # used for negative velocity\n  grid = grids.consistent_grid(c, u)\n  courant_numbers = (dt / grid.step[axis]) * u.data",
"  floor = int(np.floor(offset_delta))  # used for positive velocity\n  ceil = int(np.ceil(offset_delta))  # used for negative velocity\n  grid = grids.consistent_grid(c, u)\n  courant_numbers = (dt / min(grid.step)) * u.data")]},
 needs='different spacings per axis, interpolation along the coarser one', breaks='the second-order correction uses the wrong Courant number',
 demo='''
from jax_cfd.base import interpolation as I, boundaries as B, grids as G
g = G.Grid((6, 5), domain=((0, 12.), (0, 2.5)))
r = np.random.default_rng(1); pb = B.periodic_boundary_conditions(2)
d = r.normal(size=g.shape)
c = G.GridVariable(G.GridArray(jnp.asarray(d), (.5, .5), g), pb)
w = [r.normal(size=g.shape) for _ in range(2)]
v = tuple(G.GridVariable(G.GridArray(jnp.asarray(q), o, g), pb) for q, o in zip(w, g.cell_faces))
dt = .2
for ax in (0, 1):
  got = np.asarray(I.lax_wendroff(c, g.cell_faces[ax], v, dt).data)
  C = dt * w[ax] / g.step[ax]; n = np.roll(d, -1, ax)
  want = np.where(w[ax] > 0, d + .5 * (1 - C) * (n - d), n - .5 * (1 + C) * (n - d))
  if not np.allclose(got, want): sys.exit(f'axis {ax} is not the Lax-Wendroff value')
'''),
dict(id='C13-rk-unprojected-stage', prop='C13', edits={'jax_cfd/base/time_stepping.py': [(
"      u[i] = P(u_star)\n      k[i] = F(u[i])", "      u[i] = P(u_star) if i + 1 < num_steps or i < 2 else u_star\n      k[i] = F(u[i])")]},
 needs='a scheme with at least three stages whose last stage has a divergent tendency', breaks='the last stage of multi-stage schemes is evaluated on an unprojected velocity',
 demo='''
from jax_cfd.base import time_stepping as T
M = np.array([[.5, .5], [.5, .5]])
A = np.array([[-1., 2.], [.3, -.4]])
seen = []
def F(x): seen.append(np.asarray(x)); return jnp.asarray(A) @ x * x[0]
P = lambda x: jnp.asarray(M) @ x
T.classic_rk4(T.ExplicitNavierStokesODE(F, P), .1)(jnp.array([1., 1.]))
bad = [k for k, x in enumerate(seen) if not np.allclose(M @ x, x)]
sys.exit(f'stages {bad} were evaluated on unprojected states' if bad else 0)
'''),
dict(id='C09-stable-step', prop='C09', edits={'jax_cfd/base/diffusion.py': [(
"  dx = min(grid.step)\n", "  dx = grid.step[0]\n")]},
 needs='a grid whose first axis is not the finest', breaks='the recommended time step amplifies fields on anisotropic grids',
 demo='''
from jax_cfd.base import diffusion as D, boundaries as B, grids as G
g = G.Grid((6, 16), domain=((0, 6.), (0, 2.))); pb = B.periodic_boundary_conditions(2)
d = np.tile((-1.) ** np.arange(16), (6, 1))
u = G.GridVariable(G.GridArray(jnp.asarray(d), (.5, .5), g), pb)
dt = D.stable_time_step(.3, g)
w = d + dt * np.asarray(D.diffuse(u, .3).data)
sys.exit(0 if np.abs(w).max() <= 1 + 1e-9 else f'amplified to {np.abs(w).max()}')
'''),
dict(id='C17-normalise-before-project', prop='C17', edits={'jax_cfd/base/initial_conditions.py': [(
"    v = pressure.projection(v)\n    vmax = _max_speed(v)", "    vmax = _max_speed(v)\n    v = pressure.projection(v)")]},
 needs='a small number of normalisation iterations (or a field whose projection changes its maximum)', breaks='the maximum speed is not the requested one',
 demo='''
from jax_cfd.base import initial_conditions as I, grids as G
g = G.Grid((16, 12), domain=((0, 6.), (0, 3.)))
v = I.filtered_velocity_field(jax.random.PRNGKey(3), g, maximum_velocity=5., peak_wavenumber=4, iterations=1)
m = float(jnp.sqrt(sum(u.data ** 2 for u in v)).max())
sys.exit(0 if abs(m - 5) < 1e-4 else f'maximum speed {m}')
'''),
dict(id='C27-swap-location', prop='C27', edits={'jax_cfd/base/forcings.py': [(
"    x = grid.mesh(offsets[1])[0]\n    v = scale", "    x = grid.mesh(offsets[0])[0]\n    v = scale")]},
 needs='the swapped Kolmogorov force on a staggered grid', breaks='the force on the second component is evaluated at the locations of the first one',
 demo='''
from jax_cfd.base import forcings as F, boundaries as B, grids as G
g = G.Grid((8, 6), domain=((0, 2 * np.pi), (0, 2 * np.pi))); pb = B.periodic_boundary_conditions(2)
v = tuple(G.GridVariable(G.GridArray(jnp.zeros(g.shape), o, g), pb) for o in g.cell_faces)
f = F.kolmogorov_forcing(g, scale=2., k=3, swap_xy=True)(v)
x = (np.arange(8) + .5) * g.step[0]
sys.exit(0 if np.allclose(np.asarray(f[1].data), 2 * np.sin(3 * x)[:, None] * np.ones((1, 6))) else 'force not evaluated at the component location')
'''),
]
