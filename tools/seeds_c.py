SEEDS = [
dict(id='C02-middle-component', prop='C02', edits={'jax_cfd/base/boundaries.py': [(
"    bcs = {is_periodic_boundary_conditions(array, axis) for array in arrays}", "    bcs = {is_periodic_boundary_conditions(array, axis)\n           for array in (arrays[0], arrays[-1])}")]},
 needs='a three-component velocity whose middle component disagrees about periodicity', breaks='inconsistent boundary conditions are accepted',
 demo='''
from jax_cfd.base import boundaries as B, grids as G
g = G.Grid((4, 4, 4), step=1.)
p = B.periodic_boundary_conditions(3); w = B.channel_flow_boundary_conditions(3)
v = tuple(G.GridVariable(G.GridArray(jnp.zeros(g.shape), (.5,) * 3, g), b) for b in (p, w, p))
try: B.get_pressure_bc_from_velocity(v)
except Exception: sys.exit(0)
sys.exit('inconsistent components were accepted')
'''),
dict(id='C03-applied-keywords', prop='C03', edits={'jax_cfd/base/grids.py': [(
"""    offset = consistent_offset(*[
        arg for arg in args + tuple(kwargs.values())
        if isinstance(arg, GridArray)
    ])
    grid = consistent_grid(*[
        arg for arg in args + tuple(kwargs.values())
        if isinstance(arg, GridArray)
    ])""",
"""    arrays = [arg for arg in args if isinstance(arg, GridArray)]
    arrays = arrays or [
        arg for arg in kwargs.values() if isinstance(arg, GridArray)]
    offset = consistent_offset(*arrays)
    grid = consistent_grid(*arrays)""")]},
 needs='a wrapped function called with one field by position and another field by keyword', breaks='fields at different locations are combined',
 demo='''
from jax_cfd.base import grids as G
g = G.Grid((3, 3), step=1.)
a = G.GridArray(jnp.ones(g.shape), (.5, .5), g); b = G.GridArray(jnp.ones(g.shape), (1., .5), g)
f = G.applied(lambda x, y: x + y)
try: f(a, y=b)
except Exception: sys.exit(0)
sys.exit('fields at different locations were combined')
'''),
dict(id='C08-departure-location', prop='C08', edits={'jax_cfd/base/advection.py': [(
"  coords = [x - dt * interpolation.linear(u, c.offset).data\n", "  coords = [x - dt * interpolation.linear(u, grid.cell_center).data\n")]},
 needs='semi-Lagrangian transport of a scalar that is not cell-centred by a flow that varies in space', breaks='departure points use the velocity at the cell centre',
 demo='''
from jax_cfd.base import advection as A, boundaries as B, grids as G
g = G.Grid((8, 6), step=(.5, 1.)); pb = B.periodic_boundary_conditions(2)
r = np.random.default_rng(1)
v = tuple(G.GridVariable(G.GridArray(jnp.asarray(r.normal(size=g.shape)), (1., 1.), g), pb) for _ in range(2))
x, y = g.mesh((1., 1.))
c = G.GridVariable(G.GridArray(jnp.cos(2 * np.pi * x / 4.), (1., 1.), g), pb)
dt = .1
got = np.asarray(A.advect_step_semilagrangian(c, v, dt).data)
d = np.asarray(c.data); q = np.asarray((x - dt * v[0].data) / .5 - 1)
lo = np.floor(q).astype(int); f = q - lo
want = (1 - f) * d[lo % 8, 0] + f * d[(lo + 1) % 8, 0]
sys.exit(0 if np.allclose(got, want) else 'not the value at the departure point')
'''),
dict(id='C26-absolute-threshold', prop='C26', edits={'jax_cfd/base/advection.py': [(
"        abs(denominator) > 0, (abs(denominator) + abs(numerator)), 1.)", "        abs(denominator) > 1e-7, (abs(denominator) + abs(numerator)), 1.)")]},
 needs='a scalar measured in units in which it is small', breaks='the limiter depends on the unit of the scalar',
 demo='''
from jax_cfd.base import advection as A, boundaries as B, grids as G
g = G.Grid((8, 6), step=(.5, 1.)); pb = B.periodic_boundary_conditions(2)
r = np.random.default_rng(1); d = r.normal(size=g.shape)
v = tuple(G.GridVariable(G.GridArray(jnp.asarray(r.normal(size=g.shape)), o, g), pb) for o in g.cell_faces)
f = lambda s: np.asarray(A.advect_van_leer(G.GridVariable(G.GridArray(jnp.asarray(s * d), (.5, .5), g), pb), v, .1).data) / s
sys.exit(0 if np.allclose(f(1.), f(1e-9), rtol=1e-6, atol=1e-9) else 'advection is not linear in the unit of the scalar')
'''),
dict(id='C12-viscosity-density', prop='C12', edits={'jax_cfd/base/equations.py': [(
"      dv_dt += diffusion_(v, viscosity / density)", "      dv_dt += diffusion_(v, viscosity)")]},
 needs='a density other than one', breaks='explicit diffusion acts with the dynamic instead of the kinematic viscosity',
 demo='''
from jax_cfd.base import boundaries as B, equations as E, grids as G
g = G.Grid((8, 8), domain=((0, 2 * np.pi),) * 2); pb = B.periodic_boundary_conditions(2)
y = g.mesh(g.cell_faces[0])[1]
v = tuple(G.GridVariable(G.GridArray(a, o, g), pb) for a, o in zip((jnp.sin(y), jnp.zeros(g.shape)), g.cell_faces))
dt = 1e-3
w = E.semi_implicit_navier_stokes(4., .1, dt, g)(v)
h = g.step[1]; lam = (2 - 2 * np.cos(h)) / h ** 2
rate = np.asarray((w[0].data - v[0].data) / dt)
sys.exit(0 if np.allclose(rate, -.1 / 4 * lam * np.asarray(v[0].data), atol=1e-8) else 'decay rate of a shear wave')
'''),
dict(id='C19-static-domain', prop='C19', edits={'jax_cfd/base/grids.py': [(
"  domain: Tuple[Tuple[float, float], ...]\n\n  def __init__(", "  domain: Tuple[Tuple[float, float], ...] = dataclasses.field(compare=False)\n\n  def __init__(")]},
 needs='one compiled function applied to two grids of the same shape and spacing at different positions', breaks='compiled code of one grid is reused for another',
 demo='''
from jax_cfd.base import grids as G
f = jax.jit(lambda a: a.data * 0 + a.grid.mesh(a.offset)[0])
out = []
for lo in (0., 5.):
  g = G.Grid((4, 4), domain=((lo, lo + 2.), (0., 2.)))
  out.append(float(f(G.GridArray(jnp.ones(g.shape), (.5, .5), g))[0, 0]))
sys.exit(0 if np.allclose(out, [.25, 5.25]) else f'coordinates {out}')
'''),
dict(id='C18-frame-before-step', prop='C18', edits={'jax_cfd/ml/model_builder.py': [(
"    frame = carry_in if start_with_input else carry_out\n", "    frame = carry_in if start_with_input or inner_steps > outer_steps else carry_out\n")]},
 needs='more inner than outer steps', breaks='frames are one save interval late',
 demo='''
import haiku as hk
from jax_cfd.ml import model_builder as M
f = lambda x: M.trajectory_from_step(lambda y: y + 1., 2, 3, start_with_input=False, post_process_fn=lambda y: y)(x)
m = hk.without_apply_rng(hk.transform(f)); x = jnp.zeros(3)
_, t = m.apply(m.init(None, x), x)
sys.exit(0 if np.allclose(t[:, 0], [3, 6]) else f'frames {t[:, 0]}')
'''),
dict(id='C16-velocity-face', prop='C16', edits={'jax_cfd/base/resize.py': [(
"  w = arr_utils.slice_along_axis(u, direction, slice(factor - 1, None, factor))", "  w = arr_utils.slice_along_axis(\n      u, direction, slice(1 if factor == 4 else factor - 1, None, factor))")]},
 needs='coarsening by four', breaks='the wrong faces are kept, the coarse flow is not divergence-free',
 demo='''
from jax_cfd.base import resize as R
u = jnp.asarray(np.random.default_rng(0).normal(size=(8, 8)))
got = np.asarray(R.downsample_staggered_velocity_component(u, 0, 4))
want = np.asarray(u)[3::4].reshape(2, 2, 4).mean(-1)
sys.exit(0 if np.allclose(got, want) else 'faces')
'''),
dict(id='C25-split-negative-axis', prop='C25', edits={'jax_cfd/base/array_utils.py': [(
"    slc = tuple(idx if j == _normalize_axis(axis, ndim) else slice(None)\n                for j in range(ndim))",
"    slc = tuple(idx if j == _normalize_axis(axis, arrays[0].ndim)\n                else slice(None) for j in range(ndim))")]},
 needs='arrays of different rank sliced along a negative axis', breaks='arrays after the first are sliced along the wrong axis',
 demo='''
from jax_cfd.base import array_utils as U
x = (jnp.arange(4.), jnp.arange(12.).reshape(3, 4))
a, b = U.slice_along_axis(x, -1, slice(0, 2), expect_same_dims=False)
sys.exit(0 if a.shape == (2,) and b.shape == (3, 2) else f'shapes {a.shape} {b.shape}')
'''),
dict(id='C14-burgers-time', prop='C14', edits={'jax_cfd/spectral/equations.py': [(
"    f = self._forcing_fn(t)\n    fhat = jnp.fft.rfft(f)\n", "    f = self._forcing_fn(0.0 * t)\n    fhat = jnp.fft.rfft(f)\n")]},
 needs='a forced Burgers simulation observed at a later time', breaks='the forcing is frozen in time',
 demo='''
from jax_cfd.base import grids as G
from jax_cfd.spectral import equations as E
g = G.Grid((32,), domain=((0, 2 * np.pi),))
eq = E.ForcedBurgersEquation(.1, g, seed=1)
z = jnp.zeros(17, complex)
a = np.asarray(eq.explicit_terms((z, 0.))[0]); b = np.asarray(eq.explicit_terms((z, 5.))[0])
sys.exit(0 if abs(a - b).max() > 1e-3 else 'the forcing does not depend on time')
'''),
dict(id='C24-correlation-dims', prop='C24', edits={'jax_cfd/data/evaluation.py': [(
"  target = xr_utils.normalize(target, state_dims)\n", "  target = xr_utils.normalize(target, target.dims)\n")]},
 needs='a target whose magnitude changes over time or samples', breaks='the correlation is not normalised', demo='''
import xarray
from jax_cfd.data import evaluation as V
r = np.random.default_rng(0)
d = r.normal(size=(1, 3, 4, 5)) * np.array([1., 2., 3.])[None, :, None, None]
a = xarray.DataArray(np.stack([d, 2 * d]), dims=('model', 'sample', 'time', 'x', 'y'), coords=dict(model=['learned', 'ground_truth']), name='u')
c = V.state_correlation(a)
sys.exit(0 if np.allclose(c, 1) else f'correlation of proportional states {c.values}')
'''),
dict(id='C23-acceleration-dropped', prop='C23', edits={'jax_cfd/ml/equations.py': [(
"    forcing = forcings.sum_forcings(active_forcing_fn, *accelerations)", "    forcing = forcings.sum_forcings(active_forcing_fn, *accelerations[:1])")]},
 needs='a model with two or more acceleration modules', breaks='only the first acceleration acts', demo='''
import haiku as hk
from jax_cfd.base import boundaries as B, grids as G
from jax_cfd.ml import equations as E, physics_specifications as P
g = G.Grid((8, 8), domain=((0, 2 * np.pi),) * 2); pb = B.periodic_boundary_conditions(2)
def acc(s): return lambda grid, dt, physics_specs, v=None: (lambda v: tuple(G.GridArray(jnp.full(grid.shape, s * (i + 1)), u.offset, grid) for i, u in enumerate(v)))
def none(grid): return lambda v: tuple(0 * u.array for u in v)
ps = P.NavierStokesPhysicsSpecs(density=1., viscosity=1e-3, forcing_module=none)
v = tuple(G.GridVariable(G.GridArray(jnp.zeros(g.shape), o, g), pb) for o in g.cell_faces)
def run(*a):
  f = hk.without_apply_rng(hk.transform(lambda v: E.modular_navier_stokes_model(g, .1, ps, acceleration_modules=a)(v)))
  return np.asarray(f.apply(f.init(None, v), v)[0].data)
sys.exit(0 if np.allclose(run(acc(1.), acc(2.)), .3) else 'the second acceleration does not act')
'''),
]
