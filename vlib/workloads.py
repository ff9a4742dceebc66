"""Real solver configurations that the monitors observe while they run (eagerly)."""
import functools
import numpy as np
import jax
import jax.numpy as jnp
from jax_cfd.base import advection, boundaries as B, diffusion, equations, forcings
from jax_cfd.base import grids as G, pressure, subgrid_models, time_stepping
from jax_cfd import collocated
from jax_cfd.collocated import equations as cequations
from jax_cfd.collocated import advection as cadvection
from jax_cfd.collocated import pressure as cpressure
from vlib import gen

CONVECT = {
    'linear': lambda dt: advection.convect_linear,
    'upwind': lambda dt: (lambda v: tuple(advection.advect_upwind(u, v, dt) for u in v)),
    'van_leer': lambda dt: (lambda v: tuple(advection.advect_van_leer(u, v, dt) for u in v)),
    'limiters': lambda dt: (lambda v: tuple(
        advection.advect_van_leer_using_limiters(u, v, dt) for u in v)),
    'adv_linear': lambda dt: (lambda v: tuple(advection.advect_linear(u, v, dt) for u in v)),
    'default': lambda dt: None,
}
STEPPERS = {'euler': time_stepping.forward_euler, 'midpoint': time_stepping.midpoint_rk2,
            'heun': time_stepping.heun_rk2, 'rk4': time_stepping.classic_rk4}


class Sim:
  def __init__(self, **kw):
    self.__dict__.update(kw)


def project_np(v):
  return pressure.projection(v)


def safe_dt(v, g, nu, courant=0.35):
  """Explicitly stable step for these velocities (own formula)."""
  vmax = max(float(np.max(np.abs(np.asarray(u.data)))) for u in v) + 1e-12
  dt = courant / (sum(vmax / h for h in g.step))
  if nu:
    dt = min(dt, 0.35 / (nu * sum(2 / h ** 2 for h in g.step)))
  return dt


def make_forcing(rng, g, v):
  k = gen.pick(rng, ['none', 'none', 'kolmogorov', 'linear', 'sum', 'const'])
  if k == 'none' or (g.ndim == 1):
    return None, k
  if k == 'kolmogorov':
    if g.ndim not in (2, 3):
      return None, 'none'
    return forcings.kolmogorov_forcing(g, scale=float(rng.uniform(.1, 1)), k=int(rng.integers(1, 4))), k
  if k == 'linear':
    return forcings.linear_forcing(g, float(rng.uniform(-.3, .3))), k
  if k == 'sum':
    return forcings.sum_forcings(
        forcings.kolmogorov_forcing(g, scale=float(rng.uniform(.1, 1)), k=2),
        forcings.linear_forcing(g, -0.1)), k
  fs = [float(x) for x in rng.normal(size=g.ndim)]
  def const(v):
    return tuple(G.GridArray(f * jnp.ones_like(u.data), u.offset, u.grid) for f, u in zip(fs, v))
  const.vals = fs
  return const, k


def late(module, name):
  """Looks the routine up when it runs, so that installed monitors see the call."""
  return lambda *a, **k: getattr(module, name)(*a, **k)


def simulation(rng, kind=None, ndim=None, pool=None):
  """Random admissible solver configuration with its initial velocity."""
  kind = kind or gen.pick(rng, ['explicit', 'explicit', 'implicit', 'walls', 'walls_implicit',
                                'collocated', 'les'])
  if kind == 'collocated':
    if pool is not None:
      pool = [x for x in pool if len(x) == (ndim or 2)] or None
    g = gen.mild_grid(rng, ndim or 2, pool=pool)
    v = gen.periodic_velocity(rng, g, 'normal', collocated=True)
    v = cpressure.projection(v, functools.partial(cpressure.solve_cg, rtol=1e-12, atol=1e-12))
    nu = float(gen.pick(rng, [0.0, 1e-3, 0.05])); rho = float(gen.pick(rng, [1.0, 0.5, 2.0]))
    dt = safe_dt(v, g, nu / rho, 0.2)
    conv = gen.pick(rng, ['default', 'linear'])
    f, fk = make_forcing(rng, g, v)
    if fk in ('kolmogorov', 'sum'):
      f, fk = None, 'none'
    cf = cadvection.convect_linear if conv == 'linear' else None
    ps = functools.partial(cpressure.solve_cg, rtol=1e-12, atol=1e-13)
    step = cequations.semi_implicit_navier_stokes(
        density=rho, viscosity=nu, dt=dt, grid=g, convect=cf, forcing=f, pressure_solve=ps)
    return Sim(kind=kind, grid=g, v=v, step=step, dt=dt, nu=nu, rho=rho, convect=conv,
               forcing=f, fkind=fk, stepper='euler', walls=(False,) * g.ndim)
  nd = ndim or int(rng.choice([2, 2, 3]))
  if pool is not None:
    pool = [x for x in pool if len(x) == nd] or None
  walls = (False,) * nd
  if kind.startswith('walls'):
    g = gen.mild_grid(rng, nd, pool=pool)
    walls = [bool(x) for x in rng.random(nd) < 0.6]
    if not any(walls):
      walls[int(rng.integers(nd))] = True
    walls = tuple(walls)
    one_axis = kind == 'walls_implicit'
    bcs = gen.wall_velocity_bc(rng, nd, walls, tangential=False)
    v = tuple(gen.variable(rng, g, o, b, 'normal') for o, b in zip(g.cell_faces, bcs))
    v = pressure.projection(v)
    conv = 'van_leer'
    nu = float(gen.pick(rng, [1e-3, 0.02, 0.1])); rho = 1.0
  else:
    g = gen.mild_grid(rng, nd, pool=pool)
    v = pressure.projection(gen.periodic_velocity(rng, g, 'normal'))
    conv = gen.pick(rng, list(CONVECT))
    nu = float(gen.pick(rng, [0.0, 1e-3, 0.05, 0.3])); rho = float(gen.pick(rng, [1.0, 1.0, 0.5, 3.0]))
  f, fk = make_forcing(rng, g, v)
  if kind.startswith('walls') and fk == 'kolmogorov':
    pass
  implicit = kind in ('implicit', 'walls_implicit')
  dt = safe_dt(v, g, 0.0 if implicit else nu / rho)
  cf = CONVECT[conv](dt)
  stepper = 'euler'
  if kind == 'les':
    nu = 1e-3
    dt = safe_dt(v, g, 5.0 * max(g.step) ** 2 * 0.1, 0.2) * 0.2
    cs = float(rng.uniform(.05, .2))
    vis = functools.partial(subgrid_models.smagorinsky_viscosity, dt=dt, cs=cs)
    f, fk = None, 'none'
    try:
      sgs = functools.partial(subgrid_models.evm_model, viscosity_fn=functools.partial(
          subgrid_models.smagorinsky_viscosity, dt=dt, cs=cs))
    except Exception:
      sgs = None
    f = sgs
    fk = 'les'
  if implicit:
    step = equations.implicit_diffusion_navier_stokes(
        density=rho, viscosity=nu, dt=dt, grid=g, convect=cf, forcing=f,
        diffusion_solve=late(diffusion, 'solve_fast_diag'), pressure_solve=late(pressure, 'solve_fast_diag'))
  else:
    stepper = gen.pick(rng, list(STEPPERS))
    step = equations.semi_implicit_navier_stokes(
        density=rho, viscosity=nu, dt=dt, grid=g, convect=cf, forcing=f,
        diffuse=late(diffusion, 'diffuse'), pressure_solve=late(pressure, 'solve_fast_diag'),
        time_stepper=STEPPERS[stepper])
  return Sim(kind=kind, grid=g, v=v, step=step, dt=dt, nu=nu, rho=rho, convect=conv,
             forcing=f, fkind=fk, stepper=stepper, walls=walls)
