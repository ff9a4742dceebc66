"""C12: Navier-Stokes steps respect incompressibility, momentum and energy balance."""
import functools
import numpy as np
import jax
import jax.numpy as jnp
from jax_cfd.base import advection as ad, boundaries as B, diffusion, equations as eqs, grids as G, pressure as pr
from jax_cfd.base import time_stepping as ts
from jax_cfd.collocated import advection as cad, equations as ceq, pressure as cpr
from vlib import gen, ref, workloads
from checks.c07 import per_ref
from checks.c09 import fft_solve
from checks.c10 import div_np, project_np, cdiv, cproject
from checks.c13 import ERK

RULE = ('random solver configurations (convection scheme, stepper, viscosity, density, forcing, walls) and initial '
        'velocities; one step is compared with an independent numpy composition of the documented terms, and every state '
        'of multi-step histories is monitored for incompressibility, wall values, momentum and energy; distinct by configuration')
ASSUMPTIONS = ['float64', 'impermeable no-slip or moving walls', 'the implicit-diffusion stepper diffuses after projecting '
               '(as documented), so its result is divergence-free on periodic domains only',
               'energy decay is judged for schemes and steps where it is a theorem: monotone upwind steps, and centred '
               'steps whose viscous loss exceeds the second-order time-stepping gain']

SHP = [(6, 9), (8, 5), (7, 7), (4, 6, 5)]
SCHEMES = {'default': 'van_leer', 'upwind': 'upwind', 'van_leer': 'van_leer', 'limiters': 'van_leer', 'adv_linear': 'linear', 'linear': 'linear'}
STEPPERS = {'default': None, 'forward_euler': ts.forward_euler, 'midpoint_rk2': ts.midpoint_rk2, 'heun_rk2': ts.heun_rk2, 'classic_rk4': ts.classic_rk4}


def raw(v): return [np.asarray(u.data) for u in v]


def wrap(x, v): return tuple(gen.var(d, u.offset, u.grid, u.bc) for d, u in zip(x, v))


def force(rng, g, kind):
  """(library forcing, numpy forcing on raw velocities)."""
  nd = g.ndim
  if kind == 'none': return None, None
  if kind == 'const':
    c = rng.normal(size=nd)
    return (lambda v: tuple(G.GridArray(float(a) * jnp.ones_like(u.data), u.offset, u.grid) for a, u in zip(c, v)),
            lambda x: [a + 0 * u for a, u in zip(c, x)])
  if kind == 'field':
    d = [rng.standard_normal(g.shape) for _ in range(nd)]
    return (lambda v: tuple(gen.arr(a, u.offset, u.grid) for a, u in zip(d, v)), lambda x: d)
  k = rng.normal(size=nd) * .5  # depends on the velocity
  return (lambda v: tuple(float(a) * u.array * u.array for a, u in zip(k, v)), lambda x: [a * u * u for a, u in zip(k, x)])


def erk(table, F, P, x, dt):
  a, b, _ = ERK[table]
  ks = [F(x)]
  comb = lambda row: [u + dt * sum(c * k[i] for c, k in zip(row, ks)) for i, u in enumerate(x)]
  for row in a:
    ks.append(F(P(comb(row))))
  return P(comb(b))


def suite_compose(rng, rec, i):
  kind = ['explicit', 'explicit', 'walls', 'implicit', 'walls_implicit', 'collocated'][i % 6]
  g = gen.mild_grid(rng, shp=gen.pick(rng, SHP))
  nd = g.ndim
  nu = float(gen.pick(rng, [.01, .05, .3])); rho = float(gen.pick(rng, [.5, 1., 3.]))
  if kind in ('explicit', 'collocated') and rng.random() < .25: nu = None
  fk = gen.pick(rng, ['none', 'const', 'field', 'feedback'])
  f, fn = force(rng, g, fk)
  if kind.startswith('walls'):
    walls = rng.random(nd) < .6
    if not walls.any(): walls[rng.integers(nd)] = True
    bcs = gen.wall_velocity_bc(rng, nd, tuple(bool(w) for w in walls), tangential=False)
    v = tuple(gen.variable(rng, g, o, b, 'normal') for o, b in zip(g.cell_faces, bcs))
  else:
    v = gen.periodic_velocity(rng, g, 'normal', collocated=kind == 'collocated')
    bcs = [u.bc for u in v]
  dt = workloads.safe_dt(v, g, (nu or 0) / rho)
  conv = gen.pick(rng, list(SCHEMES)) if not kind.startswith('walls') else 'van_leer'
  if kind == 'collocated': conv = gen.pick(rng, ['default', 'linear'])
  cf = workloads.CONVECT[conv](dt)
  if kind == 'collocated' and conv == 'linear': cf = cad.convect_linear
  st = gen.pick(rng, list(STEPPERS)) if kind in ('explicit', 'walls') else 'default'
  rec.case('compose', kind, nd, conv, st, fk, nu is None, rho, sample={'kind': kind, 'grid': str(g), 'convect': conv, 'stepper': st, 'nu': nu, 'rho': rho})
  det = f'{kind} {g.shape} convect={conv} stepper={st} forcing={fk} nu={nu} rho={rho}'
  kw = {} if cf is None else {'convect': cf}
  if f is not None: kw['forcing'] = f
  scheme = SCHEMES[conv]

  def convect_np(x):
    w = wrap(x, v)
    if kind.startswith('walls'):
      fnc = ad.advect_van_leer
      return [np.asarray(fnc(u, w, dt).data) for u in w]
    if kind == 'collocated' and conv == 'linear':
      return [np.asarray(u.data) for u in cad.convect_linear(w)]
    return [per_ref(scheme, u, w, dt) for u in w]

  def lap_np(x):
    w = wrap(x, v)
    out = []
    for u in w:
      if kind == 'collocated':
        d = np.asarray(u.data)
        out.append(sum((np.roll(d, -2, a) - 2 * d + np.roll(d, 2, a)) / (4 * h * h) for a, h in enumerate(g.step)))
      else: out.append(ref.Field(u).lap())
    return out

  def F(x, diffuse=True):
    t = convect_np(x)
    if diffuse and nu is not None: t = [a + nu / rho * b for a, b in zip(t, lap_np(x))]
    if fn is not None: t = [a + b / rho for a, b in zip(t, fn(x))]
    return t

  P = lambda x: project_np(x, bcs, g)[0]
  x0 = raw(v)
  scale = max(np.abs(u).max() for u in x0) + dt * max(np.abs(a).max() for a in F(x0))
  tol = 1e-9
  if kind in ('explicit', 'walls'):
    if STEPPERS[st] is not None: kw['time_stepper'] = STEPPERS[st]
    got = eqs.semi_implicit_navier_stokes(density=rho, viscosity=nu, dt=dt, grid=g, **kw)(v)
    want = erk('forward_euler' if st == 'default' else st, F, P, x0, dt)
  elif kind in ('implicit', 'walls_implicit'):
    got = eqs.implicit_diffusion_navier_stokes(density=rho, viscosity=nu, dt=dt, grid=g, **kw)(v)
    y = P([u + dt * a for u, a in zip(x0, F(x0, False))])
    if kind == 'implicit': want = [fft_solve(u, g, nu / rho * dt) for u in y]
    else: want = [np.asarray(u.data) for u in diffusion.solve_fast_diag(wrap(y, v), nu / rho, dt)]
  else:
    tol = 1e-8
    ps = functools.partial(cpr.solve_cg, rtol=1e-13, atol=1e-13)
    got = ceq.semi_implicit_navier_stokes(density=rho, viscosity=nu, dt=dt, grid=g, pressure_solve=ps, **kw)(v)
    want = cproject([u + dt * a for u, a in zip(x0, F(x0))], g.step)
    want = want[0] if isinstance(want, tuple) and isinstance(want[0], (list, tuple)) else want
  for k, (a, w, u) in enumerate(zip(got, want, v)):
    rec.field('step equals the composition of its documented terms', a, w, u.offset, g, u.bc, tol=tol, scale=scale, detail=f'{det} component {k}')
  rec.eq('number of components', len(got), nd, det)


def suite_explicit_terms(rng, rec, i):
  """The explicit tendency equals convection + viscosity/density Laplacian + forcing/density."""
  g = gen.mild_grid(rng, shp=gen.pick(rng, SHP))
  v = gen.periodic_velocity(rng, g, 'normal')
  nu = gen.pick(rng, [None, .1]); rho = float(rng.uniform(.5, 3)); dt = workloads.safe_dt(v, g, .2)
  fk = gen.pick(rng, ['none', 'field', 'feedback']); f, fn = force(rng, g, fk)
  calls = []
  def diffuse(u, c):
    calls.append(float(c)); return diffusion.diffuse(u, c)
  rec.case('terms', g.shape, fk, nu is None)
  t = eqs.navier_stokes_explicit_terms(rho, nu, dt, g, diffuse=diffuse, forcing=f)(v)
  x = raw(v)
  for k, (a, u) in enumerate(zip(t, v)):
    want = per_ref('van_leer', u, v, dt)
    if nu is not None: want = want + nu / rho * ref.plap(x[k], g.step)
    if fn is not None: want = want + fn(x)[k] / rho
    rec.field('explicit tendency', a, want, u.offset, g, u.bc, tol=1e-10, scale=np.abs(want).max() + 1, detail=f'{g.shape} {fk} {nu}')
  rec.eq('diffusion is called once per component with viscosity/density', [round(c, 12) for c in calls],
         [] if nu is None else [round(nu / rho, 12)] * g.ndim)


def suite_history(rng, rec, i):
  """Online monitoring of every state of random simulations."""
  s = workloads.simulation(rng, pool=SHP)
  g, v = s.grid, s.v
  rec.case('history', s.kind, s.convect, s.stepper, s.fkind, s.walls, sample={'grid': str(g), 'kind': s.kind, 'convect': s.convect, 'nu': s.nu})
  det = f'{s.kind} {g.shape} {s.convect} {s.stepper} {s.fkind} nu={s.nu} walls={s.walls}'
  bcs = [u.bc for u in v]
  step = jax.jit(s.step)
  prev = raw(v)
  col = s.kind == 'collocated'
  for k in range(6):
    w = step(v)
    x = raw(w)
    for a, b in zip(v, w):
      rec.field('every state keeps locations, grid and boundary conditions', b, None, a.offset, g, a.bc, detail=det)
    if not all(np.isfinite(u).all() for u in x): rec.ok('states stay finite', False, det); break
    sc = max(np.abs(u).max() for u in x) / min(g.step) + 1e-12
    if s.kind != 'walls_implicit':
      d = cdiv(x, g.step) if col else div_np(x, bcs, g)
      rec.small('every state is discretely divergence-free', d, sc, tol=1e-7 if col else 1e-9, detail=f'{det} step {k}')
    for ax, (u, b) in enumerate(zip(x, bcs)):
      if b.types[ax][1] == B.BCType.DIRICHLET:
        rec.close('every state keeps its wall velocities', np.moveaxis(u, ax, 0)[-1],
                  np.full(np.moveaxis(u, ax, 0)[-1].shape, b.bc_values[ax][1]), tol=1e-11, scale=1, detail=det)
    if not any(s.walls) and s.fkind in ('none', 'const', 'kolmogorov', 'les'):
      f = None
      if s.fkind in ('const', 'kolmogorov'):
        f = [np.asarray(y.data).mean() / s.rho for y in s.forcing(v)]
      for j, (a, b) in enumerate(zip(prev, x)):
        want = a.mean() + (s.dt * f[j] if f else 0)
        rec.close('mean momentum changes only by the forcing', b.mean(), want, tol=1e-10, scale=np.abs(a).max() + 1e-12, detail=f'{det} component {j}')
    v, prev = w, x


def energy(x): return sum(float((u ** 2).sum()) for u in x)


def suite_energy(rng, rec, i):
  g = gen.mild_grid(rng, shp=gen.pick(rng, SHP))
  v = pr.projection(gen.periodic_velocity(rng, g, 'normal'))
  rho = float(gen.pick(rng, [.5, 1., 3.])); nu = float(gen.pick(rng, [0., .02, .2])) * rho
  mode = gen.pick(rng, ['upwind', 'upwind_implicit', 'centred'])
  vmax = [np.abs(np.asarray(u.data)).max() for u in v]
  adv = sum(2 * a / h for a, h in zip(vmax, g.step)); dif = sum(2 * nu / rho / h ** 2 for h in g.step)
  if mode == 'upwind':
    st = gen.pick(rng, [ts.forward_euler, ts.heun_rk2]); dt = .45 / (adv + dif)
    step = eqs.semi_implicit_navier_stokes(density=rho, viscosity=nu, dt=dt, grid=g, convect=workloads.CONVECT['upwind'](dt), time_stepper=st)
  elif mode == 'upwind_implicit':
    dt = .45 / adv
    step = eqs.implicit_diffusion_navier_stokes(density=rho, viscosity=nu, dt=dt, grid=g, convect=workloads.CONVECT['upwind'](dt))
  else:
    nu = max(nu, .05 * rho); dif = sum(2 * nu / rho / h ** 2 for h in g.step); dt = .05 / (adv + dif)
    step = eqs.semi_implicit_navier_stokes(density=rho, viscosity=nu, dt=dt, grid=g, convect=workloads.CONVECT['linear'](dt))
  rec.case('energy', mode, g.shape, nu > 0, rho)
  step = jax.jit(step)
  E = energy(raw(v)); m = None
  for k in range(10):
    x = raw(v)
    w = step(v)
    E1 = energy(raw(w))
    judge = True
    if mode == 'centred':
      t = ad.convect_linear(v)
      gain = dt ** 2 * sum(float(((np.asarray(a.data) + nu / rho * ref.plap(u, g.step)) ** 2).sum()) for a, u in zip(t, x))
      loss = -2 * dt * nu / rho * sum(float((u * ref.plap(u, g.step)).sum()) for u in x)
      judge = gain < loss
      if judge:
        rec.leq('centred viscous flow loses the viscous dissipation', E1, E - loss + gain, slack=1e-9 * E, detail=f'{g.shape} nu={nu} rho={rho}')
    if judge:
      rec.leq('unforced flow never gains kinetic energy', E1, E, slack=1e-11 * E, detail=f'{mode} {g.shape} nu={nu} step {k}')
    E, v = E1, w


def suite_rest(rng, rec, i):
  kind = ['explicit', 'implicit', 'walls', 'walls_implicit', 'collocated', 'les'][i % 6]
  s = workloads.simulation(rng, kind=kind, pool=SHP)
  g = s.grid
  if s.fkind in ('kolmogorov', 'sum', 'const'):
    rec.skip('forced'); rec.case('rest forced', kind); return
  rec.case('rest', kind, s.convect, s.stepper, s.walls)
  c = [0.] * g.ndim
  if s.fkind == 'none' and not any(s.walls): c = [float(x) * (1 if k else 0) for k, x in zip([rng.random() < .7] * g.ndim, rng.normal(size=g.ndim) * .1)]
  v = wrap([np.full(g.shape, a) for a in c], s.v)
  for k in range(3):
    w = jax.jit(s.step)(v) if k == 0 else s.step(w)
    for a, u in zip(c, w):
      rec.close('fluid at rest or in uniform motion stays so', u, np.full(g.shape, a), tol=1e-11, scale=1., detail=f'{kind} {s.convect} {g.shape}')


def suite_dt(rng, rec, i):
  g = gen.grid(rng, shp=gen.pick(rng, SHP + [(5,), (12,)]))
  nd = g.ndim
  vm = float(rng.uniform(.1, 5)); c = float(rng.uniform(.1, 1)); nu = float(10 ** rng.uniform(-4, 1))
  adv = c * min(g.step) / vm; dif = min(g.step) ** 2 / (nu * 2 ** nd)
  rec.case('dt', nd, g.shape, adv < dif)
  rec.close('implicit stable step is the advective one', eqs.stable_time_step(vm, c, nu, g, implicit_diffusion=True), adv, tol=1e-6)
  if abs(adv - dif) < 1e-6 * dif: return
  if dif < adv:
    rec.raises('diffusively unstable step rejected', lambda: eqs.stable_time_step(vm, c, nu, g), ValueError, f'{adv} {dif}')
  else:
    rec.close('explicit stable step', eqs.stable_time_step(vm, c, nu, g), adv, tol=1e-6)
  v = gen.periodic_velocity(rng, g, 'normal')
  sp = np.sqrt(sum(u ** 2 for u in raw(v)).max())
  rec.close('dynamic step uses the maximum speed', eqs.dynamic_time_step(v, c, nu, g, implicit_diffusion=True), c * min(g.step) / sp, tol=1e-6)


def suite_taylor_green(rng, rec, i):
  """The solver converges to the exact decaying vortex (arbitrary aspect ratio, offset and units)."""
  Lx, Ly = [float(x) for x in rng.uniform(1, 4, 2)]
  lo = rng.normal(size=2)
  kx, ky = 2 * np.pi / Lx, 2 * np.pi / Ly
  rho = float(rng.uniform(.5, 2)); nu = float(rng.uniform(.02, .1)) * rho * min(Lx, Ly) ** 2 / 10
  U = float(rng.uniform(.5, 1.5)); T = .1 * min(Lx, Ly) / U
  implicit = rng.random() < .4
  conv = gen.pick(rng, ['linear', 'default', 'limiters'])
  ph = rng.uniform(0, 2 * np.pi, 2)
  rec.case('taylor-green', np.round([Lx, Ly], 2), implicit, conv)
  errs = []
  for n in (16, 32):
    g = G.Grid((n, n), domain=((lo[0], lo[0] + Lx), (lo[1], lo[1] + Ly)))
    fu = lambda x, y: U * np.cos(kx * x + ph[0]) * np.sin(ky * y + ph[1])
    fv = lambda x, y: -U * kx / ky * np.sin(kx * x + ph[0]) * np.cos(ky * y + ph[1])
    ev = lambda f, o: f(*np.meshgrid(*[a + (np.arange(n) + q) * h for (a, _), q, h in zip(g.domain, o, g.step)], indexing='ij'))
    pb = B.periodic_boundary_conditions(2)
    v = tuple(gen.var(ev(f, o), o, g, pb) for f, o in zip((fu, fv), g.cell_faces))
    steps = {16: 24, 32: 96}[n]; dt = T / steps
    kw = dict(density=rho, viscosity=nu, dt=dt, grid=g)
    cf = workloads.CONVECT[conv](dt)
    if cf is not None: kw['convect'] = cf
    step = eqs.implicit_diffusion_navier_stokes(**kw) if implicit else eqs.semi_implicit_navier_stokes(time_stepper=ts.midpoint_rk2, **kw)
    v = jax.jit(lambda v: jax.lax.fori_loop(0, steps, lambda _, w: step(w), v))(v)
    dec = np.exp(-nu / rho * (kx ** 2 + ky ** 2) * T)
    e = max(np.abs(np.asarray(u.data) - dec * ev(f, o)).mean() / np.abs(ev(f, o)).max() for u, f, o in zip(v, (fu, fv), g.cell_faces))
    errs.append(e)
  det = f'L={Lx:.2f},{Ly:.2f} rho={rho:.2f} nu={nu:.3f} implicit={implicit} {conv}: errors {errs}'
  rec.leq('error against the exact vortex is small', errs[1], .004, detail=det)
  rec.leq('error against the exact vortex converges', errs[1], errs[0] / 2.5 + 1e-6, detail=det)


SUITES = {
    'compose': (suite_compose, 60, 3000),
    'explicit_terms': (suite_explicit_terms, 10, 600),
    'history': (suite_history, 22, 1500),
    'energy': (suite_energy, 24, 1500),
    'rest': (suite_rest, 12, 300),
    'dt': (suite_dt, 40, 1000),
    'taylor_green': (suite_taylor_green, 6, 200),
}
REQUIRED = ['step equals the composition of its documented terms', 'every state is discretely divergence-free',
            'mean momentum changes only by the forcing', 'unforced flow never gains kinetic energy',
            'fluid at rest or in uniform motion stays so', 'error against the exact vortex converges']
