"""C09: diffusion is consistent and its implicit solves satisfy their equation."""
import numpy as np
import jax
import jax.numpy as jnp
from jax_cfd.base import boundaries as B, grids as G, diffusion as df, array_utils as au
from jax_cfd.collocated import diffusion as cdf
from vlib import gen, ref, monitors, workloads
from vlib.gen import P, Dd, N

RULE = ('random field, location, anisotropic grid (1-3D), boundary types and values per side, viscosity and '
        'time step (from 1e-8 to 1e4 in units of the diffusive limit); distinct by (suite, types, location, '
        'shape, regime)')
ASSUMPTIONS = ['float64 except the float32 suite', 'samples lying on a Dirichlet wall are judged against the wall '
               'value, all others against the difference equation',
               'conjugate gradient diffusion is claimed on periodic domains (the library rejects others)']


def lap_ref(x, off, g, bc):
  return np.asarray(ref.Field(gen.var(np.asarray(x), off, g, bc)).lap())


def s_explicit(rng, rec, i):
  g = gen.grid(rng)
  bc = gen.bc(rng, g.ndim)
  off = gen.admissible_offset(rng, bc.types)
  u = gen.variable(rng, g, off, bc)
  nu = float(10. ** rng.uniform(-4, 2))
  want = nu * ref.Field(u).lap()
  sc = nu * (np.abs(u.data).max() + 2 + 2 * max(g.step)) * sum(4 / h ** 2 for h in g.step)
  rec.case(bc.types, off, g.shape)
  m = ~gen.wall_mask(g, off, bc)
  out = df.diffuse(u, nu)
  rec.field('explicit', out, None, offset=off, grid=g)
  rec.close('explicit', np.asarray(out.data)[m], want[m], tol=1e-11, scale=sc, detail=f'{bc} {off} {g}')
  pb = B.periodic_boundary_conditions(g.ndim)
  w = gen.var(u.data, off, g, pb)
  d = np.asarray(u.data)
  wide = sum((np.roll(d, -2, a) - 2 * d + np.roll(d, 2, a)) / (4 * h ** 2) for a, h in enumerate(g.step))
  if len(set(off)) == 1 and off[0] == .5:
    rec.field('explicit-collocated', cdf.diffuse(w, nu), nu * wide, offset=off, grid=g, tol=1e-11, scale=sc)
  rec.small('zero viscosity', df.diffuse(u, 0.), 1., 1e-300)


def s_stable(rng, rec, i):
  g = gen.grid(rng)
  walls = rng.random() < .5
  bc = gen.bc(rng, g.ndim, zero=True) if walls else B.periodic_boundary_conditions(g.ndim)
  off = gen.admissible_offset(rng, bc.types)
  nu = float(10. ** rng.uniform(-4, 2))
  dt = df.stable_time_step(nu, g)
  rec.eq('stable: inviscid', df.stable_time_step(0., g), float('inf'))
  rec.ok('stable: useful', 0 < dt and dt * nu * sum(2 / h ** 2 for h in g.step) >
         2. ** -g.ndim, f'time step {dt} is uselessly small on {g}')
  rec.case(bc.types, off, g.shape)
  alt = np.indices(g.shape).sum(0) % 2 * 2. - 1
  base = gen.array(rng, g.shape)
  for d in (base, alt, alt * np.abs(base).max() + .3 * base):
    d = gen.wall_fix(d, g, off, bc)
    x = d
    for k in range(2):
      n = x + dt * np.asarray(df.diffuse(gen.var(x, off, g, bc), nu).data)
      n = gen.wall_fix(n, g, off, bc)
      S = np.abs(x).max() + 1e-300
      rec.leq('stable: L2', np.sqrt((n ** 2).sum()), np.sqrt((x ** 2).sum()), 1e-9 * S, f'{bc} {off} {g}')
      if not walls:
        rec.leq('stable: max', n.max(), x.max(), 1e-10 * S); rec.leq('stable: max', x.min(), n.min(), 1e-10 * S)
        rec.close('mean', n.mean(), x.mean(), tol=1e-11, scale=S)
      x = n


def judge_solve(rec, name, u, x, nu, dt, tol=1e-9):
  """u before, x after an implicit diffusion solve."""
  g, bc, off = u.grid, u.bc, u.offset
  det = f'{bc} offset {off} {g} nu*dt={nu * dt:.3g}'
  rec.field(name + ':meta', x, None, offset=off, grid=g, bc=bc, detail=det)
  a = np.asarray(x.data)
  if not rec.ok(name + ':meta', a.shape == u.data.shape and np.isfinite(a).all(), det): return
  rec.eq(name + ':meta', str(a.dtype), str(u.dtype), 'dtype')
  u0 = gen.wall_fix(np.asarray(u.data), g, off, bc)
  m = ~gen.wall_mask(g, off, bc)
  fixed = gen.wall_fix(a, g, off, bc)
  cnt = ~m
  corner = np.abs(fixed - a)
  # corners on two walls may carry either value: only judge samples on one wall
  one = np.zeros(g.shape, int)
  for ax in range(g.ndim):
    for side in (0, 1):
      if bc.types[ax][side] == Dd:
        j = (0 if side == 0 else g.shape[ax]) - off[ax]
        if abs(j - round(j)) < 1e-9 and 0 <= round(j) < g.shape[ax]:
          np.moveaxis(one, ax, 0)[int(round(j))] += 1
  bmax = max([abs(v) for p in bc.bc_values for v in p if v is not None] + [0.])
  S = np.abs(u0).max() + bmax * (1 + max(g.step)) + 1e-300
  if (one == 1).any():
    rec.small(name + ':wall values', corner[one == 1], S, 1e-9, detail=det)
  lam = sum(4 / h ** 2 for h in g.step)
  r = a - nu * dt * lap_ref(a, off, g, bc) - u0
  rec.small(name + ':residual', r[m], S * (1 + nu * dt * lam), tol, detail=det)
  types = {t for p in bc.types for t in p}
  zero_flux = all(v in (None, 0.) for p, t in zip(bc.bc_values, bc.types) for v, tt in zip(p, t) if tt == N)
  if zero_flux:
    dv = [v for p, t in zip(bc.bc_values, bc.types) for v, tt in zip(p, t) if tt == Dd]
    lo = min([u0[m].min()] + dv); hi = max([u0[m].max()] + dv)
    rec.leq(name + ':max principle', a.max(), hi, tol * S * 10, det)
    rec.leq(name + ':max principle', lo, a.min(), tol * S * 10, det)
    if Dd not in types:
      rec.close(name + ':mean', a.mean(), u0.mean(), tol=tol, scale=S, detail=det)


def regime(rng, g):
  lam = sum(4 / h ** 2 for h in g.step)
  k = gen.pick(rng, ['tiny', 'small', 'unit', 'large', 'huge'])
  ndt = {'tiny': 1e-8, 'small': 1e-3, 'unit': 1., 'large': 1e2, 'huge': 1e4}[k] * rng.uniform(.5, 2) / lam
  dt = float(10. ** rng.uniform(-3, 0))
  return k, ndt / dt, dt


def s_implicit(rng, rec, i):
  """Each component may carry its own boundary conditions and location."""
  g = gen.grid(rng, shp=gen.pick(rng, [(7,), (12,), (6, 9), (8, 5), (12, 8), (4, 6, 5), (5, 3, 7)]))
  k, nu, dt = regime(rng, g)
  v = []
  allp = rng.random() < .2
  for c in range(int(rng.integers(1, 4))):
    bc = B.periodic_boundary_conditions(g.ndim) if allp else gen.bc(rng, g.ndim)
    v.append(gen.variable(rng, g, gen.admissible_offset(rng, bc.types), bc, fix=bool(rng.random() < .8)))
  rec.case([(u.bc.types, u.offset) for u in v], k, g.shape)
  out = df.solve_fast_diag(tuple(v), nu, dt)
  rec.eq('implicit:count', len(out), len(v))
  for u, x in zip(v, out):
    judge_solve(rec, 'implicit', u, x, nu, dt)
    if k == 'tiny':  # the increment itself must be accurate, not only the sum
      u0 = gen.wall_fix(np.asarray(u.data), g, u.offset, u.bc)
      l = lap_ref(u0, u.offset, g, u.bc); m = ~gen.wall_mask(g, u.offset, u.bc)
      S = np.abs(u0).max() + 1
      rec.close('implicit:increment', (np.asarray(x.data) - u0)[m], nu * dt * l[m], tol=1e-5,
                scale=nu * dt * np.abs(l).max() + 1e-9 * S)
  z = df.solve_fast_diag(tuple(v), 0., dt)
  for u, x in zip(v, z):
    m = ~gen.wall_mask(g, u.offset, u.bc)
    rec.close('implicit:inviscid', np.asarray(x.data)[m], np.asarray(u.data)[m], tol=1e-13)


def fft_solve(d, g, ndt):
  lam = 0
  for a, (n, h) in enumerate(zip(d.shape, g.step)):
    s = [1] * d.ndim; s[a] = n
    lam = lam + ((2 * np.cos(2 * np.pi * np.fft.fftfreq(n)) - 2) / h ** 2).reshape(s)
  return np.real(np.fft.ifftn(np.fft.fftn(d) / (1 - ndt * lam)))


def s_solvers(rng, rec, i):
  g = gen.mild_grid(rng, shp=gen.pick(rng, [(8,), (7,), (6, 8), (9, 6), (8, 5), (4, 6, 6)]))
  k, nu, dt = regime(rng, g)
  if k == 'huge': k, nu = 'unit', nu * 1e-4
  pb = B.periodic_boundary_conditions(g.ndim)
  f32 = rng.random() < .3
  off = gen.admissible_offset(rng, pb.types)
  d = gen.array(rng, g.shape).astype(np.float32 if f32 else np.float64)
  u = (gen.var(d, off, g, pb),)
  want = fft_solve(np.asarray(d, float), g, nu * dt)
  S = np.abs(d).max() + 1e-30
  rec.case(k, f32, g.shape, off)
  tol = 2e-5 if f32 else 1e-10
  for impl in (None, 'matmul', 'fft', 'rfft'):
    if impl == 'rfft' and g.shape[-1] % 2:
      rec.raises('rfft-odd', lambda: df.solve_fast_diag(u, nu, dt, implementation='rfft'), ValueError)
      continue
    x, = df.solve_fast_diag(u, nu, dt, implementation=impl)
    rec.field('solvers agree', x, want, offset=off, grid=g, bc=pb, tol=tol, scale=S, detail=f'{impl} f32={f32} {g} {k}')
    rec.eq('solvers agree', str(x.dtype), str(d.dtype), f'dtype {impl}')
  tcg = 1e-5 if f32 else 1e-12
  x, = df.solve_cg(u, nu, dt, rtol=tcg, atol=tcg * S)
  rec.field('cg', x, want, offset=off, grid=g, bc=pb, tol=20 * tcg * (1 + nu * dt) * np.sqrt(d.size), scale=S, detail=f'{g} {k}')
  x, = df.solve_cg(u, nu, dt)
  r = np.asarray(x.data, float) - nu * dt * ref.plap(np.asarray(x.data, float), g.step) - d
  rec.leq('cg-default', np.sqrt((r ** 2).sum()), max(1.1e-6 * np.sqrt((d.astype(float) ** 2).sum()), 1.1e-6),
          slack=(1e-5 if f32 else 1e-12) * S * d.size * (1 + nu * dt * sum(4 / h ** 2 for h in g.step)))
  wb = gen.bc(rng, g.ndim, allow=('d', 'n'))
  w = gen.variable(rng, g, g.cell_center, wb)
  rec.raises('cg-walls', lambda: df.solve_cg((w,), nu, dt), ValueError)
  rec.raises('cg-walls', lambda: cdf.diffuse(w, nu), ValueError, 'collocated diffusion is periodic')


def s_tolerance(rng, rec, i):
  """Iterative solves meet the tolerances they are given, whatever the scale of the field."""
  U = float(10. ** rng.integers(-9, 7)); r = float(10. ** rng.integers(-10, -2))
  g = gen.mild_grid(rng, shp=gen.pick(rng, [(12,), (8, 6), (6, 9), (4, 6, 5)]))
  v = tuple(gen.var(U * rng.standard_normal(g.shape), o, g, B.periodic_boundary_conditions(g.ndim)) for o in g.cell_faces)
  nu = float(np.exp(rng.uniform(-2, 3))) * min(g.step) ** 2; dt = float(rng.uniform(.2, 2))
  rec.case('tolerance', g.shape, int(np.log10(U)), int(np.log10(r)))
  n0 = [np.sqrt((np.asarray(u.data) ** 2).sum()) for u in v]
  for nm, kw in [('relative', dict(rtol=r, atol=0.)), ('absolute', dict(rtol=0., atol=r * min(n0))), ('both', dict(rtol=r, atol=1e-3 * r * min(n0))),
                 ('both', dict(rtol=1e-3 * r, atol=r * min(n0)))]:
    for u, n, x in zip(v, n0, df.solve_cg(v, nu, dt, **kw)):
      y = np.asarray(x.data); res = y - nu * dt * ref.plap(y, g.step) - np.asarray(u.data)
      rec.leq('tolerance', np.sqrt((res ** 2).sum()), 1.05 * r * n, 1e-13 * n * (1 + nu * dt * sum(4 / h ** 2 for h in g.step)), detail=f'{nm} {kw} scale {U:g} {g}')


def s_sim(rng, rec, i):
  s = workloads.simulation(rng, gen.pick(rng, ['explicit', 'implicit', 'walls', 'walls_implicit']),
                           pool=[(8, 5), (6, 9), (4, 6, 5)])
  rec.case(s.kind, s.walls, s.grid.shape)
  def exp(rec, a, out):
    u = a['c']
    m = ~gen.wall_mask(u.grid, u.offset, u.bc)
    nu = float(a['nu'])
    sc = nu * (np.abs(u.data).max() + 1) * sum(4 / h ** 2 for h in u.grid.step) + 1e-300
    rec.close('sim.diffuse', np.asarray(out.data)[m], nu * ref.Field(u).lap()[m], tol=1e-10, scale=sc)
  def imp(rec, a, out):
    for u, x in zip(a['v'], out):
      judge_solve(rec, 'sim.implicit', u, x, float(a['nu']), float(a['dt']))
  v = s.v
  with monitors.hook([(df, 'diffuse', exp), (df, 'solve_fast_diag', imp)], rec):
    with jax.disable_jit():
      for _ in range(2):
        v = s.step(v)


SUITES = {
    'explicit': (s_explicit, 80, 1500),
    'stable': (s_stable, 60, 600),
    'implicit': (s_implicit, 90, 2000),
    'solvers': (s_solvers, 24, 500),
    'tolerance': (s_tolerance, 8, 200),
    'sim': (s_sim, 12, 200),
}
REQUIRED = ['explicit', 'explicit-collocated', 'stable: L2', 'stable: max', 'implicit:residual', 'implicit:wall values',
            'implicit:max principle', 'implicit:mean', 'solvers agree', 'cg', 'cg-walls', 'tolerance']
