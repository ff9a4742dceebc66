"""C08: monotone advection schemes create no new extrema or variation."""
import numpy as np
import jax
import jax.numpy as jnp
from jax_cfd.base import boundaries as B, grids as G, advection as ad, interpolation as ip
from vlib import gen, ref, monitors
from checks.c06 import lin_np

RULE = ('random scalars (noise, spikes, steps) advected by random divergence-free flows (staggered stream '
        'functions, uniform flows, impermeable walls) with a time step at a random fraction of the stability '
        'limit, over several steps; distinct by (scheme, ndim, Courant number, content)')
ASSUMPTIONS = ['float64', 'flux-limited bounds are claimed for one-dimensional (uniform, axis-aligned) transport, '
               'upwind and semi-Lagrangian bounds for any divergence-free flow']


def outflow(v, g):
  """Largest total outflow rate of any cell (upwind stability limit 1/rate)."""
  r = 0
  for ax, (u, h) in enumerate(zip(v, g.step)):
    a = np.asarray(u.data)
    r = r + (np.maximum(a, 0) + np.maximum(-np.roll(a, 1, ax), 0)) / h
  return float(r.max()) + 1e-12


def s_upwind(rng, rec, i):
  g = gen.mild_grid(rng, shp=gen.pick(rng, [(12,), (6, 9), (8, 5), (5, 4, 6)]))
  pb = B.periodic_boundary_conditions(g.ndim)
  v = tuple(gen.var(u, o, g, pb) for u, o in zip(gen.stream_velocity(rng, g), g.cell_faces))
  c = gen.variable(rng, g, g.cell_center, pb)
  frac = float(gen.pick(rng, [.3, .9, 1.0]))
  dt = frac / outflow(v, g)
  lo, hi = float(c.data.min()), float(c.data.max()); S = abs(lo) + abs(hi) + 1e-12
  d = np.asarray(c.data); m0 = d.sum()
  rec.case('upwind', g.ndim, frac, g.shape)
  for k in range(3):
    c = gen.var(np.asarray(c.data) + dt * np.asarray(ad.advect_upwind(c, v, dt).data), g.cell_center, g, pb)
    d = np.asarray(c.data)
    rec.leq('upwind-max', d.max(), hi, 1e-10 * S, f'step {k} fraction {frac} {g}')
    rec.leq('upwind-max', lo, d.min(), 1e-10 * S, f'step {k}')
    hi, lo = float(d.max()), float(d.min())
    rec.close('upwind-mass', d.sum(), m0, tol=1e-11, scale=S * d.size)


def s_tvd(rng, rec, i):
  """Uniform flow along one axis: every line behaves like a 1-D TVD scheme."""
  g = gen.mild_grid(rng, shp=gen.pick(rng, [(12,), (6, 9), (8, 5), (5, 6, 7)]))
  nd = g.ndim
  pb = B.periodic_boundary_conditions(nd)
  ax = int(rng.integers(nd))
  U = float(rng.normal()) + .05
  v = tuple(gen.var(np.full(g.shape, U if a == ax else 0.), o, g, pb) for a, o in enumerate(g.cell_faces))
  name = gen.pick(rng, ['van_leer', 'van_leer', 'limiters', 'upwind'])
  fn = {'van_leer': ad.advect_van_leer, 'limiters': ad.advect_van_leer_using_limiters, 'upwind': ad.advect_upwind}[name]
  off = tuple(float(x) for x in gen.pick(rng, [g.cell_center] + list(g.cell_faces) + [(0.,) * nd]))
  c = gen.variable(rng, g, off, pb)
  cfl = float(gen.pick(rng, [.2, .5, .9, 1.0]))
  dt = cfl * g.step[ax] / abs(U)
  tv = lambda a: np.abs(np.roll(a, -1, ax) - a).sum(axis=ax)
  d = np.asarray(c.data); S = np.abs(d).max() + 1e-12
  rec.case(name, nd, ax, cfl, off)
  for k in range(4):
    c2 = gen.var(d + dt * np.asarray(fn(gen.var(d, off, g, pb), v, dt).data), off, g, pb)
    e = np.asarray(c2.data)
    det = f'{name} axis {ax} cfl {cfl} step {k} offset {off}'
    rec.leq('tvd', tv(e), tv(d), 1e-9 * S, det)
    # bounded line by line by the neighbourhood at the previous time
    nb = np.stack([np.roll(d, s, ax) for s in (-1, 0, 1)])
    rec.leq('local-max', e, nb.max(0), 1e-9 * S, det)
    rec.leq('local-max', nb.min(0), e, 1e-9 * S, det)
    if cfl == 1.0:
      rec.close('exact-shift', e, np.roll(d, int(np.sign(U)), ax), tol=1e-9, scale=S, detail=det)
    d = e


def s_walls(rng, rec, i):
  """van Leer transport towards / along impermeable walls stays bounded in 1-D-like flows."""
  g = gen.mild_grid(rng, shp=gen.pick(rng, [(8, 5), (6, 9)]))
  hb = B.HomogeneousBoundaryConditions(((gen.P, gen.P), (gen.Dd, gen.Dd)))
  prof = rng.normal(size=g.shape[1])  # parallel shear flow u(y) along the channel
  u = gen.var(np.broadcast_to(prof, g.shape).copy(), g.cell_faces[0], g, hb)
  w = gen.var(np.zeros(g.shape), g.cell_faces[1], g, hb)
  nb = B.HomogeneousBoundaryConditions(((gen.P, gen.P), (gen.N, gen.N)))
  c = gen.variable(rng, g, g.cell_center, nb)
  dt = float(gen.pick(rng, [.3, .9])) * g.step[0] / np.abs(prof).max()
  d = np.asarray(c.data); S = np.abs(d).max() + 1e-12
  tv = lambda a: np.abs(np.roll(a, -1, 0) - a).sum(axis=0)
  rec.case('walls', g.shape, i % 3)
  for k in range(3):
    e = d + dt * np.asarray(ad.advect_van_leer(gen.var(d, g.cell_center, g, nb), (u, w), dt).data)
    rec.leq('wall-tvd', tv(e), tv(d), 1e-9 * S)
    rec.leq('wall-max', e.max(), d.max(), 1e-9 * S); rec.leq('wall-max', d.min(), e.min(), 1e-9 * S)
    d = e


def s_semilag(rng, rec, i):
  shp = gen.pick(rng, [(12,), (6, 9), (8, 5), (5, 4, 6)])
  g = gen.mild_grid(rng, shp=shp, lower=False)
  nd = g.ndim
  pb = B.periodic_boundary_conditions(nd)
  kind = gen.pick(rng, ['stream', 'uniform', 'any', 'integer'])
  off = tuple(float(x) for x in gen.pick(rng, [g.cell_center, g.cell_center] + list(g.cell_faces) + [(0.,) * nd]))
  if kind == 'stream':
    v = tuple(gen.var(u, o, g, pb) for u, o in zip(gen.stream_velocity(rng, g), g.cell_faces))
  elif kind == 'any':
    v = gen.periodic_velocity(rng, g, 'normal')
  else:
    v = tuple(gen.var(np.full(g.shape, rng.normal()), o, g, pb) for o in g.cell_faces)
  c = gen.variable(rng, g, off, pb)
  dt = float(rng.uniform(.1, 2.5)) * min(g.step) / (max(np.abs(u.data).max() for u in v) + 1e-9)
  if kind == 'integer':
    sh = rng.integers(-3, 4, nd)
    dt = .1
    v = tuple(gen.var(np.full(g.shape, float(s) * h / dt), o, g, pb) for s, h, o in zip(sh, g.step, g.cell_faces))
  r = ad.advect_step_semilagrangian(c, v, dt)
  d = np.asarray(c.data); S = np.abs(d).max() + 1e-12
  rec.case('semilag', nd, kind, off)
  rec.field('semilag', r, None, offset=off, grid=g, bc=pb)
  # reference: multilinear periodic interpolation at the departure point
  X = np.meshgrid(*[np.arange(n) + 0. for n in g.shape], indexing='ij')
  P = [x - dt * lin_np(u, off) / h for x, u, h in zip(X, v, g.step)]
  want = 0
  import itertools
  fl = [np.floor(p).astype(int) for p in P]
  for bits in itertools.product((0, 1), repeat=nd):
    w = 1.0; ix = []
    for p, f, b, n in zip(P, fl, bits, g.shape):
      w = w * ((p - f) if b else (1 - (p - f))); ix.append((f + b) % n)
    want = want + w * d[tuple(ix)]
  # jax.scipy's wrap interpolation is accurate to a few ulp of the index
  rec.close('semilag', r, want, tol=1e-9, scale=S, detail=f'{kind} offset {off} shape {g.shape}')
  rec.leq('semilag-bound', r.data, np.full(g.shape, d.max()), 1e-10 * S)
  rec.leq('semilag-bound', np.full(g.shape, d.min()), r.data, 1e-10 * S)
  if kind == 'integer':
    rec.close('semilag-shift', r, np.roll(d, tuple(int(s) for s in sh), tuple(range(nd))), tol=1e-9, scale=S)
  # what it does not support is rejected
  g2 = G.Grid(g.shape, domain=tuple((lo + 1, up + 1) for lo, up in g.domain))
  c2 = gen.var(d, off, g2, pb); v2 = tuple(gen.var(np.asarray(u.data), u.offset, g2, pb) for u in v)
  rec.raises('reject', lambda: ad.advect_step_semilagrangian(c2, v2, dt), ValueError)
  nb = B.HomogeneousBoundaryConditions(((gen.N, gen.N),) * nd)
  rec.raises('reject', lambda: ad.advect_step_semilagrangian(gen.var(d, g.cell_center, g, nb), v, dt), NotImplementedError)


def s_cfl(rng, rec, i):
  g = gen.grid(rng)
  vmax = float(np.exp(rng.normal())); cr = float(rng.uniform(.1, 1))
  rec.case('cfl', g.ndim, g.shape, i)
  dt = float(ad.stable_time_step(vmax, cr, g))
  rec.close('cfl', dt, cr * min(g.step) / vmax, tol=1e-12)
  # used on a 1-D like flow along the finest axis it keeps upwind monotone
  ax = int(np.argmin(g.step))
  pb = B.periodic_boundary_conditions(g.ndim)
  v = tuple(gen.var(np.full(g.shape, (vmax if i % 2 else -vmax) if a == ax else 0.), o, g, pb) for a, o in enumerate(g.cell_faces))
  c = gen.variable(rng, g, g.cell_center, pb); d = np.asarray(c.data); S = np.abs(d).max() + 1e-12
  e = d + dt * np.asarray(ad.advect_upwind(c, v, dt).data)
  rec.leq('cfl-stable', e.max(), d.max(), 1e-10 * S); rec.leq('cfl-stable', d.min(), e.min(), 1e-10 * S)


SUITES = {
    'upwind': (s_upwind, 30, 500),
    'tvd': (s_tvd, 48, 700),
    'walls': (s_walls, 10, 150),
    'semilagrangian': (s_semilag, 40, 600),
    'cfl': (s_cfl, 16, 150),
}
REQUIRED = ['upwind-max', 'tvd', 'local-max', 'exact-shift', 'wall-tvd', 'semilag', 'semilag-bound', 'semilag-shift', 'cfl', 'reject']
