"""C07: advection conserves the advected quantity and is the divergence of its fluxes."""
import itertools
import numpy as np
import jax
import jax.numpy as jnp
from jax_cfd.base import boundaries as B, grids as G, advection as ad, interpolation as ip, finite_differences as fd
from jax_cfd.collocated import advection as cad
from vlib import gen, ref, monitors, workloads
from checks.c06 import lin_np

RULE = ('random staggered velocity (divergence-free or arbitrary, periodic or impermeable walls), scalar or '
        'velocity component at any location, time step and scheme; tendencies are compared with an '
        'independent flux-form numpy model, summed for conservation, and compared between implementations; '
        'distinct by (scheme, ndim, location, walls)')
ASSUMPTIONS = ['float64', 'advect_general / convect_linear are exercised on periodic domains only (the library '
               'rejects walls there)', 'tendencies at samples lying on a wall are not judged (they are overwritten '
               'by the boundary condition)']


def vanleer(a, b):
  """Harmonic (van Leer) limited slope of two successive differences."""
  s = np.abs(a) + np.abs(b)
  return np.where(a * b > 0, 2 * a * b / np.where(s > 0, a + b + (a + b == 0), 1), 0.)


def face_flux(scheme, L, R, LL, RR, u, dt, h):
  up = np.where(u > 0, L, R)
  if scheme == 'linear': return u * .5 * (L + R)
  if scheme == 'upwind': return u * up
  if scheme == 'lax': return u * np.where(u > 0, L + .5 * (1 - dt / h * u) * (R - L), R - .5 * (1 + dt / h * u) * (R - L))
  if scheme == 'van_leer':
    s = np.where(u > 0, vanleer(L - LL, R - L), vanleer(RR - R, R - L))
    return u * up + .5 * (1 - dt / h * np.abs(u)) * np.abs(u) * s
  raise ValueError(scheme)


def per_ref(scheme, c, v, dt):
  """Reference tendency on periodic domains."""
  d = np.asarray(c.data); out = 0
  for ax, h in enumerate(c.grid.step):
    to = tuple(o + (.5 if a == ax else 0) for a, o in enumerate(c.offset))
    u = lin_np(v[ax], to)
    f = face_flux(scheme, d, np.roll(d, -1, ax), np.roll(d, 1, ax), np.roll(d, -2, ax), u, dt, h)
    out = out - (f - np.roll(f, 1, ax)) / h
  return out


RUN = {
    'linear': lambda c, v, dt: ad.advect_linear(c, v, dt),
    'upwind': lambda c, v, dt: ad.advect_upwind(c, v, dt),
    'lax': lambda c, v, dt: ad.advect_general(c, v, ip.linear, ip.lax_wendroff, dt),
    'van_leer': lambda c, v, dt: ad.advect_van_leer(c, v, dt),
    'limiters': lambda c, v, dt: ad.advect_van_leer_using_limiters(c, v, dt),
}


def shp(rng):
  return gen.pick(rng, [(12,), (6, 9), (8, 5), (7, 7), (5, 6, 7), (6, 5, 8)])


def scale(c, v, dt):
  return (np.abs(c.data).max() + 1e-3) * sum((np.abs(u.data).max() + 1e-3) / h for u, h in zip(v, c.grid.step)) * 3


def s_periodic(rng, rec, i):
  g = gen.mild_grid(rng, shp=shp(rng))
  nd = g.ndim
  divfree = rng.random() < .5
  pb = B.periodic_boundary_conditions(nd)
  if divfree:
    v = tuple(gen.var(u, o, g, pb) for u, o in zip(gen.stream_velocity(rng, g), g.cell_faces))
  else:
    v = gen.periodic_velocity(rng, g, 'normal')
  off = tuple(float(x) for x in gen.pick(rng, [g.cell_center, g.cell_center] + list(g.cell_faces) +
                                         [tuple(rng.choice([0., .5, 1.], nd))] * 2))
  c = gen.variable(rng, g, off, pb)
  dt = .4 / (sum(np.abs(u.data).max() / h for u, h in zip(v, g.step)) + 1e-9)
  S = scale(c, v, dt)
  one = gen.var(np.full(g.shape, 1.7), off, g, pb)
  res = {}
  for name, fn in RUN.items():
    rec.case(name, nd, off, divfree)
    t = fn(c, v, dt)
    res[name] = t
    want = per_ref('van_leer' if name == 'limiters' else name, c, v, dt)
    det = f'{name} offset {off} step {g.step} shape {g.shape}'
    rec.field('flux-form', t, want, offset=off, grid=g, tol=1e-10, scale=S, detail=det)
    rec.small('conserved', np.asarray(t.data).sum(), S * np.sqrt(c.data.size), 1e-11, det)
    if divfree:
      rec.small('uniform', fn(one, v, dt), scale(one, v, dt), 1e-10, det)
  rec.close('agree', res['van_leer'], np.asarray(res['limiters'].data), tol=1e-9, scale=S, detail=f'offset {off}')
  # advection is linear in c for the linear schemes and homogeneous for all
  k = float(rng.normal())
  cs = gen.var(k * np.asarray(c.data), off, g, pb)
  for name in ('van_leer', 'upwind'):
    rec.close('homogeneous', RUN[name](cs, v, dt), k * np.asarray(res[name].data), tol=1e-9, scale=S * (1 + abs(k)))


def s_convect(rng, rec, i):
  g = gen.mild_grid(rng, shp=shp(rng))
  nd = g.ndim
  v = gen.periodic_velocity(rng, g, 'normal')
  rec.case('convect', nd, g.shape)
  t = ad.convect_linear(v)
  rec.eq('convect', len(t), nd)
  energy = 0
  for k, (x, u) in enumerate(zip(t, v)):
    S = scale(u, v, 0)
    rec.field('convect', x, per_ref('linear', u, v, 0), offset=u.offset, grid=g, tol=1e-10, scale=S, detail=f'component {k}')
    rec.close('convect-agree', x, np.asarray(ad.advect_linear(u, v).data), tol=1e-10, scale=S)
    rec.small('conserved', np.asarray(x.data).sum(), S * np.sqrt(u.data.size), 1e-11)
  # divergence-free flows: the centred scheme conserves kinetic energy
  pb = B.periodic_boundary_conditions(nd)
  w = tuple(gen.var(u, o, g, pb) for u, o in zip(gen.stream_velocity(rng, g), g.cell_faces))
  q = ad.convect_linear(w)
  e = sum((np.asarray(a.data) * np.asarray(b.data)).sum() for a, b in zip(q, w))
  S = sum((np.abs(a.data) * np.abs(b.data)).sum() for a, b in zip(q, w))
  rec.small('energy', e, S + 1e-12, 1e-10)


def wall_flow(rng, g, walls):
  """Divergence-free (or arbitrary) velocity with no flow through the walls."""
  nd = g.ndim
  bcs = gen.wall_velocity_bc(rng, nd, walls, tangential=False)
  if rng.random() < .5 and nd == 2:
    n, m = g.shape
    psi = rng.standard_normal((n + 1, m + 1))  # corners 0..n
    for ax in range(2):
      if walls[ax]:
        np.moveaxis(psi, ax, 0)[[0, -1]] = 0.3  # same constant on every wall
      else:
        np.moveaxis(psi, ax, 0)[-1] = np.moveaxis(psi, ax, 0)[0]
    u = (psi[1:, 1:] - psi[1:, :-1]) / g.step[1]
    w = -(psi[1:, 1:] - psi[:-1, 1:]) / g.step[0]
    return tuple(gen.var(a, o, g, b) for a, o, b in zip((u, w), g.cell_faces, bcs)), True
  return tuple(gen.variable(rng, g, o, b, 'normal') for o, b in zip(g.cell_faces, bcs)), False


def s_walls(rng, rec, i):
  g = gen.mild_grid(rng, shp=gen.pick(rng, [(8,), (6, 8), (8, 5), (5, 4, 6)]))
  nd = g.ndim
  walls = [bool(x) for x in rng.random(nd) < .6]
  if not any(walls): walls[int(rng.integers(nd))] = True
  v, divfree = wall_flow(rng, g, walls)
  mode = gen.pick(rng, [B.Padding.MIRROR, B.Padding.EXTEND])
  comp = None if rng.random() < .5 else int(rng.integers(nd))
  if comp is None:
    types = tuple(gen.pick(rng, [(gen.Dd, gen.Dd), (gen.N, gen.N), (gen.Dd, gen.N)]) if w else (gen.P, gen.P) for w in walls)
    vals = tuple((None, None) if t[0] == gen.P else (float(rng.normal()), float(rng.normal())) for t in types)
    c = gen.variable(rng, g, g.cell_center, B.ConstantBoundaryConditions(types, vals))
  else:
    c = v[comp]
  dt = .3 / (sum(np.abs(u.data).max() / h for u, h in zip(v, g.step)) + 1e-9)
  S = scale(c, v, dt)
  got = ad.advect_van_leer(c, v, dt, mode)
  out = 0
  d = np.asarray(c.data); F = ref.Field(c)
  for ax, h in enumerate(g.step):
    n = g.shape[ax]
    to = tuple(o + (.5 if a == ax else 0) for a, o in enumerate(c.offset))
    if not walls[ax]:
      u = lin_np(v[ax], to)
      f = face_flux('van_leer', d, np.roll(d, -1, ax), np.roll(d, 1, ax), np.roll(d, -2, ax), u, dt, h)
      out = out - (f - np.roll(f, 1, ax)) / h
    elif c.offset[ax] == .5:
      u = lin_np(v[ax], to)
      f = face_flux('van_leer', d, F.shift(1, ax), F.shift(-1, ax), F.shift(2, ax, 'mirror'), u, dt, h)
      f = np.moveaxis(f, ax, 0).copy(); f[-1] = 0
      q = np.concatenate([0 * f[:1], f[:-1]])
      out = out - np.moveaxis(f - q, 0, ax) / h
    else:  # component normal to the wall: samples at 1..n, flux at cell centres
      L = ref.line(d, c.offset, g, c.bc, ax)
      U = [L.at(j, mode) for j in range(-1, n + 2)]   # U[k] is sample k-1
      uc = np.asarray(v[ax].data)
      f = []
      for k in range(n):
        a, b = U[k + 1], U[k + 2]
        f.append(face_flux('van_leer', a, b, U[k], U[k + 3], .5 * (a + b), dt, h))
      t = [-(f[j] - f[j - 1]) / h for j in range(1, n)] + [np.zeros_like(f[0])]
      out = out + np.stack(t, axis=ax)
  inner = ~gen.wall_mask(g, c.offset, c.bc)
  det = f'walls {walls} component {comp} mode {mode} shape {g.shape}'
  rec.case('walls', nd, tuple(walls), comp, mode, c.bc.types)
  rec.field('wall-flux-form', got, None, offset=c.offset, grid=g, detail=det)
  rec.close('wall-flux-form', np.asarray(got.data)[inner], out[inner], tol=1e-10, scale=S, detail=det)
  if comp is None:
    rec.small('wall-conserved', np.asarray(got.data).sum(), S * np.sqrt(d.size), 1e-11, det)
    if divfree:
      types = tuple((gen.N, gen.N) if w else (gen.P, gen.P) for w in walls)
      one = gen.var(np.full(g.shape, 2.5), g.cell_center, g, B.HomogeneousBoundaryConditions(types))
      rec.small('wall-uniform', ad.advect_van_leer(one, v, dt, mode), scale(one, v, dt), 1e-10, det)


def s_collocated(rng, rec, i):
  g = gen.mild_grid(rng, shp=shp(rng))
  nd = g.ndim
  walls = [bool(x) for x in rng.random(nd) < (.5 if i % 2 else 0)]
  types = tuple((gen.Dd, gen.Dd) if w else (gen.P, gen.P) for w in walls)
  hb = B.HomogeneousBoundaryConditions(types)
  v = tuple(gen.variable(rng, g, g.cell_center, hb, 'normal') for _ in range(nd))
  ct = tuple(gen.pick(rng, [(gen.Dd, gen.Dd), (gen.N, gen.N)]) if w else (gen.P, gen.P) for w in walls)
  c = gen.variable(rng, g, g.cell_center, B.ConstantBoundaryConditions(ct, tuple(
      (None, None) if t[0] == gen.P else (float(rng.normal()), 1.) for t in ct)))
  def want(c):
    out = 0
    for ax, h in enumerate(g.step):
      f = np.moveaxis(np.asarray(c.data) * np.asarray(v[ax].data), ax, 0)
      # wall faces carry no flux: the mirrored sample has the opposite flux
      lo = -f[:1] if walls[ax] else f[-1:]
      hi = -f[-1:] if walls[ax] else f[:1]
      e = np.concatenate([lo, f, hi])
      out = out - np.moveaxis(e[2:] - e[:-2], 0, ax) / (2 * h)
    return out
  rec.case('collocated', nd, tuple(walls), ct)
  t = cad.advect_linear(c, v, .1)
  S = scale(c, v, 0)
  rec.field('collocated', t, want(c), offset=g.cell_center, grid=g, tol=1e-11, scale=S, detail=f'walls {walls}')
  rec.small('collocated-conserved', np.asarray(t.data).sum(), S * np.sqrt(c.data.size), 1e-11)
  for k, (x, u) in enumerate(zip(cad.convect_linear(v), v)):
    rec.field('collocated', x, want(u), offset=g.cell_center, grid=g, tol=1e-11, scale=scale(u, v, 0), detail=f'convect {k} walls {walls}')


def s_reject(rng, rec, i):
  g = gen.mild_grid(rng, shp=(6, 8))
  v = gen.periodic_velocity(rng, g, 'normal')
  b = B.channel_flow_boundary_conditions(2)
  c = gen.variable(rng, g, g.cell_center, b)
  rec.case('reject', i)
  for f in (ad.advect_linear, ad.advect_upwind):
    rec.raises('reject', lambda: f(c, v, .1), NotImplementedError, 'walls')
  # porous walls are rejected
  pb = B.ConstantBoundaryConditions(((gen.Dd, gen.Dd), (gen.P, gen.P)), ((1., 1.), (None, None)))
  w = (gen.variable(rng, g, g.cell_faces[0], pb), v[1])
  s = gen.variable(rng, g, g.cell_center, B.HomogeneousBoundaryConditions(((gen.Dd, gen.Dd), (gen.P, gen.P))))
  rec.raises('reject', lambda: ad.advect_van_leer(s, w, .1), NotImplementedError, 'porous wall')


def s_simulation(rng, rec, i):
  """Advection terms evaluated inside real steps conserve momentum."""
  def obs(name):
    def f(rec, a, out):
      outs = out if isinstance(out, tuple) else (out,)
      cs = a['v'] if 'c' not in a else (a['c'],)
      v = a['v']
      for o, c in zip(outs, cs):
        if any(t[0] != gen.P for u in tuple(v) + (c,) for t in u.bc.types): rec.skip('walls'); continue
        S = scale(c, v, 0)
        rec.small('sim.conserved', np.asarray(o.data).sum(), S * np.sqrt(c.data.size), 1e-10, name)
        rec.field('sim.conserved', o, None, offset=c.offset, grid=c.grid, detail=name)
    return f
  s = workloads.simulation(rng, kind=gen.pick(rng, ['explicit', 'implicit', 'collocated']), pool=[(6, 8), (8, 5)], ndim=2)
  rec.case('sim', s.kind, s.convect)
  with monitors.hook([(ad, 'convect_linear', obs('convect_linear')), (ad, 'advect_van_leer', obs('advect_van_leer')),
                      (ad, 'advect_general', obs('advect_general')), (cad, 'convect_linear', obs('collocated'))], rec):
    with jax.disable_jit():
      s.step(s.v)


SUITES = {
    'periodic': (s_periodic, 44, 700),
    'convect': (s_convect, 30, 400),
    'walls': (s_walls, 50, 700),
    'collocated': (s_collocated, 30, 400),
    'reject': (s_reject, 4, 20),
    'simulation': (s_simulation, 6, 60),
}
REQUIRED = ['flux-form', 'conserved', 'uniform', 'agree', 'convect', 'convect-agree', 'energy', 'wall-flux-form',
            'wall-conserved', 'wall-uniform', 'collocated', 'collocated-conserved', 'reject']
