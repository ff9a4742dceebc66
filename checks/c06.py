"""C06: interpolation is exact on linear data, bounded, and upwind where promised."""
import itertools
import numpy as np
import jax
import jax.numpy as jnp
from jax_cfd.base import boundaries as B, grids as G, interpolation as ip
from vlib import gen, ref, monitors, workloads

RULE = ('random grid, source/target location, boundary condition, velocity sign pattern (including zeros '
        'and reversals), time step, limiter and query point (inside and outside, all extension modes); '
        'interpolations observed inside real solver steps; distinct by (scheme, ndim, types, offsets)')
ASSUMPTIONS = ['float64', 'where the face velocity is exactly zero either neighbour is accepted as upstream']


def lin_np(c, offset, walls=False):
  """Reference: axis-by-axis two-point interpolation."""
  data, off = np.asarray(c.data), list(c.offset)
  for ax, o in enumerate(offset):
    d = o - off[ax]
    if d == 0: continue
    F = ref.Field(gen.var(data, tuple(off), c.grid, c.bc))
    f = int(np.floor(d)); w = d - f
    data = (1 - w) * (F.shift(f, ax) if f else F.data) + (w * (F.shift(f + 1, ax) if f + 1 else F.data) if w else 0)
    off[ax] = o
    if walls: data = gen.wall_fix(data, c.grid, tuple(off), c.bc)  # samples on a wall take its value
  return data


def s_linear(rng, rec, i):
  g = gen.grid(rng)
  bc = gen.bc(rng, g.ndim) if i % 3 else B.periodic_boundary_conditions(g.ndim)
  off = gen.admissible_offset(rng, bc.types)
  c = gen.variable(rng, g, off, bc)
  to = []
  for a in range(g.ndim):
    if bc.types[a][0] == gen.P:
      to.append(float(gen.pick(rng, [0., .5, 1., 1.5, -.5, .25, .8, off[a]])))
    else:
      to.append(float(gen.pick(rng, [off[a], off[a] + .5, off[a] - .5])))
  to = tuple(to)
  rec.case('linear', g.ndim, bc.types, off, to)
  det = f'types {bc.types} values {bc.bc_values} from {off} to {to}'
  got = ip.linear(c, to)
  want, alt = lin_np(c, to), lin_np(c, to, True)
  # next to an edge where two walls meet, either wall's value may have been used
  a = np.asarray(got.data)
  if a.shape == want.shape: want = np.where(np.abs(a - alt) < np.abs(a - want), alt, want)
  rec.field('linear', got, want, offset=to, grid=g, bc=bc, tol=1e-11, scale=np.abs(c.data).max() + 5, detail=det)
  # order of axes / extra arguments do not matter
  got2 = ip.linear(c, to, v=None, dt=.1)
  rec.close('linear', got2, np.asarray(got.data), tol=1e-14, scale=np.abs(c.data).max() + 5)
  if all(t[0] == gen.P for t in bc.types):
    d = np.asarray(c.data)
    rec.leq('convex', got.data, np.full(g.shape, d.max()), 1e-9 * (1 + np.abs(d).max()))
    rec.leq('convex', np.full(g.shape, d.min()), got.data, 1e-9 * (1 + np.abs(d).max()))
    if sum(x != y for x, y in zip(off, to)):
      rec.close('mean', np.mean(np.asarray(got.data)), d.mean(), tol=1e-11, scale=np.abs(d).max() + 1)
  rec.ok('linear', ip.linear(c, off).offset == off)
  rec.close('identity', ip.linear(c, off), np.asarray(c.data), tol=1e-15, scale=1 + np.abs(c.data).max())
  rec.raises('reject', lambda: ip.linear(c, to + (.5,)), ValueError)


def s_affine(rng, rec, i):
  """Linear data is reproduced exactly at interior samples."""
  nd = int(rng.choice([1, 2, 3]))
  g = gen.grid(rng, nd, shp={1: (12,), 2: (8, 7), 3: (6, 7, 5)}[nd], aspect=2.)
  off = tuple(float(x) for x in rng.choice([0., .5, 1.], nd))
  to = tuple(float(o + x) for o, x in zip(off, rng.choice([-.5, 0, .5, .3, -.7], nd)))
  a = rng.normal(size=nd); b = rng.normal()
  def f(o):
    X = np.meshgrid(*[lo + (np.arange(n) + oo) * h for (lo, _), n, oo, h in zip(g.domain, g.shape, o, g.step)], indexing='ij')
    return b + sum(k * x for k, x in zip(a, X))
  c = gen.var(f(off), off, g, B.periodic_boundary_conditions(nd))
  inn = tuple(slice(1, -1) for _ in range(nd))
  rec.case('affine', nd, off, to)
  rec.close('affine', np.asarray(ip.linear(c, to).data)[inn], f(to)[inn], tol=1e-11, scale=np.abs(f(to)).max())
  pts = [np.array([lo + rng.uniform(.2, .8) * (up - lo) for lo, up in g.domain]) for _ in range(4)]
  for p in pts:
    rec.close('affine-point', ip.point_interpolation(jnp.asarray(p), c.array), b + a @ p, tol=1e-11, scale=np.abs(f(off)).max())


def face_setup(rng, walls=True):
  g = gen.grid(rng)
  ax = int(rng.integers(g.ndim))
  bc = gen.bc(rng, g.ndim) if walls else B.periodic_boundary_conditions(g.ndim)
  off = gen.admissible_offset(rng, bc.types, choices=(0., .5, 1.) if not walls else (.5,))
  c = gen.variable(rng, g, off, bc)
  to = tuple(o + (.5 if a == ax else 0) for a, o in enumerate(off))
  pb = B.periodic_boundary_conditions(g.ndim)
  v = []
  for a in range(g.ndim):
    u = gen.array(rng, g.shape, 'normal')
    if rng.random() < .4: u = np.where(rng.random(g.shape) < .3, 0.0, u)
    if rng.random() < .2: u = np.full(g.shape, rng.normal())
    v.append(gen.var(u, tuple(o + (.5 if k == a else 0) for k, o in enumerate(off)), g, pb))
  return g, ax, bc, off, c, to, tuple(v)


def s_upwind(rng, rec, i):
  g, ax, bc, off, c, to, v = face_setup(rng, walls=bool(i % 2))
  F = ref.Field(c)
  L, R = np.asarray(c.data), F.shift(1, ax)
  u = np.asarray(v[ax].data)
  rec.case('upwind', g.ndim, ax, bc.types, off)
  S = np.abs(L).max() + 5
  m = u != 0
  det = f'axis {ax} types {bc.types} offset {off}'
  got = ip.upwind(c, to, v)
  rec.field('upwind', got, None, offset=to, grid=g)
  x = np.asarray(got.data)
  rec.close('upwind', x[m], np.where(u > 0, L, R)[m], tol=1e-13, scale=S, detail=det)
  rec.ok('upwind', np.all(np.minimum(np.abs(x - L), np.abs(x - R))[~m] <= 1e-12 * S), 'zero-velocity face')
  dt = float(rng.uniform(0, 1.2)) * g.step[ax] / (np.abs(u).max() + 1e-9)
  C = dt / g.step[ax] * u
  got = ip.lax_wendroff(c, to, v, dt)
  pos = L + .5 * (1 - C) * (R - L); neg = R - .5 * (1 + C) * (R - L)
  rec.field('lax_wendroff', got, None, offset=to, grid=g)
  rec.close('lax_wendroff', np.asarray(got.data)[m], np.where(u > 0, pos, neg)[m], tol=1e-12, scale=S * 3, detail=det)
  rec.raises('reject', lambda: ip.upwind(c, tuple(o + .5 for o in off), v) if g.ndim > 1 else (_ for _ in ()).throw(G.InconsistentOffsetError()), G.InconsistentOffsetError)
  rec.raises('reject', lambda: ip.lax_wendroff(c, tuple(o + .5 for o in off), v, dt) if g.ndim > 1 else (_ for _ in ()).throw(G.InconsistentOffsetError()), G.InconsistentOffsetError)
  rec.close('identity', ip.upwind(c, off, v), L, tol=1e-15, scale=S)
  rec.close('identity', ip.lax_wendroff(c, off, v, dt), L, tol=1e-15, scale=S)


def minmod(r): return jnp.clip(r, 0., 1.)
def superbee(r): return jnp.maximum(0., jnp.maximum(jnp.minimum(2 * r, 1), jnp.minimum(r, 2)))


def s_tvd(rng, rec, i):
  g, ax, bc, off, c, to, v = face_setup(rng, walls=False)
  while g.shape[ax] < 5:
    g, ax, bc, off, c, to, v = face_setup(rng, walls=False)
  d = np.asarray(c.data); u = np.asarray(v[ax].data)
  name = gen.pick(rng, ['van_leer', 'van_leer', 'minmod', 'superbee', 'zero', 'one'])
  lim, limn = {
      'van_leer': (ip.van_leer_limiter, lambda r: np.where(r > 0, 2 * r / np.where(r > 0, 1 + r, 1), 0)),
      'minmod': (minmod, lambda r: np.clip(r, 0, 1)),
      'superbee': (superbee, lambda r: np.maximum(0, np.maximum(np.minimum(2 * r, 1), np.minimum(r, 2)))),
      'zero': (lambda r: jnp.zeros_like(r), lambda r: 0 * r),
      'one': (lambda r: jnp.ones_like(r), lambda r: 0 * r + 1)}[name]
  dt = float(rng.uniform(.05, 1.)) * g.step[ax] / (np.abs(u).max() + 1e-9)
  fn = ip.apply_tvd_limiter(ip.lax_wendroff, limiter=lim)
  got = fn(c, to, v, dt)
  R, Lf, RR = (np.roll(d, -k, ax) for k in (1, -1, 2))
  C = dt / g.step[ax] * u
  den = R - d
  sd = np.where(den != 0, den, 1)
  rp, rn = (d - Lf) / sd, (RR - R) / sd
  low = np.where(u > 0, d, R)
  high = np.where(u > 0, d + .5 * (1 - C) * den, R - .5 * (1 + C) * den)
  phi = np.where(u > 0, limn(rp), limn(rn))
  want = low + phi * (high - low)
  m = u != 0
  rec.case('tvd', g.ndim, ax, off, name)
  S = np.abs(d).max() * 4 + 1
  rec.field('tvd', got, None, offset=to, grid=g, bc=c.bc)
  rec.close('tvd', np.asarray(got.data)[m], want[m], tol=1e-11, scale=S, detail=f'{name} axis {ax}')
  if name == 'van_leer':
    rec.leq('tvd-bounded', got.data, np.maximum(d, R), 1e-10 * S)
    rec.leq('tvd-bounded', np.minimum(d, R), got.data, 1e-10 * S)
    ext = m & np.where(u > 0, (d - Lf) * den <= 0, (RR - R) * den <= 0)
    rec.close('tvd-extrema', np.asarray(got.data)[ext], low[ext], tol=1e-12, scale=S)
  bad = tuple(o + (1.0 if a == ax else 0) for a, o in enumerate(off))
  rec.raises('reject', lambda: fn(c, bad, v, dt), NotImplementedError)


def s_limiter(rng, rec, i):
  r = np.concatenate([rng.normal(size=40) * 10.0 ** rng.integers(-3, 4), [0., 1., -1., 1e-12, 1e6]])
  rec.case('limiter', i)
  p = np.asarray(ip.van_leer_limiter(jnp.asarray(r)))
  rec.close('limiter', p, np.where(r > 0, 2 * r / np.where(r > 0, 1 + r, 1), 0), tol=1e-13, scale=2)
  rec.leq('limiter-tvd', p, np.minimum(2 * np.maximum(r, 0), 2.), 1e-12)
  rec.leq('limiter-tvd', 0 * p, p)
  pos = r[r > 1e-3]
  rec.close('limiter-symmetric', np.asarray(ip.van_leer_limiter(jnp.asarray(1 / pos))) * pos, p[r > 1e-3], tol=1e-9, scale=2)
  x, y = rng.normal(size=20), rng.normal(size=20) * (rng.random(20) < .6)
  d = float(rng.normal())
  rec.close('safe-div', np.asarray(ip.safe_div(jnp.asarray(x), jnp.asarray(y), d)), x / np.where(y != 0, y, d), tol=1e-12)


def fix(idx, n, mode):
  if mode == 'nearest': return np.clip(idx, 0, n - 1), np.ones_like(idx, bool)
  if mode == 'wrap': return idx % n, np.ones_like(idx, bool)
  if mode == 'constant': return np.clip(idx, 0, n - 1), (idx >= 0) & (idx < n)
  if mode == 'mirror':
    p = max(2 * (n - 1), 1); k = idx % p
    return np.where(k >= n, p - k, k), np.ones_like(idx, bool)
  if mode == 'reflect':
    k = idx % (2 * n)
    return np.where(k >= n, 2 * n - 1 - k, k), np.ones_like(idx, bool)


def s_point(rng, rec, i):
  g = gen.grid(rng)
  off = tuple(float(x) for x in rng.choice([0., .5, 1.], g.ndim))
  d = gen.array(rng, g.shape)
  c = gen.arr(d, off, g)
  order = int(rng.integers(2)); mode = gen.pick(rng, ['nearest', 'wrap', 'constant', 'mirror', 'reflect'])
  cval = float(rng.normal())
  rec.case('point', g.ndim, off, order, mode)
  for far in (0.0, 0.0, .6):
    p = np.array([lo + rng.uniform(-far, 1 + far) * (up - lo) for lo, up in g.domain])
    x = (p - np.array([a for a, _ in g.domain])) / np.array(g.step) - np.array(off)
    val = 0.0
    if order == 1:
      f = np.floor(x).astype(int); w = x - f
      for bits in itertools.product((0, 1), repeat=g.ndim):
        wt = 1.0; ok = True; ix = []
        for a, b in enumerate(bits):
          wt *= w[a] if b else 1 - w[a]
          j, valid = fix(np.array(f[a] + b), g.shape[a], mode)
          ok &= bool(valid); ix.append(int(j))
        val += wt * (d[tuple(ix)] if ok else cval)
    else:
      if np.any(np.abs(x - np.floor(x) - .5) < 1e-6): continue
      ix = []; ok = True
      for a in range(g.ndim):
        j, valid = fix(np.array(int(np.round(x[a]))), g.shape[a], mode)
        ok &= bool(valid); ix.append(int(j))
      val = d[tuple(ix)] if ok else cval
    got = ip.point_interpolation(jnp.asarray(p), c, order=order, mode=mode, cval=cval)
    rec.close('point', got, val, tol=1e-11, scale=np.abs(d).max() + 2, detail=f'{mode} order {order} index {x} shape {g.shape}')
  # default: nearest extension, order 1; hits samples exactly
  j = tuple(int(rng.integers(n)) for n in g.shape)
  p = np.array([lo + (k + o) * h for (lo, _), k, o, h in zip(g.domain, j, off, g.step)])
  rec.close('point-sample', ip.point_interpolation(jnp.asarray(p), c), d[j], tol=1e-10, scale=np.abs(d).max() * 10 + 1)


def s_simulation(rng, rec, i):
  def on_lin(rec, a, out):
    c, o = a['c'], tuple(a['offset'])
    if tuple(c.data.shape) != tuple(c.grid.shape): rec.skip('shape'); return
    for ax in range(c.grid.ndim):
      t = c.bc.types[ax]
      if t[0] == gen.P: continue
      if c.offset[ax] not in (0., .5, 1.) or abs(o[ax] - c.offset[ax]) > 1 or not ref.line(c.data, c.offset, c.grid, c.bc, ax).complete():
        rec.skip('loc'); return
    rec.field('sim.linear', out, lin_np(c, o), offset=o, grid=c.grid, tol=1e-10, scale=np.abs(c.data).max() + 5,
              detail=f'{c.offset} to {o} in a step')
  def on_up(rec, a, out):
    c, o, v = a['c'], tuple(a['offset']), a['v']
    axs = [k for k in range(c.grid.ndim) if c.offset[k] != o[k]]
    if len(axs) != 1 or o[axs[0]] - c.offset[axs[0]] != .5: rec.skip('loc'); return
    ax = axs[0]; u = np.asarray(v[ax].data); L = np.asarray(c.data); R = ref.Field(c).shift(1, ax)
    m = u != 0
    rec.close('sim.upwind', np.asarray(out.data)[m], np.where(u > 0, L, R)[m], tol=1e-12, scale=np.abs(L).max() + 1)
  pool = [(6, 8), (8, 5)]
  s = workloads.simulation(rng, kind=gen.pick(rng, ['explicit', 'implicit', 'walls', 'collocated']), pool=pool, ndim=2)
  rec.case('sim', s.kind, s.convect, s.walls)
  with monitors.hook([(ip, 'linear', on_lin), (ip, 'upwind', on_up)], rec):
    with jax.disable_jit():
      s.step(s.v)


SUITES = {
    'linear': (s_linear, 100, 1500),
    'affine': (s_affine, 30, 400),
    'upwind': (s_upwind, 60, 800),
    'tvd': (s_tvd, 40, 600),
    'limiter': (s_limiter, 8, 60),
    'point': (s_point, 40, 500),
    'simulation': (s_simulation, 8, 60),
}
REQUIRED = ['linear', 'convex', 'mean', 'identity', 'affine', 'affine-point', 'upwind', 'lax_wendroff', 'tvd',
            'tvd-bounded', 'tvd-extrema', 'limiter', 'point', 'reject']
