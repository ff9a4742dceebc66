"""Seeded generators of hostile-but-admissible inputs for jax-cfd."""
import numpy as np
import jax
import jax.numpy as jnp
from jax_cfd.base import boundaries as B
from jax_cfd.base import grids as G

P, Dd, N = B.BCType.PERIODIC, B.BCType.DIRICHLET, B.BCType.NEUMANN

# small pools keep the number of XLA compilations per run bounded
SHAPES = {1: [(7,), (12,), (16,)],
          2: [(6, 9), (8, 5), (12, 8), (7, 7), (16, 12)],
          3: [(4, 6, 5), (6, 4, 8), (5, 3, 7)]}
EVEN_SHAPES = {1: [(8,), (12,)], 2: [(8, 6), (4, 12), (12, 8)], 3: [(4, 6, 8), (8, 4, 6)]}


# While a history case runs (core.run_case), later inputs reuse the grid, or only its shape, of earlier ones.
PINS = {'mode': None, 'grids': {}, 'large': None, 'iso': None}


LARGE = {1: [(9,), (67,), (5,)], 2: [(3, 5), (5, 2), (2, 7)], 3: [(2, 3, 2), (3, 1, 3), (1, 2, 4)]}


def enlarge(shp):
  """In a large case (core.run_case), grids have several times as many cells."""
  if PINS['large'] is None or len(shp) not in LARGE: return shp
  return tuple(int(n) * k for n, k in zip(shp, LARGE[len(shp)][PINS['large'] % 3]))


def pick(rng, seq):
  return seq[int(rng.integers(len(seq)))]


def shape(rng, ndim=None, even=False, pool=None):
  if pool is not None:
    return pick(rng, pool)
  if ndim is None:
    ndim = int(rng.choice([1, 2, 2, 2, 3]))
  return pick(rng, (EVEN_SHAPES if even else SHAPES)[ndim])


def grid(rng, ndim=None, shp=None, lower=True, even=False, aspect=4.0, pool=None):
  """Random anisotropic grid, with non-zero lower bounds when `lower`."""
  key = (ndim, shp and tuple(int(x) for x in shp), lower, even, aspect, str(pool))
  old = PINS['grids'].get(key) if PINS['mode'] in ('grid', 'shape') else None
  if old is not None and PINS['mode'] == 'grid': return old
  shp = old.shape if old is not None else shp or enlarge(shape(rng, ndim, even, pool))
  dom = []
  for n in shp:
    h = float(np.exp(rng.uniform(-np.log(aspect), np.log(aspect)) / 1.0)) * 0.3
    lo = float(rng.uniform(-2, 2)) if lower and rng.random() < 0.7 else 0.0
    dom.append((lo, lo + h * n))
  iso = PINS['iso']
  if iso is not None:   # exactly or nearly equal steps on every axis
    h = max(round((dom[0][1] - dom[0][0]) / shp[0] * 64), 1) / 64; e = (0.0, 1e-3, 1e-6)[iso % 3]
    dom = [(lo, lo + h * (1 + e * i) * n) for i, (n, lo) in enumerate(zip(shp, [round(d[0] * 64) / 64 for d in dom]))]
  g = G.Grid(shp, domain=tuple(dom))
  if PINS['mode'] is not None: PINS['grids'].setdefault(key, g)
  return g


def mild_grid(rng, ndim=2, shp=None, lower=True, even=False, pool=None):
  return grid(rng, ndim, shp, lower, even, aspect=1.7, pool=pool)


def array(rng, shp, kind=None):
  """Field content: noise, spikes, steps, near-constant, huge/small scale."""
  kind = kind or pick(rng, ['normal', 'normal', 'spikes', 'steps', 'offsetnoise', 'scaled'])
  x = rng.standard_normal(shp)
  if kind == 'spikes':
    x = np.where(rng.random(shp) < 0.2, x * 5, 0.0)
  elif kind == 'steps':
    x = np.round(x * 1.5)
  elif kind == 'offsetnoise':
    x = 10.0 * rng.standard_normal() + x
  elif kind == 'scaled':
    x = x * 10.0 ** rng.integers(-3, 4)
  return np.ascontiguousarray(x, dtype=np.float64)


def bc_types(rng, ndim, allow=('p', 'd', 'n'), mixed=True):
  """Per-axis pairs of boundary types; periodic axes are periodic on both sides."""
  t = []
  m = {'p': P, 'd': Dd, 'n': N}
  for _ in range(ndim):
    a = pick(rng, allow)
    if a == 'p':
      t.append((P, P))
    else:
      walls = [x for x in allow if x != 'p']
      b = pick(rng, walls) if mixed else a
      t.append((m[a], m[b]))
  return tuple(t)


def bc(rng, ndim, allow=('p', 'd', 'n'), mixed=True, zero=None):
  t = bc_types(rng, ndim, allow, mixed)
  if zero is None:
    zero = rng.random() < 0.3
  if zero:
    return B.HomogeneousBoundaryConditions(t)
  v = tuple((None, None) if x[0] == P else
            (float(np.round(rng.normal(), 3)), float(np.round(rng.normal(), 3))) for x in t)
  # jnp.pad rejects None only if used; library convention for periodic axes is
  # (None, None), or (0, 0) in the homogeneous case
  return B.ConstantBoundaryConditions(t, v)


def admissible_offset(rng, types, choices=(0.0, 0.5, 1.0)):
  """Edge-aligned samples are undefined for Neumann walls."""
  o = []
  for t in types:
    if N in t:
      o.append(0.5)
    else:
      o.append(float(pick(rng, choices)))
  return tuple(o)


def wall_fix(data, g, offset, b):
  """Sets samples lying on a Dirichlet wall to the wall value (numpy)."""
  data = np.array(data, dtype=np.float64)
  for ax in range(g.ndim):
    n = g.shape[ax]
    for side in (0, 1):
      if b.types[ax][side] == Dd:
        j = (0 if side == 0 else n) - offset[ax]
        if abs(j - round(j)) < 1e-9 and 0 <= round(j) < data.shape[ax]:
          idx = [slice(None)] * g.ndim
          idx[ax] = int(round(j))
          data[tuple(idx)] = b.bc_values[ax][side]
  return data


def wall_mask(g, offset, b, shp=None):
  """True at samples lying on a Dirichlet wall."""
  m = np.zeros(shp or g.shape, bool)
  for ax in range(g.ndim):
    n = g.shape[ax]
    for side in (0, 1):
      if b.types[ax][side] == Dd:
        j = (0 if side == 0 else n) - offset[ax]
        if abs(j - round(j)) < 1e-9 and 0 <= round(j) < m.shape[ax]:
          np.moveaxis(m, ax, 0)[int(round(j))] = True
  return m


def variable(rng, g, offset, b, kind=None, fix=True):
  d = array(rng, g.shape, kind)
  if fix:
    d = wall_fix(d, g, offset, b)
  return G.GridVariable(G.GridArray(jnp.asarray(d), tuple(offset), g), b)


def var(data, offset, g, b):
  return G.GridVariable(G.GridArray(jnp.asarray(data), tuple(offset), g), b)


def arr(data, offset, g):
  return G.GridArray(jnp.asarray(data), tuple(offset), g)


def periodic_velocity(rng, g, kind=None, scale=1.0, collocated=False):
  b = B.periodic_boundary_conditions(g.ndim)
  offs = [g.cell_center] * g.ndim if collocated else g.cell_faces
  return tuple(var(scale * array(rng, g.shape, kind), o, g, b) for o in offs)


def wall_velocity_bc(rng, ndim, walls, tangential=True):
  """No-penetration velocity bcs: homogeneous in the normal direction."""
  out = []
  for c in range(ndim):
    t = tuple((Dd, Dd) if walls[a] else (P, P) for a in range(ndim))
    v = []
    for a in range(ndim):
      if not walls[a]:
        v.append((None, None))
      elif a == c or not tangential:
        v.append((0.0, 0.0))
      else:
        v.append((float(np.round(rng.normal(), 2)), float(np.round(rng.normal(), 2))))
    if all(x in ((None, None), (0.0, 0.0)) for x in v):
      out.append(B.HomogeneousBoundaryConditions(t))
    else:
      out.append(B.ConstantBoundaryConditions(t, tuple(v)))
  return tuple(out)


def stream_velocity(rng, g, psi=None, collocated=False):
  """Discretely divergence-free periodic staggered velocity (2-D or 3-D), numpy
  curl of random potentials."""
  h = g.step
  def d(a, ax):  # backward difference in numpy
    return (a - np.roll(a, 1, ax)) / h[ax]
  if g.ndim == 2:
    s = rng.standard_normal(g.shape) if psi is None else psi
    return (d(s, 1), -d(s, 0))
  if g.ndim == 3:
    A = [rng.standard_normal(g.shape) for _ in range(3)]
    return (d(A[2], 1) - d(A[1], 2), d(A[0], 2) - d(A[2], 0), d(A[1], 0) - d(A[0], 1))
  return (np.full(g.shape, rng.normal()),)


def smooth(rng, g, offset, kmax=2, nmodes=4, mean=True):
  """Random trigonometric polynomial evaluated (numpy) at `offset` samples."""
  fn = smooth_fn(rng, g, kmax, nmodes, mean)
  X = np.meshgrid(*[lo + (np.arange(n) + o) * h for (lo, _), n, o, h in
                    zip(g.domain, g.shape, offset, g.step)], indexing='ij')
  return fn(*X)


def smooth_fn(rng, g, kmax=2, nmodes=4, mean=True):
  K = rng.integers(-kmax, kmax + 1, size=(nmodes, g.ndim))
  A = rng.normal(size=nmodes); ph = rng.uniform(0, 2 * np.pi, nmodes)
  c = rng.normal() if mean else 0.0
  L = [hi - lo for lo, hi in g.domain]
  def fn(*X):
    r = c
    for k, a, p in zip(K, A, ph):
      r = r + a * np.cos(sum(2 * np.pi * ki * x / l for ki, x, l in zip(k, X, L)) + p)
    return r + 0 * X[0]
  return fn
