"""C04: grid geometry is self-consistent and locates every sample."""
import numpy as np
import jax
import jax.numpy as jnp
from jax_cfd.base import boundaries as B, grids as G, array_utils as au
from vlib import gen

RULE = ('random grids by every constructor form (shape only, scalar/vector step, scalar/vector domain, '
        'negative lower bounds, size-1 axes, up to 4-D), random offsets and functions; distinct by '
        '(form, ndim, shape, offset)')
ASSUMPTIONS = ['float64']


def make(rng):
  nd = int(rng.integers(1, 5))
  shp = tuple(int(x) for x in rng.integers(1, 9, nd))
  form = gen.pick(rng, ['none', 'sstep', 'vstep', 'istep', 'sdom', 'idom', 'vdom', 'ldom'])
  lo = np.zeros(nd)
  if form == 'none':
    g = G.Grid(shp); h = np.ones(nd)
  elif form == 'sstep':
    s = float(np.exp(rng.normal())); g = G.Grid(shp, step=s); h = np.full(nd, s)
  elif form == 'istep':
    g = G.Grid(list(shp), step=2); h = np.full(nd, 2.)
  elif form == 'vstep':
    h = np.exp(rng.normal(size=nd)); g = G.Grid(shp, step=tuple(h.tolist()))
  elif form == 'sdom':
    L = float(np.exp(rng.normal())); g = G.Grid(shp, domain=L); h = L / np.array(shp)
  elif form == 'idom':
    g = G.Grid(shp, domain=3); h = 3 / np.array(shp)
  else:
    lo = rng.normal(size=nd); up = lo + np.exp(rng.normal(size=nd))
    dom = [(a, b) for a, b in zip(lo.tolist(), up.tolist())]
    if form == 'ldom':
      dom = [list(x) for x in dom]
    g = G.Grid(np.array(shp) if form == 'ldom' else shp, domain=dom)
    h = (up - lo) / np.array(shp)
  return g, form, shp, lo, h


def s_geometry(rng, rec, i):
  g, form, shp, lo, h = make(rng)
  nd = len(shp)
  n = np.array(shp)
  rec.case(form, nd, shp)
  rec.eq('shape', tuple(g.shape), shp); rec.eq('shape', g.ndim, nd)
  rec.close('step', np.array(g.step), h, tol=1e-13)
  rec.close('domain', np.array(g.domain), np.stack([lo, lo + n * h], 1), tol=1e-13, scale=np.abs(lo).max() + (n * h).max())
  rec.close('extent', np.array(g.step) * n, np.array(g.domain)[:, 1] - np.array(g.domain)[:, 0], tol=1e-13)
  rec.eq('centre', tuple(g.cell_center), (.5,) * nd)
  for j, f in enumerate(g.cell_faces):
    rec.eq('faces', tuple(f), tuple(1.0 if k == j else .5 for k in range(nd)))
  off = None if rng.random() < .2 else tuple(float(x) for x in rng.choice([0, .5, 1, .25, -1], nd))
  o = np.array((.5,) * nd if off is None else off)
  want = [lo[k] + (np.arange(n[k]) + o[k]) * h[k] for k in range(nd)]
  ax = g.axes(off)
  for k in range(nd):
    rec.close('axes', ax[k], want[k], tol=1e-13, scale=abs(lo[k]) + n[k] * h[k])
  M = g.mesh(off); W = np.meshgrid(*want, indexing='ij')
  rec.eq('mesh', len(M), nd)
  for k in range(nd):
    rec.close('mesh', M[k], W[k], tol=1e-13, scale=abs(lo[k]) + n[k] * h[k])
  c = rng.normal(size=nd)
  fn = lambda *x: sum(ci * jnp.sin(xi) * (k + 1) for k, (ci, xi) in enumerate(zip(c, x)))
  r = g.eval_on_mesh(fn, off)
  rec.field('eval', r, sum(ci * np.sin(x) * (k + 1) for k, (ci, x) in enumerate(zip(c, W))), offset=tuple(o),
            grid=g, tol=1e-12, scale=10)
  f = g.fft_axes(); rf = g.rfft_axes()
  for k in range(nd):
    m = np.arange(n[k]); m = np.where(m < (n[k] + 1) // 2, m, m - n[k])
    rec.close('fft', f[k], m / (n[k] * h[k]), tol=1e-13, scale=1 / h[k])
    if k < nd - 1:
      rec.close('rfft', rf[k], m / (n[k] * h[k]), tol=1e-13, scale=1 / h[k])
    else:
      rec.close('rfft', rf[k], np.arange(n[k] // 2 + 1) / (n[k] * h[k]), tol=1e-13, scale=1 / h[k])
  RM = g.rfft_mesh()
  for k in range(nd):
    s = [1] * nd; s[k] = -1
    rec.close('rfft-mesh', RM[k], np.broadcast_to(np.asarray(rf[k]).reshape(s), RM[k].shape), tol=1e-14, scale=1 / h[k])
    rec.eq('rfft-mesh', RM[k].shape, shp[:-1] + (shp[-1] // 2 + 1,))
  # a grid is a value: equal, hashable, usable as static data
  g2 = G.Grid(shp, domain=g.domain)
  rec.ok('value', g2 == g and hash(g2) == hash(g))
  other = G.Grid(tuple(s + 1 for s in shp), domain=g.domain)
  rec.ok('value', other != g)
  # grids that place any sample elsewhere are different values, and are never mixed up as dictionary keys
  k = int(rng.integers(nd)); e = h[k] * float(rng.choice([.5, 1., n[k], 1e-3, 1e-6]))
  same_step = [list(x) for x in g.domain]; same_step[k] = [same_step[k][0] + e, same_step[k][1] + e]
  wider = [list(x) for x in g.domain]; wider[k] = [wider[k][0], wider[k][1] + e]
  lower = [list(x) for x in g.domain]; lower[k] = [lower[k][0] - e, lower[k][1]]
  for nm, d in [('moved', same_step), ('wider', wider), ('extended below', lower)]:
    o2 = G.Grid(shp, domain=d)
    rec.ok('value', o2 != g and not (o2 == g) and len({o2, g, g2}) == 2, f'{nm}: {o2} / {g}')
    f2 = tuple(g.cell_center)
    rec.raises('reject', lambda: G.consistent_grid(gen.arr(np.zeros(shp), f2, g), gen.arr(np.zeros(shp), f2, o2)), G.InconsistentGridError, f'{nm}: {o2} / {g}')
  if nd > 1 and shp[0] == shp[1] and not np.allclose(g.domain[0], g.domain[1]):
    rec.ok('value', G.Grid(shp, domain=(g.domain[1], g.domain[0]) + tuple(g.domain[2:])) != g)


def s_place(rng, rec, i):
  """stagger / center place arrays at faces / centre; masks mark walls."""
  g = gen.grid(rng)
  nd = g.ndim
  v = tuple(gen.array(rng, g.shape, 'normal') for _ in range(nd))
  rec.case('place', nd, g.shape)
  for j, u in enumerate(g.stagger(v)):
    rec.field('stagger', u, v[j], offset=tuple(1.0 if k == j else .5 for k in range(nd)), grid=g, tol=0, scale=1)
  t = g.center({'a': v[0], 'b': [v[-1]]})
  rec.field('center', t['a'], v[0], offset=(.5,) * nd, grid=g, tol=0, scale=1)
  rec.field('center', t['b'][0], v[-1], offset=(.5,) * nd, grid=g, tol=0, scale=1)
  masks = G.domain_interior_masks(g)
  for j, m in enumerate(masks):
    want = np.ones(g.shape)
    np.moveaxis(want, j, 0)[-1] = 0  # the forward face of the last cell is the wall
    rec.close('mask', m, want, tol=0, scale=1, detail=f'{g}')
  far = G.Grid(g.shape, domain=tuple((lo, lo + (b - a) * u) for (a, b), lo, u in zip(g.domain, rng.choice([0., 1e3, -1e6], nd), rng.choice([1e-9, 1e-3, 1.], nd))))
  if all(abs(d[0]) * 1e-13 < s for d, s in zip(far.domain, far.step)):   # positions are resolved in float64
    for j, m in enumerate(G.domain_interior_masks(far)):
      want = np.ones(g.shape); np.moveaxis(want, j, 0)[-1] = 0
      rec.close('mask', m, want, tol=0, scale=1, detail=f'{far}')


def s_reject(rng, rec, i):
  nd = int(rng.integers(1, 4))
  shp = tuple(int(x) for x in rng.integers(2, 7, nd))
  rec.case('reject', nd)
  R = lambda f, e, d: rec.raises('reject', f, e, d)
  R(lambda: G.Grid(shp, step=1.0, domain=1.0), TypeError, 'both')
  R(lambda: G.Grid(shp, step=(1.0,) * (nd + 1)), ValueError, 'step length')
  R(lambda: G.Grid(shp, domain=((0, 1),) * (nd + 1)), ValueError, 'domain length')
  R(lambda: G.Grid(shp, domain=((0, 1, 2),) * nd), ValueError, 'bounds')
  R(lambda: G.Grid(tuple(s + .5 for s in shp)), TypeError, 'non-integer shape')
  g = G.Grid(shp)
  R(lambda: g.axes((.5,) * (nd + 1)), ValueError, 'offset length')
  R(lambda: g.mesh((.5,) * (nd - 1)), ValueError, 'offset length')
  if nd > 1:
    R(lambda: G.Grid(shp, step=(1.0,)), ValueError, 'step length')


SUITES = {
    'geometry': (s_geometry, 72, 1500),
    'place': (s_place, 24, 300),
    'reject': (s_reject, 9, 50),
}
REQUIRED = ['step', 'extent', 'axes', 'mesh', 'eval', 'fft', 'rfft', 'stagger', 'center', 'mask', 'reject', 'faces']
