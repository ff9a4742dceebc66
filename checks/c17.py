"""C17: initial conditions are reproducible, divergence-free and of the requested size."""
import functools
import numpy as np
import jax
import jax.numpy as jnp
from jax_cfd.base import boundaries as B, filter_utils, grids as G, initial_conditions as ic, pressure as pr
from jax_cfd.base import validation_problems as vp
from jax_cfd.collocated import initial_conditions as cic
from vlib import gen
from checks.c10 import cdiv, div_np, project_np, wall_problem

RULE = ('random keys, anisotropic grids, speeds and peak wavenumbers; every generated field is measured (divergence, mean, '
        'speed, location, conditions), generated twice, in other units and under jit, and its spectrum is accumulated over '
        'many keys; user functions are compared with numpy evaluation at each sample; distinct by configuration')
ASSUMPTIONS = ['float64', 'at least two dimensions for filtered noise (in one dimension the divergence-free part is constant)',
               'peak wavenumbers inside the resolved band', 'the amplitude spectrum is the log-normal density over |k|**(ndim-1) stated in the code']

SHP = [(8, 8), (12, 8), (9, 14), (7, 7), (16, 10), (6, 5, 8), (4, 6, 5)]


def raw(v): return [np.asarray(u.data) for u in v]


def kmag(g):
  K = [2 * np.pi * np.fft.fftfreq(n) / h for n, h in zip(g.shape, g.step)]
  return np.sqrt(sum(k ** 2 for k in np.meshgrid(*K, indexing='ij')))


def density(k, peak, ndim):
  k = np.where(k > 0, k, 1.)
  return np.exp(-(np.log(peak) + .25 - np.log(k)) ** 2 / .5 - np.log(k)) / k ** (ndim - 1)


def band(g):
  return 2 * np.pi / max(b - a for a, b in g.domain), np.pi / max(g.step)


def suite_filter(rng, rec, i):
  g = gen.grid(rng, shp=gen.pick(rng, SHP + [(9,), (16,)]))
  a, b, c = rng.uniform(.2, 2), rng.uniform(.5, 2), rng.uniform(-1, 1)
  kind = i % 4
  fj, fn = [
      (lambda k: a / k ** b, lambda k: a / k ** b),
      (lambda k: jnp.where(k < 3 * a, c, 0.), lambda k: np.where(k < 3 * a, c, 0.)),
      (lambda k: jnp.exp(-b * k) + c, lambda k: np.exp(-b * k) + c),
      (lambda k: c + 0 * k, lambda k: c + 0 * k)][kind]
  x = gen.array(rng, g.shape)
  rec.case('filter', g.shape, kind, np.round(g.step, 2))
  k = kmag(g)
  if kind == 1 and np.min(np.abs(k - 3 * a)) < 1e-9: return
  got = filter_utils.filter(fj, jnp.asarray(x), g)
  with np.errstate(all='ignore'): f = np.where(k > 0, fn(np.where(k > 0, k, 1.)), 0.)
  want = np.real(np.fft.ifftn(np.fft.fftn(x) * f))
  s = np.abs(x).max() * np.abs(f).max() + 1e-30
  rec.close('filter multiplies each wavenumber by its density', got, want, tol=1e-11, scale=s, detail=str(g))
  rec.ok('filtered field is real', not np.iscomplexobj(np.asarray(got)), str(g))
  rec.small('filtered field has zero mean', np.mean(np.asarray(got)), s, tol=1e-12)


def suite_filtered(rng, rec, i):
  g = gen.grid(rng, shp=gen.pick(rng, SHP), aspect=gen.pick(rng, [1.2, 3.]))
  lo, hi = band(g)
  peak = float(np.exp(rng.uniform(np.log(lo), np.log(max(hi, 1.5 * lo)))))
  U = float(10 ** rng.uniform(-3, 3)); it = gen.pick(rng, [1, 2, 3, 3, 6])
  seed = int(rng.integers(1 << 30)); key = jax.random.PRNGKey(seed)
  make = lambda key=key, g=g, U=U, peak=peak, it=it: ic.filtered_velocity_field(key, g, U, peak, it)
  rec.case('filtered', g.shape, it, np.round(g.step, 2), sample={'grid': str(g), 'U': U, 'peak': peak, 'iterations': it})
  det = f'{g} U={U:.3g} peak={peak:.3g} iterations={it}'
  v = make(); x = raw(v)
  bc = B.periodic_boundary_conditions(g.ndim)
  rec.eq('number of components', len(v), g.ndim, det)
  for u, o in zip(v, g.cell_faces):
    rec.field('components live on their faces with periodic conditions', u, None, o, g, bc, detail=det)
  if not all(np.isfinite(u).all() for u in x): rec.ok('field is finite', False, det); return
  rec.small('field is discretely divergence-free', div_np(x, [bc] * g.ndim, g), U * sum(1 / h for h in g.step), tol=1e-10, detail=det)
  for u in x: rec.small('field has zero mean', u.mean(), U, tol=1e-11, detail=det)
  rec.close('field reaches the requested speed', np.sqrt(sum(u ** 2 for u in x)).max(), U, tol=1e-9, detail=det)
  np.random.seed(3)
  for a, b in zip(raw(make()), x): rec.ok('field depends only on key and parameters', np.array_equal(a, b), det)
  which = i % 4
  if which == 0:
    for a, b in zip(raw(jax.jit(make)()), x): rec.close('compiled field is the same', a, b, tol=1e-9, scale=U, detail=det)
  elif which == 1:
    for a, b in zip(raw(make(U=2.5 * U)), x): rec.close('field scales with the requested speed', a, 2.5 * b, tol=1e-9, scale=U, detail=det)
  elif which == 2:
    for a, b in zip(raw(make(it=it + 2)), x): rec.close('further iterations change nothing', a, b, tol=1e-9, scale=U, detail=det)
  else:
    s = float(rng.uniform(.2, 4)); sh = rng.normal(size=g.ndim)
    g2 = G.Grid(g.shape, domain=tuple((s * (a + c), s * (b + c)) for (a, b), c in zip(g.domain, sh)))
    for a, b in zip(raw(make(g=g2, peak=peak / s)), x): rec.close('field depends on wavenumber times length only', a, b, tol=1e-7, scale=U, detail=det)
  y = raw(make(key=jax.random.PRNGKey(seed + 1)))
  cc = abs(sum((a * b).sum() for a, b in zip(x, y))) / np.sqrt(sum((a * a).sum() for a in x) * sum((b * b).sum() for b in y))
  rec.ok('another key gives another field', cc < .9999, f'{det}: correlation {cc}')
  # default arguments
  if i % 5 == 0:
    g3 = G.Grid((16, 12), domain=((0, 2 * np.pi), (0, 2 * np.pi)))
    a, b = raw(ic.filtered_velocity_field(key, g3)), raw(ic.filtered_velocity_field(key, g3, 1., 3., 3))
    for p, q in zip(a, b): rec.ok('documented defaults', np.array_equal(p, q), 'defaults')


def suite_collocated(rng, rec, i):
  g = gen.mild_grid(rng, shp=gen.pick(rng, [(8, 8), (9, 6), (7, 7), (4, 6, 5)]))
  lo, hi = band(g)
  peak = float(rng.uniform(lo, hi)); U = float(10 ** rng.uniform(-2, 2))
  seed = int(rng.integers(1 << 30)); key = jax.random.PRNGKey(seed)
  make = lambda key=key, U=U: cic.filtered_velocity_field(key, g, U, peak)
  rec.case('collocated', g.shape, np.round(g.step, 2), sample={'grid': str(g), 'U': U, 'peak': peak})
  det = f'{g} U={U:.3g} peak={peak:.3g}'
  v = make(); x = raw(v)
  bc = B.periodic_boundary_conditions(g.ndim)
  rec.eq('number of components', len(v), g.ndim, det)
  for u in v: rec.field('collocated components live at cell centres', u, None, g.cell_center, g, bc, detail=det)
  rec.close('collocated field reaches the requested speed', np.sqrt(sum(u ** 2 for u in x)).max(), U, tol=1e-9, detail=det)
  d = cdiv(x, g.step)
  # the default solver stops at 1e-6 (absolute in the units of the divergence, or relative)
  rec.small('collocated field is divergence-free to solver tolerance', np.sqrt((d ** 2).sum()), U * sum(1 / h for h in g.step) * np.sqrt(d.size) + 1, tol=4e-6, detail=det)
  for u in x: rec.small('collocated field has zero mean', u.mean(), U, tol=1e-9, detail=det)
  for a, b in zip(raw(make()), x): rec.ok('collocated field depends only on key and parameters', np.array_equal(a, b), det)
  y = raw(make(key=jax.random.PRNGKey(seed + 1)))
  cc = abs(sum((a * b).sum() for a, b in zip(x, y))) / np.sqrt(sum((a * a).sum() for a in x) * sum((b * b).sum() for b in y))
  rec.ok('another key gives another collocated field', cc < .9999, f'{det}: correlation {cc}')


def suite_spectrum(rng, rec, i):
  """Spectrum over many keys: the stated density, times the projection, for each direction."""
  shp = [(24, 24), (20, 28), (10, 10, 10)][i % 3]; K = [160, 160, 60][i % 3]
  dom = [(0., float(rng.uniform(4, 8))) for _ in shp]
  g = G.Grid(shp, domain=tuple(dom))
  nd = g.ndim
  lo, hi = band(g)
  peak = float(rng.uniform(2 * lo, 4 * lo))
  rec.case('spectrum', shp, sample={'grid': str(g), 'peak': peak})
  keys = jax.random.split(jax.random.PRNGKey(int(rng.integers(1 << 30))), K)
  vs = jax.jit(jax.vmap(lambda k: tuple(u.data for u in ic.filtered_velocity_field(k, g, 1., peak))))(keys)
  E = 0
  for u in vs:
    E = E + np.abs(np.fft.fftn(np.asarray(u), axes=range(1, nd + 1))) ** 2
  E = (E / E.sum(axis=tuple(range(1, nd + 1)), keepdims=True)).mean(0)
  k = kmag(g)
  W = np.where(k > 0, density(k, peak, nd) ** 2, 0.) * (nd - 1)
  W /= W.sum()
  det = f'{g} peak={peak:.3g}'
  # shells
  edges = np.quantile(np.repeat(k.ravel(), np.maximum(1, (W.ravel() * 400).astype(int))), np.linspace(0, 1, 6))
  edges[0], edges[-1] = 0, np.inf
  for a, b in zip(edges[:-1], edges[1:]):
    m = (k > a) & (k <= b)
    if W[m].sum() < .05 or m.sum() < 8: continue
    n = m.sum() * K / 2 * (nd - 1)
    rec.close('energy per shell follows the stated density', E[m].sum(), W[m].sum(), tol=.12 + 6 / np.sqrt(n), detail=f'{det} shell {a:.3g}-{b:.3g}')
  # directions: no correlation between components before projection, no preferred axis
  sig = [np.sign(np.fft.fftfreq(n)) for n in g.shape]
  M = np.meshgrid(*sig, indexing='ij')
  for p in range(nd):
    for q in range(p):
      same, opp = (M[p] * M[q] > 0), (M[p] * M[q] < 0)
      rec.close('energy is symmetric between diagonal directions', E[same].sum() / W[same].sum(), E[opp].sum() / W[opp].sum(), tol=.25, detail=det)
  for p in range(nd):
    m = (np.abs(M[p]) > 0) & np.all([M[q] == 0 for q in range(nd) if q != p], axis=0)
    if W[m].sum() > .03:
      rec.close('no preferred axis', E[m].sum(), W[m].sum(), tol=.45, detail=f'{det} axis {p}')


def fns(rng, g, normal_walls=None):
  """(jax function, numpy function) per component; vanishing on impermeable walls."""
  out = []
  for c in range(g.ndim):
    w = rng.normal(size=g.ndim); p = float(rng.normal()); a = rng.normal(size=g.ndim)
    def f(xp, *X, w=w, p=p, a=a, c=c):
      r = xp.cos(sum(float(k) * x for k, x in zip(w, X)) + p) + sum(float(k) * x for k, x in zip(a, X))
      if normal_walls is not None and normal_walls[c]:
        (l, h) = g.domain[c]
        r = r * xp.sin(np.pi * (X[c] - l) / (h - l))
      return r
    out.append(f)
  return tuple(functools.partial(f, jnp) for f in out), [functools.partial(f, np) for f in out]


def mesh(g, o):
  return np.meshgrid(*[a + (np.arange(n) + q) * h for (a, _), n, q, h in zip(g.domain, g.shape, o, g.step)], indexing='ij')


def suite_functions(rng, rec, i):
  g = gen.grid(rng, shp=gen.pick(rng, SHP + [(9,)]), aspect=2.)
  kind = gen.pick(rng, ['default', 'periodic', 'walls'])
  it = gen.pick(rng, [None, 0, 1, 2])
  walls = None
  if kind == 'walls':
    walls, through, slip, bcs = wall_problem(rng, g)
    if any(through): kind, bcs, walls = 'default', None, None
  bcs_arg = None if kind == 'default' else ([B.periodic_boundary_conditions(g.ndim)] * g.ndim if kind == 'periodic' else bcs)
  bcs = bcs_arg or [B.periodic_boundary_conditions(g.ndim)] * g.ndim
  fj, fn = fns(rng, g, walls)
  calls = []
  def solve(v, q0, *a, **k):
    calls.append(1); return pr.solve_fast_diag(v, q0, *a, **k)
  custom = bool(rng.integers(2)); kw = {'pressure_solve': solve} if custom else {}
  rec.case('functions', g.shape, kind, it, custom, walls)
  det = f'{g} {kind} iterations={it} walls={walls}'
  v = ic.initial_velocity_field(fj, g, bcs_arg, iterations=it, **kw)
  want = [f(*mesh(g, o)) for f, o in zip(fn, g.cell_faces)]
  s = max(np.abs(w).max() for w in want)
  if it: want = project_np(want, bcs, g)[0]
  rec.eq('number of components', len(v), g.ndim, det)
  for u, w, o, b in zip(v, want, g.cell_faces, bcs):
    rec.field('each component is its function at its own samples, projected if asked', u, w, o, g, b, tol=1e-8 if it else 1e-12, scale=s, detail=det)
  rec.ok('the given pressure solver is used when projecting', bool(calls) or not (custom and it), det)
  rec.ok('nothing is solved unless asked', not calls or it is not None, det)


def suite_wrap(rng, rec, i):
  g = gen.grid(rng, shp=gen.pick(rng, [(5, 6), (4, 6, 5)]), aspect=2.)
  nd = g.ndim
  bcs = [gen.bc(rng, nd, ('p', 'd')) for _ in range(nd)]
  offs = None if rng.random() < .4 else [gen.admissible_offset(rng, b.types, (.5, 1.)) for b in bcs]
  batch = bool(rng.integers(2)); n = 3
  data = [rng.standard_normal(((n,) if batch else ()) + g.shape) for _ in range(nd)]
  rec.case('wrap', g.shape, batch, offs is None, tuple(b.types for b in bcs))
  v = ic.wrap_variables(tuple(jnp.asarray(d) for d in data), g, bcs, offs, batch)
  for u, d, b, o in zip(v, data, bcs, offs or g.cell_faces):
    want = np.stack([gen.wall_fix(x, g, o, b) for x in (d if batch else [d])])
    got = np.asarray(u.data)
    m = np.zeros(g.shape, int)
    # samples shared by two walls may carry either value
    for ax in range(nd):
      if b.types[ax][1] == B.BCType.DIRICHLET and abs(o[ax] - 1) < 1e-9:
        np.moveaxis(m, ax, 0)[-1] += 1
    ok = np.broadcast_to(m < 2, want.shape)
    rec.close('wrapped arrays keep their values, walls take theirs', (got if batch else got[None])[ok], want[ok], tol=1e-13, detail=f'{g.shape} {b} {o}')
    rec.field('wrapped arrays carry offset, grid and conditions', u, None, o, g, b, detail=f'{g.shape} batch={batch}')


def suite_taylor_green(rng, rec, i):
  shp = gen.pick(rng, [(8, 8), (12, 9), (16, 10)])
  kx, ky = int(rng.integers(1, 4)), int(rng.integers(1, 4))
  if rng.random() < .15: kx, ky = gen.pick(rng, [(0, 2), (3, 0), (-1, 2)])
  nu, rho, t = float(rng.uniform(0, .5)), float(gen.pick(rng, [1., .5, 3.])), float(rng.uniform(0, 2))
  offs = None if rng.random() < .5 else tuple(tuple(float(x) for x in rng.choice([0, .5, 1.], 2)) for _ in range(2))
  rec.case('taylor-green', shp, kx, ky, offs is None, rho)
  p = vp.TaylorGreen(shp, density=rho, viscosity=nu, kx=kx, ky=ky)
  det = f'{shp} kx={kx} ky={ky} nu={nu:.3f} rho={rho} t={t:.3f} offsets={offs}'
  g = p.grid
  rec.ok('problem reports its grid and parameters', g.shape == shp and np.allclose(g.domain, [(0, 2 * np.pi)] * 2) and p.density == rho
         and p.viscosity == nu and p.force() is None, det)
  amp = []
  for tt in (0., t):
    v = p.velocity(tt, offs)
    A = []
    for c, (u, o) in enumerate(zip(v, offs or g.cell_faces)):
      x, y = mesh(g, o)
      f = np.cos(kx * x) * np.sin(ky * y) if c == 0 else np.sin(kx * x) * np.cos(ky * y)
      d = np.asarray(u.data); n = (f * f).sum()
      a = (f * d).sum() / n if n > 1e-9 else 0.
      A.append(a if n > 1e-9 else None)
      rec.field('vortex has the stated shape at its own samples', u, a * f, o, g, B.periodic_boundary_conditions(2), tol=1e-11, scale=1., detail=det)
    amp.append(A)
  (a0, b0), (a1, b1) = amp
  if None not in (a0, b0):
    rec.close('vortex is divergence-free', kx * a0, -ky * b0, tol=1e-11, scale=1., detail=det)
    rec.close('vortex has unit amplitude', max(abs(a0), abs(b0)), 1., tol=1e-11, detail=det)
  dec = np.exp(-(kx ** 2 + ky ** 2) * nu / rho * t)
  for p0, p1 in zip(amp[0], amp[1]):
    if p0 is not None: rec.close('vortex decays at its viscous rate', p1, p0 * dec, tol=1e-10, scale=1., detail=det)


SUITES = {
    'filter': (suite_filter, 40, 1500),
    'filtered': (suite_filtered, 32, 2000),
    'collocated': (suite_collocated, 12, 600),
    'spectrum': (suite_spectrum, 3, 40),
    'functions': (suite_functions, 80, 3000),
    'wrap': (suite_wrap, 40, 1000),
    'taylor_green': (suite_taylor_green, 50, 1000),
}
REQUIRED = ['field is discretely divergence-free', 'field reaches the requested speed', 'collocated field reaches the requested speed',
            'each component is its function at its own samples, projected if asked', 'energy per shell follows the stated density',
            'vortex decays at its viscous rate']
