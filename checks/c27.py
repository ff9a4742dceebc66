"""C27: forcings apply the stated body force at each component's location."""
import functools
import numpy as np
import jax
import jax.numpy as jnp
from jax_cfd.base import boundaries as B, forcings as fo, grids as G
from jax_cfd.ml import forcings as mf
from jax_cfd.spectral import forcings as sf
from vlib import gen, ref
from checks.c17 import kmag, mesh

RULE = ('random grids, domains, scales, wavenumbers, offsets, velocities and compositions; every returned force is compared '
        'sample by sample with its formula, twice with different velocities; distinct by (forcing, grid, options)')
ASSUMPTIONS = ['float64', 'the Taylor-Green force counts its wavenumber in periods of the domain (as coded: it is built on a 2*pi '
               'domain with the shape of the grid), the Kolmogorov force in radians per unit length',
               'wavenumbers of filtered forcing that lie within rounding of a band edge are judged on dyadic grids only, where the comparison is exact; the mean is never forced']

SHP = [(8, 8), (12, 9), (9, 14), (6, 5, 8), (4, 6, 5)]
OFF = [0., .5, 1.]


def velocity(rng, g, kind='normal', walls=False):
  if walls:
    bcs = gen.wall_velocity_bc(rng, g.ndim, (True,) + (False,) * (g.ndim - 1))
    return tuple(gen.variable(rng, g, o, b, kind) for o, b in zip(g.cell_faces, bcs))
  return gen.periodic_velocity(rng, g, kind)


def raw(v): return [np.asarray(u.data) for u in v]


def judge(rec, name, f, v, want, offs, det, tol=1e-11, scale=None):
  got = f(v)
  rec.eq('one force per component', len(got), len(want), det)
  s = scale or max(np.abs(w).max() for w in want) + 1e-30
  for a, w, o in zip(got, want, offs):
    rec.ok('forces are arrays without boundary conditions', isinstance(a, G.GridArray), det)
    rec.field(name, a, w, o, v[0].grid, tol=tol, scale=s, detail=det)
  return got


def tg(g, scale, k):
  """Taylor-Green force: k periods per domain length."""
  out = []
  for c, o in enumerate(g.cell_faces):
    T = np.meshgrid(*[2 * np.pi * (np.arange(n) + q) / n for n, q in zip(g.shape, o)], indexing='ij')
    if c == 0: out.append(scale * np.cos(k * T[0]) * np.sin(k * T[1]))
    elif c == 1: out.append(-scale * np.sin(k * T[0]) * np.cos(k * T[1]))
    else: out.append(0 * T[0])
  return out


def kolm(g, scale, k, swap, offs):
  out = [np.zeros(g.shape) for _ in range(g.ndim)]
  c = 1 if swap else 0
  out[c] = scale * np.sin(k * mesh(g, offs[c])[1 - c])
  return out


def suite_constant(rng, rec, i):
  g = gen.grid(rng, shp=gen.pick(rng, SHP), aspect=2.)
  if rng.random() < .3: g = G.Grid(g.shape, domain=((0, 2 * np.pi),) * g.ndim)
  scale = float(rng.normal() * 10. ** rng.integers(-2, 3)); k = int(rng.integers(1, 6))
  which = i % 3
  v = velocity(rng, g, walls=rng.random() < .3)
  if which == 0:
    swap = bool(rng.integers(2))
    custom = rng.random() < .5
    offs = tuple(tuple(float(x) for x in rng.choice(OFF, g.ndim)) for _ in range(g.ndim)) if custom else None
    det = f'kolmogorov {g} scale={scale} k={k} swap={swap} offsets={offs}'
    rec.case('kolmogorov', g.shape, swap, custom, k, sample=det)
    f = fo.kolmogorov_forcing(g, scale, k, swap, offs)
    o = offs or g.cell_faces
    got = judge(rec, 'Kolmogorov force is a sine of the transverse coordinate', f, v, kolm(g, scale, k, swap, o), o, det)
    if not custom:
      d = ref.pdiv(raw(got), g.step)
      rec.small('Kolmogorov force is discretely divergence-free', d, abs(scale) / min(g.step), tol=1e-12, detail=det)
    a = raw(f(velocity(rng, g)))
    for x, y in zip(a, raw(got)): rec.ok('constant force does not depend on the velocity', np.array_equal(x, y), det)
    d = fo.kolmogorov_forcing(g)
    judge(rec, 'documented defaults', d, v, kolm(g, 1., 2, False, g.cell_faces), g.cell_faces, det)
  elif which == 1:
    det = f'taylor-green {g} scale={scale} k={k}'
    rec.case('taylor-green', g.shape, k, sample=det)
    f = fo.taylor_green_forcing(g, scale, k)
    got = judge(rec, 'Taylor-Green force is the vortex array', f, v, tg(g, scale, k), g.cell_faces, det)
    if g.shape[0] == g.shape[1] and len(set(np.round(g.step[:2], 12))) == 1:
      rec.small('Taylor-Green force is discretely divergence-free on square cells', ref.pdiv(raw(got), g.step), abs(scale) / min(g.step), tol=1e-11, detail=det)
    for x, n in zip(raw(got), g.shape):
      if k % n: rec.small('Taylor-Green force has no mean', x.mean(), abs(scale) + 1e-30, tol=1e-12 if k % g.shape[0] and k % g.shape[1] else 2., detail=det)
    for x, y in zip(raw(f(velocity(rng, g))), raw(got)): rec.ok('constant force does not depend on the velocity', np.array_equal(x, y), det)
    judge(rec, 'documented defaults', fo.taylor_green_forcing(g), v, tg(g, 1., 2), g.cell_faces, det)
  else:
    typ = gen.pick(rng, ['kolmogorov', 'taylor_green', 'default']); lin = float(rng.normal())
    det = f'turbulence {typ} {g} scale={scale} k={k} linear={lin}'
    rec.case('turbulence', typ, g.shape, k, sample=det)
    kw = {} if typ == 'default' else {'forcing_type': typ}
    f = fo.simple_turbulence_forcing(g, scale, k, lin, **kw)
    const = tg(g, scale, k) if typ == 'taylor_green' else kolm(g, scale, k, False, g.cell_faces)
    judge(rec, 'turbulence force is linear plus constant', f, v, [lin * a + b for a, b in zip(raw(v), const)], g.cell_faces, det)
    rec.raises('forcing of one-dimensional flow rejected', lambda: [f(G.Grid((8,), step=1.)) for f in (fo.kolmogorov_forcing, fo.taylor_green_forcing)], Exception)
    rec.raises('unknown forcing type rejected', lambda: fo.simple_turbulence_forcing(g, 1, 2, 0, 'nonsense'), ValueError)
    judge(rec, 'turbulence force defaults to nothing', fo.simple_turbulence_forcing(g), v, [0 * a for a in raw(v)], g.cell_faces, det, scale=1)


def suite_linear(rng, rec, i):
  g = gen.grid(rng, shp=gen.pick(rng, SHP + [(9,)]))
  v = velocity(rng, g, gen.pick(rng, ['normal', 'spikes', 'scaled']), walls=rng.random() < .4)
  if rng.random() < .3:
    v = gen.periodic_velocity(rng, g, 'normal', collocated=True)
  offs = [u.offset for u in v]
  a, b, c = [float(x) for x in rng.normal(size=3)]
  rec.case('linear', g.shape, v[0].bc.types, offs[0])
  x = raw(v); det = f'{g} {a} {b}'
  judge(rec, 'linear force is proportional to the velocity', fo.linear_forcing(g, a), v, [a * u for u in x], offs, det, tol=1e-14)
  judge(rec, 'no force', fo.no_forcing(g), v, [0 * u for u in x], offs, det, scale=1)
  d = [rng.standard_normal(g.shape) for _ in x]
  h = lambda w: tuple(gen.arr(e, u.offset, g) for e, u in zip(d, w))
  q = lambda w: tuple(c * u.array * u.array for u in w)
  fs = [fo.linear_forcing(g, a), h, fo.no_forcing(g), q, fo.linear_forcing(g, b)]
  n = int(rng.integers(1, 6)); idx = rng.permutation(5)[:n]
  terms = [[a * u for u in x], d, [0 * u for u in x], [c * u * u for u in x], [b * u for u in x]]
  s = sum(max(np.abs(t).max() for t in tt) for tt in terms)
  for m in (fo, mf):
    judge(rec, 'composed forces add up', m.sum_forcings(*[fs[j] for j in idx]), v, [sum(terms[j][k] for j in idx) for k in range(len(x))], offs, det, scale=s)
  nested = fo.sum_forcings(fo.sum_forcings(fs[0], fs[1]), fo.sum_forcings(fs[3], fs[4]))
  judge(rec, 'composed forces nest', nested, v, [sum(terms[j][k] for j in (0, 1, 3, 4)) for k in range(len(x))], offs, det, scale=s)


def suite_filtered(rng, rec, i):
  g = gen.grid(rng, shp=gen.pick(rng, SHP + [(9,)]), aspect=2.)
  v = velocity(rng, g)
  x = raw(v); k = kmag(g)
  kk = np.unique(np.round(k[k > 0] / 2 / np.pi, 12))
  lo = 0. if rng.random() < .3 else float(rng.uniform(0, kk.max())); hi = float(rng.uniform(lo, kk.max() * 1.2))
  c = float(rng.normal())
  if min(np.min(np.abs(kk - lo)), np.min(np.abs(kk - hi))) < 1e-7 * kk.max(): return
  rec.case('filtered', g.shape, np.round(g.step, 2), lo == 0)
  det = f'{g} band {lo:.4g}..{hi:.4g} coefficient {c:.4g}'
  for f in (fo.filtered_linear_forcing(lo, hi, c, g), mf.filtered_linear_forcing(g, c, lo, hi)):
    mask = (k >= 2 * np.pi * lo) & (k <= 2 * np.pi * hi) & (k > 0)
    want = [c * np.real(np.fft.ifftn(np.fft.fftn(u) * mask)) for u in x]
    judge(rec, 'filtered linear force acts on its band only', f, v, want, [u.offset for u in v], det, scale=max(np.abs(u).max() for u in x) * abs(c))
  a = float(rng.uniform(.2, 2))
  f = fo.filtered_forcing(lambda q: q / (a + q ** 2), g)
  want = [np.real(np.fft.ifftn(np.fft.fftn(u) * (k / (a + k ** 2)) * (k > 0))) for u in x]
  judge(rec, 'filtered force multiplies each wavenumber', f, v, want, [u.offset for u in v], det, scale=max(np.abs(u).max() for u in x) / a)
  # single modes: inside or outside the band
  m = tuple(int(rng.integers(0, n)) for n in g.shape)
  if any(m):
    ph = sum(2 * np.pi * j * np.arange(n).reshape([-1 if b == ax else 1 for b in range(g.ndim)]) / n for ax, (j, n) in enumerate(zip(m, g.shape)))
    w = tuple(gen.var(np.cos(ph), u.offset, g, u.bc) for u in v)
    inside = 2 * np.pi * lo <= k[m] <= 2 * np.pi * hi
    judge(rec, 'a single wave is forced or left alone', fo.filtered_linear_forcing(lo, hi, c, g), w, [c * inside * np.cos(ph)] * g.ndim, [u.offset for u in v], det + f' mode {m}', scale=abs(c))


def suite_edges(rng, rec, i):
  """Waves whose wavenumber is exactly a limit of the band (dyadic grids, where the comparison is exact) are forced."""
  d = int(rng.integers(1, 4)); n = [int(x) for x in rng.choice([4, 8, 16] if d < 3 else [4, 8], d)]
  L = [float(2. ** rng.integers(-2, 3)) for _ in range(d)]
  g = G.Grid(tuple(n), domain=tuple((0., l) for l in L))
  ax = int(rng.integers(d)); m = int(rng.integers(1, n[ax] // 2 + 1)); kw = m / L[ax]
  c = float(rng.normal() + np.sign(rng.normal()))
  w = np.broadcast_to(np.cos(2 * np.pi * m * np.arange(n[ax]) / n[ax]).reshape([-1 if b == ax else 1 for b in range(d)]), g.shape)
  v = tuple(gen.var(w, o, g, B.periodic_boundary_conditions(d)) for o in g.cell_faces)
  rec.case('edges', g.shape, ax, m)
  for lo, hi in ((kw, 2 * kw), (0., kw), (kw, kw)):
    for f in (fo.filtered_linear_forcing(lo, hi, c, g), mf.filtered_linear_forcing(g, c, lo, hi)):
      judge(rec, 'the limits of the band belong to the band', f, v, [c * w] * d, [u.offset for u in v], f'{g} axis {ax} mode {m} band {lo}..{hi}', scale=abs(c))


def suite_random(rng, rec, i):
  """Random travelling waves of Bar-Sinai et al."""
  seed = int(rng.integers(1 << 30)); L = 2 * np.pi * int(rng.integers(1, 3)); N = gen.pick(rng, [32, 45, 64])
  g = G.Grid((N,), domain=((0., L),))
  n = gen.pick(rng, [1, 1, 20, 5]); off = gen.pick(rng, [0., .5])
  rec.case('random', N, n, off, L)
  det = f'N={N} n={n} seed={seed} offset={off} L={L:.3f}'
  kw = {} if off == 0. and rng.random() < .5 else {'offset': (off,)}
  if n != 20: kw['n'] = n
  f = sf.random_forcing_module(g, seed, **kw)
  x = (np.arange(N) + off) * L / N
  ts = np.concatenate([[0.], rng.uniform(0, 50, 5)])
  F = np.stack([np.asarray(f(t)) for t in ts])
  rec.eq('random force has the shape of the grid', F.shape, (len(ts), N), det)
  for t, a in zip(ts[:2], F): rec.ok('random force depends on seed and time only', np.array_equal(np.asarray(sf.random_forcing_module(g, seed, **kw)(t)), a), det)
  rec.leq('random force is bounded by its amplitudes', np.abs(F).max(), n / 2, detail=det)
  E = np.stack([np.exp(1j * k * x) for k in (3, 4, 5, 6)])
  C = F @ E.conj().T / N  # complex amplitude of each wave
  rec.close('random force contains wavenumbers 3 to 6 only', F, 2 * np.real(C @ E), tol=1e-9, scale=n / 2, detail=det)
  g2 = G.Grid((N,), domain=((-1.3, L - 1.3),))
  F2 = np.asarray(sf.random_forcing_module(g2, seed, **kw)(ts[1]))
  rec.close('random force follows the coordinate of each sample', F2, 2 * np.real(C[1] @ np.stack([np.exp(1j * k * (x - 1.3)) for k in (3, 4, 5, 6)])), tol=1e-9, scale=n / 2, detail=det)
  # time dependence: every wave is a sum of frequencies within [-.4, .4]
  T, M = 400., 512
  G_ = np.stack([np.asarray(a) for a in jax.vmap(f)(jnp.arange(M) * T / M)]) @ E.conj().T / N
  w = np.blackman(M)[:, None]
  S = np.abs(np.fft.fft(G_ * w, axis=0)); om = 2 * np.pi * np.fft.fftfreq(M, T / M)
  out = np.abs(om) > .4 + 2 * np.pi * 8 / T
  rec.small('random force frequencies stay within 0.4', S[out], S.max() + 1e-12, tol=2e-3, detail=det)
  if n == 1:
    q = np.argmax(np.abs(C[0])); a = np.abs(C[:, q])
    rec.close('single wave keeps its amplitude', a, a[0] * np.ones_like(a), tol=1e-8, detail=det)
    rec.leq('single wave has amplitude at most one half', 2 * a[0], .5, 1e-9, detail=det)
    u = np.angle(G_[1:, q] / G_[:-1, q]) / (T / M)
    rec.close('single wave has a constant frequency', u, np.full_like(u, u.mean()), tol=1e-6, scale=.4, detail=det)
    rest = np.delete(np.abs(C), q, axis=1)
    rec.small('single wave has one wavenumber', rest, a[0], tol=1e-8, detail=det)
  other = np.asarray(sf.random_forcing_module(g, seed + 1, **kw)(ts[1]))
  rec.ok('another seed gives another force', np.abs(other - F[1]).max() > 1e-6, det)


def suite_random_population(rng, rec, i):
  """Over many seeds: wavenumbers 3-6 all occur, amplitudes, frequencies and phases fill their ranges."""
  g = G.Grid((32,), domain=((0., 2 * np.pi),))
  x = np.arange(32) * 2 * np.pi / 32
  E = np.stack([np.exp(1j * k * x) for k in (3, 4, 5, 6)])
  A, W, K, PH = [], [], [], []
  for s in range(150):
    f = sf.random_forcing_module(g, s + 1000 * i, n=1)
    c = np.stack([np.asarray(f(0.)), np.asarray(f(1.))]) @ E.conj().T / 32
    q = np.argmax(np.abs(c[0])); K.append(q); A.append(2 * abs(c[0, q])); W.append(np.angle(c[1, q] / c[0, q])); PH.append(np.angle(c[0, q]))
  rec.case('population', i)
  rec.ok('each wavenumber is drawn', np.bincount(K, minlength=4).min() >= 15, str(np.bincount(K, minlength=4)))
  A, W = np.array(A), np.abs(np.array(W))
  rec.ok('amplitudes fill [0, 0.5]', A.max() <= .5 + 1e-6 and A.max() > .45 and .2 < A.mean() < .3, f'{A.max()} {A.mean()}')
  rec.ok('frequencies fill [0, 0.4]', W.max() <= .4 + 1e-5 and W.max() > .36 and .16 < W.mean() < .24, f'{W.max()} {W.mean()}')
  h = np.histogram(PH, bins=4, range=(-np.pi, np.pi))[0]
  rec.ok('phases fill the circle', h.min() >= 15, str(h))


def suite_ml(rng, rec, i):
  g = gen.grid(rng, shp=gen.pick(rng, SHP), aspect=2.)
  v = velocity(rng, g); x = raw(v)
  s, k, lin = float(rng.normal()), int(rng.integers(1, 6)), float(gen.pick(rng, [0., 1., -.3]))
  swap = bool(rng.integers(2))
  rec.case('ml', g.shape, k, lin, swap)
  det = f'{g} scale={s} k={k} linear={lin} swap={swap}'
  sc = max(np.abs(u).max() for u in x) * abs(lin) + abs(s)
  add = lambda c: [lin * u + w for u, w in zip(x, c)]
  judge(rec, 'configured Kolmogorov force', mf.kolmogorov_forcing(g, s, k, lin, swap), v, add(kolm(g, s, k, swap, g.cell_faces)), g.cell_faces, det, scale=sc)
  judge(rec, 'configured Taylor-Green force', mf.taylor_green_forcing(g, s, k, lin), v, add(tg(g, s, k)), g.cell_faces, det, scale=sc)
  judge(rec, 'configured linear force', mf.linear_forcing(g, s), v, [s * u for u in x], g.cell_faces, det)
  judge(rec, 'configured absence of force', mf.no_forcing(g), v, [0 * u for u in x], g.cell_faces, det, scale=1)
  if g.ndim == 2:
    o = ((0., 0.), (0., 0.))
    vc = tuple(gen.var(u, (0., 0.), g, B.periodic_boundary_conditions(2)) for u in x)
    judge(rec, 'configured spectral force', mf.spectral_kolmogorov_forcing(g), vc, kolm(g, 1., 4, False, o), o, det)
    judge(rec, 'configured Kolmogorov force at given offsets', mf.kolmogorov_forcing(g, s, k, lin, swap, o), vc, add(kolm(g, s, k, swap, o)), o, det, scale=sc)
    # curl of the force in vorticity space
    n, m = g.shape
    g2 = G.Grid(g.shape, domain=((0., 2 * np.pi * int(rng.integers(1, 3))), (0., 2 * np.pi * int(rng.integers(1, 3)))))
    kk = 1 if min(n, m) < 9 else int(rng.integers(1, 3))
    w = rng.standard_normal(g.shape)
    wh = np.fft.rfft2(w)
    if n % 2 == 0: wh[n // 2] = 0
    if m % 2 == 0: wh[:, m // 2] = 0
    w = np.fft.irfft2(wh, s=g.shape)
    f = mf.vorticity_space_forcing(g2, functools.partial(mf.kolmogorov_forcing, scale=s, wavenumber=kk, linear_coefficient=lin, swap_xy=swap))
    got = np.asarray(f(jnp.asarray(w)[..., None])).reshape(g.shape)
    X, Y = mesh(g2, (0., 0.))
    want = lin * (w - w.mean()) + (s * kk * np.cos(kk * X) if swap else -s * kk * np.cos(kk * Y))
    rec.close('vorticity-space force is the curl of the force', got, want, tol=1e-9, scale=abs(lin) * np.abs(w).max() + abs(s) * kk, detail=det)


SUITES = {
    'constant': (suite_constant, 120, 5000),
    'linear': (suite_linear, 60, 2000),
    'filtered': (suite_filtered, 60, 2000),
    'edges': (suite_edges, 24, 400),
    'random': (suite_random, 24, 1000),
    'random_population': (suite_random_population, 1, 4),
    'ml': (suite_ml, 60, 2000),
}
REQUIRED = ['Kolmogorov force is a sine of the transverse coordinate', 'Taylor-Green force is the vortex array', 'composed forces add up',
            'filtered linear force acts on its band only', 'random force contains wavenumbers 3 to 6 only', 'vorticity-space force is the curl of the force']
