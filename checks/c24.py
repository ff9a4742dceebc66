"""C24: data utilities report what the trajectory contains."""
import io
import itertools
import numpy as np
import xarray
import jax.numpy as jnp
from jax_cfd.base import boundaries as B, grids as G
from jax_cfd.data import evaluation as ev, xarray_utils as xu
from vlib import gen

RULE = ('random trajectories on random grids (1-3 dimensions, odd and even sizes, shifted anisotropic domains, with and without '
        'samples, model axes and shuffled dimension orders) are labelled, parsed and reduced; every derived array is compared by '
        'label with an explicit numpy loop over the definition; distinct by configuration')
ASSUMPTIONS = ['float64', 'uniform coordinates with at least two points per axis', 'grids whose isotropic spectrum has at least one bin', 'positive spectral density where the documented '
               'logarithmic interpolation is used', 'bin edges that coincide with a wavenumber magnitude are not judged',
               'dask is not installed here: Dataset.chunk, a storage hint, is replaced by the identity']

XYZ = 'xyz'
SH = {1: [(7,), (12,), (16,)], 2: [(6, 9), (8, 5), (8, 8), (12, 10)], 3: [(4, 6, 5), (6, 4, 8), (5, 5, 5)]}
TOL = 1e-11


def make(rng, nd=None, samples=None, times=None, scalars=0, wrap=None, shp=None, iso=False):
  nd = nd or int(gen.pick(rng, [1, 2, 2, 3])); shp = shp or gen.pick(rng, SH[nd])
  g = gen.mild_grid(rng, nd, shp=shp)
  if iso:
    h = float(rng.uniform(.1, .6)); g = G.Grid(shp, domain=tuple((0., n * h) for n in shp))
  samples = bool(rng.random() < .5) if samples is None else samples
  T = times or int(rng.integers(1, 4)); S = int(rng.integers(1, 4))
  lead = ((S,) if samples else ()) + (T,)
  data = [gen.array(rng, lead + shp, 'normal') for _ in range(nd + scalars)]
  t = float(rng.normal()) + float(rng.uniform(.1, 2)) * np.arange(T)
  return g, data, t, lead, samples


def coords(g, o=None):
  o = o or g.cell_center
  return [lo + (np.arange(n) + oo) * h for (lo, _), n, oo, h in zip(g.domain, g.shape, o, g.step)]


def dims_of(nd, samples): return (('sample',) if samples else ()) + ('time',) + tuple(XYZ[:nd])


def ds_of(rng, g, data, t, samples, shuffle=True, model=None):
  """Hand-made data set, with dimensions in a random order."""
  nd = g.ndim; d = dims_of(nd, samples)
  dv = {}
  for nm, a in zip('uvw', data):
    x = xarray.DataArray(a, dims=d)
    if shuffle: x = x.transpose(*[d[i] for i in rng.permutation(len(d))])
    dv[nm] = x
  c = {k: v for k, v in zip(XYZ, coords(g))}; c['time'] = t
  if samples: c['sample'] = np.arange(data[0].shape[0])
  return xarray.Dataset(dv, c)


def lab(rec, mon, got, want, dims, name=None, crd=(), tol=TOL, scale=None, detail=''):
  """Compares a labelled array with numpy values whose axes are `dims`."""
  if name is not None: rec.eq(mon + ':name', got.name, name, detail)
  if not rec.eq(mon + ':dims', sorted(map(str, got.dims)), sorted(dims), detail): return False
  for k, v in dict(crd).items():
    if rec.ok(mon + ':coords', k in got.coords, lambda: f'{detail}: no coordinate {k}'):
      rec.close(mon + ':coords', got.coords[k].values, v, tol=1e-10, scale=np.abs(v).max() + 1e-3, detail=f'{detail}: coordinate {k}')
  return rec.close(mon, got.transpose(*dims).values, want, tol=tol, scale=scale, detail=detail)


def construct(rng, rec, i):
  nd = int(gen.pick(rng, [1, 2, 2, 3])); ns = int(rng.integers(0, 2)); wrap = ['array', 'grid_array', 'variable'][i % 3]
  g, data, t, lead, samples = make(rng, nd, scalars=ns)
  usegrid = True if ns else bool(rng.random() < .7); uset = bool(rng.random() < .7); pre = gen.pick(rng, ['', 'ref_'])
  offs = [tuple(float(x) for x in rng.choice([0., .5, 1.], nd)) for _ in range(ns)] + list(g.cell_faces)
  colloc = wrap != 'array' and rng.random() < .4
  if colloc: offs = offs[:ns] + [g.cell_center] * nd
  attrs = gen.pick(rng, [None, {'ndim': nd, 'seed': 3}])
  rec.case(nd, ns, wrap, usegrid, uset, pre, samples, colloc, lead)
  bc = B.periodic_boundary_conditions(nd)
  tr = []
  for a, o in zip(data, offs):
    x = jnp.asarray(a)
    if wrap != 'array': x = G.GridArray(x, o, g)
    if wrap == 'variable': x = G.GridVariable(x, bc)
    tr.append(x)
  ds = xu.velocity_trajectory_to_xarray(tuple(tr), g if usegrid else None, t if uset else None, attrs, samples, pre)
  names = [pre + n for n in ['c'][:ns] + list('uvw'[:nd])]
  rec.eq('names', sorted(ds.data_vars), sorted(names), 'variables')
  d = dims_of(nd, samples)
  for nm, a, o in zip(names, data, offs):
    rec.eq('dims', ds[nm].dims, d, nm)
    rec.close('values', ds[nm].values, a, tol=1e-15, detail=nm)
    if usegrid:
      got = ds[nm].attrs.get('offset')
      if nm.endswith('c') and wrap == 'array': continue
      rec.ok('offset', got is not None and np.allclose(got, o), lambda: f'{nm}: offset {got}, data at {o}')
  if usegrid:
    for k, c in zip(XYZ, coords(g)): rec.close('axes', ds[k].values, c, tol=1e-12, scale=np.abs(c).max() + 1, detail=f'coordinate {k}')
  else: rec.ok('axes-absent', not any(k in ds.coords for k in XYZ), 'no spatial coordinates without a grid')
  if uset: rec.close('times', ds['time'].values, t, tol=1e-15, detail='time')
  else: rec.ok('times-absent', 'time' not in ds.coords, 'no times given')
  if samples: rec.eq('samples', list(ds['sample'].values), list(range(lead[0])), 'sample ids')
  else: rec.ok('samples', 'sample' not in ds.dims, 'no samples')
  rec.eq('attrs', dict(ds.attrs), attrs or {}, 'attributes')
  # and back to gridded fields
  if usegrid and uset:
    for nm, a, o in zip(names[ns:], data[ns:], offs[ns:]):
      back = G.GridArray(ds[nm].isel(time=-1).values, tuple(ds[nm].attrs['offset']), g)
      rec.close('round-trip', back.data, np.take(a, -1, axis=1 if samples else 0), tol=1e-15, detail=nm)
      sp = [float(ds[k][1] - ds[k][0]) for k in XYZ[:nd]]
      rec.close('round-trip-step', np.array(sp), np.array(g.step), tol=1e-10, detail='spacing')
  # bare coordinates
  c = xu.construct_coords(None, t, None)
  rec.eq('construct-coords', sorted(c), ['time'], 'only what was given')


def attrs(rng, rec, i):
  nd = int(rng.integers(1, 4)); n = int(rng.integers(3, 40)); L = float(rng.uniform(.5, 9)); k = ['size', 'legacy', 'rect', 'none'][i % 4]
  rec.case(k, nd, n)
  other = {'foo': 1, 'stable_time_step': .1}
  if k == 'size':
    g = xu.grid_from_attrs({'ndim': nd, 'save_grid_size': n, 'domain_size': L, **other})
    rec.eq('attrs-shape', g.shape, (n,) * nd, 'shape'); rec.close('attrs-domain', np.array(g.domain), np.array([(0, L)] * nd), scale=L)
  elif k == 'legacy':
    m = int(rng.integers(1, 5)); g = xu.grid_from_attrs({'ndim': nd, 'save_grid_size': n, 'domain_size_multiple': m})
    rec.eq('attrs-shape', g.shape, (n,) * nd, 'shape'); rec.close('attrs-domain', np.array(g.domain), np.array([(0, 2 * np.pi * m)] * nd), scale=L)
  elif k == 'rect':
    m = int(rng.integers(3, 40)); g = xu.grid_from_attrs({'ndim': 2, 'save_grid_size_x': n, 'save_grid_size_y': m, 'aspect_ratio': L})
    rec.eq('attrs-shape', g.shape, (n, m), 'shape'); rec.close('attrs-domain', np.array(g.domain), np.array([(0, L), (0, 1)]), scale=L)
    rec.close('attrs-step', np.array(g.step), np.array([L / n, 1 / m]))
  else:
    rec.raises('attrs-missing', lambda: xu.grid_from_attrs({'ndim': nd, 'save_grid_size': n}), ValueError, detail='no domain')
    rec.raises('attrs-missing', lambda: xu.grid_from_attrs({'save_grid_size': n, 'domain_size': L}), KeyError, detail='no dimension')
  if k in ('size', 'legacy'):
    rec.close('attrs-step', np.array(g.step), np.array([(g.domain[0][1]) / n] * nd))


def np_dft(a, axes):
  """Direct transform by matrix products (independent of the FFT helpers)."""
  for ax in axes:
    n = a.shape[ax]; k = np.arange(n)
    a = np.moveaxis(np.tensordot(np.exp(-2j * np.pi * np.outer(k, k) / n), a, (1, ax)), 0, ax)
  return a


def derived(rng, rec, i):
  g, data, t, lead, samples = make(rng); nd = g.ndim
  ds = ds_of(rng, g, data, t, samples); d = dims_of(nd, samples); sc = max(np.abs(a).max() for a in data)
  rec.case(nd, g.shape, lead, samples)
  sp = np.sqrt(sum(a ** 2 for a in data)); crd = dict(zip(XYZ, coords(g)))
  lab(rec, 'speed', xu.speed(ds), sp, d, 'speed', crd, detail='speed')
  lab(rec, 'energy', xu.kinetic_energy(ds), sp ** 2 / 2, d, 'kinetic_energy', crd, detail='kinetic energy')
  z = [ds[n] for n in 'uvw'[:nd]]
  lab(rec, 'magnitude', xu.magnitude(*[q * (1 + 2j) for q in z]), sp * np.sqrt(5), d, detail='complex magnitude')
  if nd == 2:
    u, v = data
    w = (np.roll(v, -1, -2) - v) / g.step[0] - (np.roll(u, -1, -1) - u) / g.step[1]
    lab(rec, 'vorticity', xu.vorticity_2d(ds), w, d, 'vorticity', crd, detail='curl with the coordinate spacing')
    lab(rec, 'enstrophy', xu.enstrophy_2d(ds), w ** 2 / 2, d, 'enstrophy', crd, detail='enstrophy')
    rec.small('circulation', xu.vorticity_2d(ds).sum(('x', 'y')).values, np.abs(w).max() * w.size, tol=1e-13, detail='periodic total')
    W = np.stack([np.take(w, q, axis=d.index('time')) for q in range(len(t))])
    for q in range(len(t)):  # nothing leaks between times
      one = xu.vorticity_2d(ds.isel(time=[q]))
      lab(rec, 'vorticity-per-time', one.isel(time=0, drop=True), W[q], [k for k in d if k != 'time'], detail=f'time {q}')
  # spectra
  F = [np.fft.fftshift(np_dft(a, range(len(lead), len(lead) + nd)), axes=range(len(lead), len(lead) + nd)) for a in data]
  kd = [k for k in d if k not in XYZ] + ['k' + k for k in XYZ[:nd]]
  kc = {'k' + k: 2 * np.pi * (np.arange(n) - n // 2) / (n * h) for k, n, h in zip(XYZ, g.shape, g.step)}
  for nm, f in zip('uvw', F):
    got = xu.fourier_transform(ds[nm])
    lab(rec, 'fourier', got, f, kd, crd=kc, tol=1e-10, detail=nm)
    for k in kc: rec.ok('wavenumbers-ascend', (np.diff(got[k].values) > 0).all(), k)
  E = sum(np.abs(f) ** 2 for f in F) / 2
  es = xu.energy_spectrum(ds)
  lab(rec, 'spectrum', es, E, kd, crd=kc, tol=1e-10, detail='energy spectrum')
  N = int(np.prod(g.shape))
  tot = es.sum(['k' + k for k in XYZ[:nd]]).transpose(*[k for k in kd if k[0] != 'k']).values / N ** 2
  rec.close('parseval', tot, (sp ** 2 / 2).mean(axis=tuple(range(len(lead), len(lead) + nd))), tol=1e-11, detail='total spectrum is the mean energy')
  # correlations
  ax = int(rng.integers(nd)); n = g.shape[ax]; m = n // 2
  cor = xu.velocity_spatial_correlation(ds, XYZ[ax])
  rec.eq('correlation-names', sorted(cor.data_vars), sorted(f'{q}_{XYZ[ax]}_correlation' for q in 'uvw'[:nd]), 'names')
  for nm, a in zip('uvw', data):
    A = len(lead) + ax
    want = np.stack([(a * np.roll(a, -q, A)).mean(A) for q in range(m)], -1)
    cd = [k for k in d if k != XYZ[ax]] + ['d' + XYZ[ax]]
    got = cor[f'{nm}_{XYZ[ax]}_correlation']
    lab(rec, 'correlation', got, want, cd, tol=1e-11, scale=np.abs(want).max(), crd={'d' + XYZ[ax]: np.arange(m) * g.step[ax]}, detail=f'{nm} along {XYZ[ax]}')
  u2, v2 = rng.standard_normal((2, 3, 8))
  rec.close('periodic-correlate', xu.periodic_correlate(u2, v2), np.stack([(u2 * np.roll(v2, -q, -1)).sum(-1) for q in range(8)], -1), scale=10.)
  st = [k for k in d if rng.random() < .5] or [d[-1]]
  x = ds['u']; nz = xu.normalize(x, tuple(st)); A = tuple(d.index(k) for k in st)
  lab(rec, 'normalize', nz, data[0] / np.sqrt((data[0] ** 2).sum(A, keepdims=True)), d, detail=f'{st}')


def bilinear(F, kx, ky, x, y):
  i = np.clip(((x - kx[0]) / (kx[1] - kx[0]) + 1e-12).astype(int), 0, len(kx) - 2); j = np.clip(((y - ky[0]) / (ky[1] - ky[0]) + 1e-12).astype(int), 0, len(ky) - 2)
  a = (x - kx[i]) / (kx[1] - kx[0]); b = (y - ky[j]) / (ky[1] - ky[0])
  return (1 - a) * (1 - b) * F[..., i, j] + a * (1 - b) * F[..., i + 1, j] + (1 - a) * b * F[..., i, j + 1] + a * b * F[..., i + 1, j + 1]


def isotropic(rng, rec, i):
  nd = [2, 1, 3, 2][i % 4]
  g, data, t, lead, samples = make(rng, nd, iso=rng.random() < .5)
  ds = ds_of(rng, g, data, t, samples); d = dims_of(nd, samples)
  es = xu.energy_spectrum(ds); kd = [k for k in d if k not in XYZ] + ['k' + k for k in XYZ[:nd]]
  E = es.transpose(*kd).values; K = [es['k' + k].values for k in XYZ[:nd]]
  mag = np.sqrt(sum(k ** 2 for k in np.meshgrid(*K, indexing='ij')))
  dk = max(k[1] - k[0] for k in K); kmax = min(k.max() for k in K)
  rec.case(nd, g.shape, samples, lead)
  b = xu.isotropize(es, method='binsum')
  labels = b['k'].values; n = len(labels)
  rec.close('bins', labels, dk * np.arange(1, n + 1), tol=1e-10, detail='consecutive wavenumbers')
  rec.ok('bins-reach', n * dk <= kmax * (1 + 1e-9) and (n + 1.01) * dk >= kmax - .51 * dk, lambda: f'{n} bins of {dk}, largest wavenumber {kmax}')
  got = b.transpose(*[k for k in kd if k[0] != 'k'] + ['k']).values
  for q in range(n):
    m = (mag > (q + .5) * dk) & (mag <= (q + 1.5) * dk)
    if np.any(np.abs(mag / dk - (q + .5)) < 1e-6) or np.any(np.abs(mag / dk - (q + 1.5)) < 1e-6):
      rec.skip('mode on a bin edge'); continue
    rec.close('binsum', got[..., q], E[..., m].sum(-1), tol=1e-10, detail=f'annulus {q + 1}')
  if n == 0: return rec.skip('no isotropic bin')
  if nd == 2:
    for meth in ('linear', 'nearest'):
      nq = int(gen.pick(rng, [7, 16, 100]))
      r = xu.isotropize(es, method='interpolation', interpolation_method=meth, num_quadrature_points=nq)
      kv = r['k'].values
      rec.close('radii', kv, dk * np.arange(1, len(kv) + 1), tol=1e-10, detail='consecutive wavenumbers')
      th = 2 * np.pi * np.arange(nq) / nq
      X, Y = np.outer(kv, np.cos(th)), np.outer(kv, np.sin(th))
      gotv = r.transpose(*[k for k in kd if k[0] != 'k'] + ['k']).values
      if meth == 'linear':
        want = 2 * np.pi * kv * np.exp(bilinear(np.log(E), *K, X, Y)).mean(-1)
        rec.close('isotropic-interp', gotv, want, tol=1e-8, detail=f'{nq} points')
      else:
        lo, hi = E.min((-1, -2)), E.max((-1, -2))
        rec.leq('isotropic-nearest', gotv, 2 * np.pi * kv * hi[..., None] * (1 + 1e-9)); rec.leq('isotropic-nearest', 2 * np.pi * kv * lo[..., None] * (1 - 1e-9), gotv)
    av = ('time',) + (('sample',) if samples else ())
    want = xu.isotropize(es.mean(av)); got = xu.isotropic_energy_spectrum(ds, av)
    lab(rec, 'isotropic-average', got, want.values, ['k'], crd={'k': want['k'].values}, detail='averaged before isotropic averaging')
    # an isotropic density is reproduced exactly: S(k) = 2 pi k E
    c = float(rng.uniform(.5, 3))
    flat = xu.isotropize(0 * es + c)
    rec.close('isotropic-flat', flat.transpose(..., 'k').values, np.broadcast_to(2 * np.pi * flat['k'].values * c, flat.transpose(..., 'k').shape), tol=1e-9, detail='flat density')
  else:
    lab(rec, 'isotropic-default', xu.isotropic_energy_spectrum(ds), got, [k for k in kd if k[0] != 'k'] + ['k'], detail='binsum by default')
    rec.raises('isotropic-reject', lambda: xu.isotropize(es, method='interpolation'), ValueError, detail='interpolation in 1-D/3-D')
  rec.raises('isotropic-reject', lambda: xu.isotropize(ds['u']), ValueError, detail='no wavenumber dimension')
  rec.raises('isotropic-reject', lambda: xu.isotropize(es, method='other'), ValueError, detail='unknown method')
  # generic binned sums
  nm = int(rng.integers(2, 6)); A = rng.standard_normal((2, 5, 4)); grp = rng.uniform(0, nm, (5, 4))
  bins = np.arange(nm + 1, dtype=float) + .1
  out = xu.groupby_bins_sum(xarray.DataArray(A, dims=('s', 'a', 'b')), xarray.DataArray(grp, dims=('a', 'b'), name='q'), bins, np.arange(nm) * 10.)
  want = np.stack([A[:, (grp > lo) & (grp <= hi)].sum(-1) for lo, hi in zip(bins[:-1], bins[1:])], -1)
  lab(rec, 'binned-sum', out, want, ['s', 'q_bins'], crd={'q_bins': np.arange(nm) * 10.}, scale=10., detail='values outside every bin are ignored')


def metrics(rng, rec, i):
  nd = int(gen.pick(rng, [1, 2, 2, 3])); g, data, t, lead, samples = make(rng, nd, samples=True)
  a = ds_of(rng, g, data, t, True); other = [x + .7 * rng.standard_normal(x.shape) for x in data]
  b = ds_of(rng, g, other, t, True); sh = g.shape; S, T = lead
  both = xarray.concat([a, b], dim='model'); both.coords['model'] = ['learned', 'ground_truth']
  if rng.random() < .5: both = both.isel(model=[1, 0])
  d = dims_of(nd, True); sax = tuple(range(2, 2 + nd))
  rec.case(nd, sh, lead)
  for q, nm in enumerate('uvw'[:nd]):
    x, y = data[q], other[q]
    lab(rec, 'absolute-error', ev.absolute_error(both[nm]), np.abs(x - y), d, f'{nm}_error', detail=nm)
    lab(rec, 'absolute-error-names', ev.absolute_error(both[nm], 'ground_truth', 'learned'), np.abs(x - y), d, f'{nm}_error', detail=nm)
    c = (x * y).sum(sax) / np.sqrt((x ** 2).sum(sax) * (y ** 2).sum(sax))
    lab(rec, 'state-correlation', ev.state_correlation(both[nm]), c.mean(0), ['time'], f'{nm}_correlation', detail=nm)
    lab(rec, 'state-correlation', ev.state_correlation(both[nm], non_state_dims_to_average=()), c, ['sample', 'time'], detail='no averaging')
    lab(rec, 'state-correlation', ev.state_correlation(both[nm], non_state_dims_to_average=('sample', 'time')), c.mean(), [], detail='all averaged')
    fac = rng.uniform(.1, 10, (S, T)); pert = both.copy(deep=True)
    pert[nm] = both[nm] * xarray.DataArray(fac, dims=('sample', 'time'))
    lab(rec, 'correlation-scale', ev.state_correlation(pert[nm]), c.mean(0), ['time'], detail='rescaled per sample and time')
    same = ev.state_correlation(both[nm], 'learned', 'learned')
    rec.close('correlation-self', same.values, np.ones(T), detail='identical trajectories')
    pooled = (x * y).sum((0,) + sax) / np.sqrt((x ** 2).sum((0,) + sax) * (y ** 2).sum((0,) + sax))
    lab(rec, 'state-dims', ev.state_correlation(both[nm], non_state_dims=('time',), non_state_dims_to_average=()), pooled, ['time'], detail='samples in the state')
    thr = float(rng.uniform(.1, 1))
    lab(rec, 'below-threshold', ev.below_error_threshold(both[nm], xarray.DataArray(thr)), np.abs(x - y) <= thr, d, detail=nm)
    lab(rec, 'average', ev.average(both[nm].sel(model='learned'), nd), x.mean((0,) + sax), ['time'], detail='space and samples')
    lab(rec, 'average', ev.average(both[nm].sel(model='learned'), nd, ('time',)), x.mean((1,) + sax), ['sample'], detail='space and time')
    rec.raises('average-complex', lambda: ev.average(both[nm] * 1j, nd), ValueError, detail='complex values')
  # spectrum and correlation metrics
  th = float(gen.pick(rng, [.01, .1, 1.])); n = 9
  p, q = np.exp(rng.normal(size=(2, S, T, n)) * 2)
  mk = lambda z, k: xarray.DataArray(z, dims=('sample', 'time', k))
  L = np.where(q > th, np.abs(np.log(p) - np.log(q)), 0).sum(-1) + np.where((p > th) & (q < th), np.abs(np.log(p)), 0).sum(-1)
  lab(rec, 'spectrum-metric', ev.energy_spectrum_metric(th)(mk(p, 'kx'), mk(q, 'kx')), L.mean(0), ['time'], tol=1e-10, scale=np.abs(L).max() + 1, detail=f'threshold {th}')
  p, q = rng.normal(size=(2, S, T, n)); th = float(rng.uniform(.2, 1))
  L = np.where(np.abs(q) > th, np.abs(p - q), 0).sum(-1) + np.where((np.abs(p) > th) & (np.abs(q) < th), np.abs(p), 0).sum(-1)
  lab(rec, 'correlation-metric', ev.u_x_correlation_metric(th)(mk(p, 'dx'), mk(q, 'dx')), L.mean(0), ['time'], tol=1e-10, scale=np.abs(L).max() + 1, detail=f'threshold {th}')
  rec.close('correlation-metric-t', ev.u_t_correlation_metric(th)(jnp.asarray(p), jnp.asarray(q)), L.mean(), tol=1e-10, scale=np.abs(L).max() + 1)
  for m, k in ((ev.energy_spectrum_metric(th), 'kx'), (ev.u_x_correlation_metric(th), 'dx')):
    z = np.abs(p) + .1
    rec.small('metric-zero', m(mk(z, k), mk(z, k)).values, 1., tol=1e-14, detail='identical inputs')


def temporal(rng, rec, i):
  T = int(rng.integers(3, 12)); S, n = int(rng.integers(1, 4)), int(rng.integers(3, 8)); dt = float(gen.pick(rng, [.125, .25, .5, 1., 2.5])); t0 = float(gen.pick(rng, [0., 3.]))
  a = rng.standard_normal((T, S, n, 2))
  sub = max(1, int(1 / dt)); rec.case(T, S, n, dt, t0)
  d = ('time', 'sample', 'x', 'model'); perm = [d[k] for k in rng.permutation(4)]
  ds = xarray.Dataset({'u': xarray.DataArray(a, dims=d).transpose(*perm)}, {'time': t0 + dt * np.arange(T), 'sample': np.arange(S), 'x': np.arange(n) * .3 + .1, 'model': ['p', 'q']})
  out = ev.temporal_autocorrelation(ds)
  lags = np.arange(0, T, sub)
  want = np.stack([sum(a[s] * a[s - l] for s in range(l, T)) / T for l in lags])
  got = out['t_corr']
  rec.eq('temporal-dims', len(got.dims), 4, str(got.dims))
  rec.close('temporal', got.transpose(got.dims[0], 'sample', 'x', 'model').values, want, tol=1e-11, detail=f'lags {lags} of {T}')
  rec.close('temporal-lags', np.asarray(out['dt']), dt * lags, tol=1e-10, scale=dt * T, detail='lag coordinate')
  rec.eq('temporal-models', list(out['model'].values), ['p', 'q'], 'models')


class NoDask:
  """Stands in for dask's chunking (a storage hint) where dask is missing."""
  def __enter__(self):
    self.old = xarray.Dataset.chunk; xarray.Dataset.chunk = lambda s, *a, **k: s
  def __exit__(self, *a): xarray.Dataset.chunk = self.old


def summary(rng, rec, i):
  nd = [2, 1, 3][i % 3]
  shp = {1: (12,), 2: (8, 6), 3: (4, 6, 5)}[nd]
  extra = i % 2 == 1 and nd != 1
  g, data, t, lead, _ = make(rng, nd, samples=True, times=3, shp=shp, iso=True); t = np.arange(3) * 1.
  other = [x + .5 * rng.standard_normal(x.shape) for x in data]
  mk = lambda D: ds_of(rng, g, D, t, True, shuffle=False)
  p, q = mk(data), mk(other); q.attrs['ndim'] = nd; S, T = lead
  rec.case(nd, lead, extra)
  qs = (float(gen.pick(rng, [.1, .3])), 1.)
  nsd = ('sample',)
  with NoDask(): out = ev.compute_summary_dataset(p, q, qs, nsd)
  sax = tuple(range(2, 2 + nd)); al = (0,) + sax
  both = np.stack([np.stack(data), np.stack(other)])  # model, component, sample, time, space
  sp = lambda D: np.sqrt(sum(x ** 2 for x in D))
  quant = {'speed': (sp(data), sp(other)), 'kinetic_energy': (sp(data) ** 2 / 2, sp(other) ** 2 / 2)}
  for k, nm in enumerate('uvw'[:nd]): quant[nm] = (data[k], other[k])
  if nd == 2:
    w = lambda D: (np.roll(D[1], -1, -2) - D[1]) / g.step[0] - (np.roll(D[0], -1, -1) - D[0]) / g.step[1]
    quant['vorticity'] = (w(data), w(other)); quant['enstrophy'] = (w(data) ** 2 / 2, w(other) ** 2 / 2)
  for nm, (x, y) in quant.items():
    lab(rec, 'summary-mean', out[nm + '_mean'], x.mean(al), ['time'], scale=np.abs(x).max(), detail=nm)
    lab(rec, 'summary-error', out[nm + '_error'], np.abs(x - y).mean(al), ['time'], detail=nm)
    if nm in 'uvw' or nm == 'vorticity':
      c = (x * y).sum(sax) / np.sqrt((x ** 2).sum(sax) * (y ** 2).sum(sax))
      lab(rec, 'summary-correlation', out[nm + '_correlation'], c.mean(0), ['time'], detail=nm)
    for f in qs:
      thr = np.quantile(np.stack([x[:, 0], y[:, 0]]), f)
      e = np.abs(x - y)
      if np.any(np.abs(e - thr) < 1e-9): continue
      lab(rec, 'summary-within', out[f'{nm}_within_q={f}'], (e <= thr).mean(al), ['time'], detail=f'{nm} {f}')
  if nd == 2:
    s = [xu.isotropic_energy_spectrum(ds_of(rng, g, D, t, True), ('sample',)) for D in (data, other)]
    lab(rec, 'summary-spectrum', out['energy_spectrum_mean'], s[0].transpose('time', 'k').values, ['time', 'k'], tol=1e-9, detail='isotropic spectrum')
    lab(rec, 'summary-spectrum', out['energy_spectrum_error'], np.abs(s[0] - s[1]).transpose('time', 'k').values, ['time', 'k'], tol=1e-9, detail='isotropic spectrum error')
  if nd == 1:
    m = shp[0] // 2; x, y = data[0], other[0]
    cor = lambda a: np.stack([(a * np.roll(a, -r, -1)).mean(-1) for r in range(m)], -1)
    cx, cy = cor(x), cor(y)
    lab(rec, 'summary-autocorrelation', out['u_x_correlation_mean'], cx.mean(0), ['time', 'dx'], tol=1e-10, scale=1., detail='u')
    L = np.where(np.abs(cy) > .5, np.abs(cx - cy), 0).sum(-1) + np.where((np.abs(cx) > .5) & (np.abs(cy) < .5), np.abs(cx), 0).sum(-1)
    lab(rec, 'summary-x-metric', out['u_x_correlation'], L.mean(0), ['time'], tol=1e-10, scale=1 + np.abs(L).max(), detail='spatial correlation metric')
    tc = lambda a: np.stack([sum(a[:, s] * a[:, s - l] for s in range(l, T)) / T for l in range(T)])
    tx, ty = tc(x), tc(y)
    L = np.where(np.abs(ty) > .5, np.abs(tx - ty), 0).sum(-1) + np.where((np.abs(tx) > .5) & (np.abs(ty) < .5), np.abs(tx), 0).sum(-1)
    lab(rec, 'summary-t-metric', out['autocorrelation'], np.full(T, L.mean()), ['time'], tol=1e-10, scale=1 + np.abs(L).max(), detail='temporal correlation metric')
    ex, ey = [np.abs(np.fft.fft(a, axis=-1)) ** 2 / 2 for a in (x, y)]; h = (shp[0] - 1) // 2
    for th in (.001, .01, .1, 1., 10):
      px, py = ex[..., :h + 1], ey[..., :h + 1]
      L = np.where(py > th, np.abs(np.log(px) - np.log(py)), 0).sum(-1) + np.where((px > th) & (py < th), np.abs(np.log(px)), 0).sum(-1)
      lab(rec, 'summary-energy-metric', out['energy_spectrum_%f' % th], L.mean(0), ['time'], tol=1e-8, scale=1 + np.abs(L).max(), detail=f'threshold {th}')
  # the two data sets do not leak into each other: swapping the target changes errors symmetrically
  p2 = p.copy(); p2.attrs['ndim'] = nd
  with NoDask(): rev = ev.compute_summary_dataset(q, p2, qs, nsd)
  for nm, (x, y) in quant.items():
    rec.close('summary-symmetric', rev[nm + '_error'].values, out[nm + '_error'].values, tol=1e-12, detail=nm)
    lab(rec, 'summary-mean', rev[nm + '_mean'], y.mean(al), ['time'], scale=np.abs(y).max(), detail=nm + ' of the other model')


def other_dims(rng, rec, i):
  """Averages over whatever non-spatial dimensions the caller names."""
  nd = 2; g, data, t, lead, _ = make(rng, nd, samples=True, times=2, shp=(6, 8), iso=True); S, T = lead
  R = 3
  D = [np.stack([x + .3 * rng.standard_normal(x.shape) for _ in range(R)]) for x in data]
  O = [x + .5 * rng.standard_normal(x.shape) for x in D]
  def mk(D):
    c = {k: v for k, v in zip(XYZ, coords(g))}; c['time'] = np.arange(T) * 1.
    return xarray.Dataset({n: (('run', 'sample', 'time', 'x', 'y'), x) for n, x in zip('uv', D)}, c)
  p, q = mk(D), mk(O); q.attrs['ndim'] = nd
  rec.case(lead, R)
  with NoDask(): out = ev.compute_summary_dataset(p, q, (.5,), ('sample', 'run'))
  for nm, x, y in zip('uv', D, O):
    lab(rec, 'other-dims-mean', out[nm + '_mean'], x.mean((0, 1, 3, 4)), ['time'], detail=f'{nm}: mean over space, samples and runs')
    lab(rec, 'other-dims-error', out[nm + '_error'], np.abs(x - y).mean((0, 1, 3, 4)), ['time'], detail=f'{nm}: error over space, samples and runs')


def images(rng, rec, i):
  import matplotlib; matplotlib.use('Agg')
  import PIL.Image
  from jax_cfd.data import visualization as vz
  T = int(rng.integers(1, 5)); shp = (int(rng.integers(3, 9)), int(rng.integers(3, 9)))
  x = rng.standard_normal((T,) + shp) * 10.0 ** rng.integers(-2, 3, (T, 1, 1)); qn = float(gen.pick(rng, [.5, .9, .999]))
  rec.case(T, shp, qn)
  nf = vz.quantile_normalize_fn(x[0], 0, qn)
  m = np.quantile(np.abs(x[0]), qn)
  rec.close('image-range', np.array([nf.vmin, nf.vmax]), np.array([-m, m]), detail='symmetric quantile range')
  cmap = matplotlib.colormaps['viridis']
  im = vz.trajectory_to_images(x, cmap=cmap)
  rec.eq('image-count', len(im), T, 'one image per frame')
  for k in range(T):
    m = np.quantile(np.abs(x[k]), .999)
    want = cmap(np.clip((x[k] + m) / (2 * m), 0, 1), bytes=True)
    # values above the range take the top colour
    rec.close('image-pixels', np.asarray(im[k]).astype(float), want.astype(float), tol=1e-12, scale=255., detail=f'frame {k}')
  ls = int(rng.integers(10, 30)); big = vz.trajectory_to_images(x, cmap=cmap, longest_side=ls)
  for k in range(T):
    f = ls / max(shp); rec.eq('image-size', big[k].size, (round(shp[1] * f), round(shp[0] * f)), f'longest side {ls}')
  cols = int(rng.integers(1, 4)); sepw = float(gen.pick(rng, [.1, .3, 1.]))
  sets = [[PIL.Image.fromarray(rng.integers(0, 255, shp + (3,)).astype(np.uint8)) for _ in range(T)] for _ in range(cols)]
  fac = vz.horizontal_facet(sets, sepw, (1, 2, 3)); w = shp[1]; sw = round(w * sepw)
  rec.eq('facet-count', len(fac), T, 'frames')
  for k in range(T):
    A = np.asarray(fac[k]); rec.eq('facet-shape', A.shape, (shp[0], w * cols + sw * (cols - 1), 3), 'stitched size')
    for c in range(cols):
      o = c * (w + sw)
      rec.close('facet-pixels', A[:, o:o + w].astype(float), np.asarray(sets[c][k]).astype(float), tol=0., scale=1., detail=f'frame {k} column {c}')
      if c < cols - 1 and sw: rec.close('facet-strip', A[:, o + w:o + w + sw].astype(float), np.broadcast_to(np.array([1., 2., 3.]), (shp[0], sw, 3)), tol=0., scale=1., detail='separator')
  buf = io.BytesIO(); vz.save_movie([f.convert('RGB') for f in im], buf, format='GIF'); buf.seek(0)
  mv = PIL.Image.open(buf)
  distinct = 1 + sum(not np.array_equal(np.asarray(a), np.asarray(b)) for a, b in zip(im, im[1:]))
  rec.leq('movie-frames', getattr(mv, 'n_frames', 1), T); rec.eq('movie-size', mv.size, (shp[1], shp[0]), 'movie size')


SUITES = {'construct': (construct, 24, 200), 'attrs': (attrs, 16, 80), 'derived': (derived, 24, 160), 'isotropic': (isotropic, 16, 120),
          'metrics': (metrics, 12, 80), 'temporal': (temporal, 10, 60), 'summary': (summary, 6, 40), 'other_dims': (other_dims, 2, 10), 'images': (images, 8, 60)}
REQUIRED = ['values', 'axes', 'offset', 'attrs-shape', 'attrs-domain', 'vorticity', 'enstrophy', 'spectrum', 'parseval', 'fourier', 'correlation', 'correlation:coords',
            'normalize', 'binsum', 'isotropic-interp', 'isotropic-average', 'binned-sum', 'absolute-error', 'state-correlation', 'spectrum-metric',
            'temporal', 'temporal-lags', 'summary-mean', 'summary-within', 'summary-energy-metric', 'summary-t-metric', 'other-dims-mean', 'image-pixels', 'facet-pixels']
