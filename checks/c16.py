"""C16: resampling conserves what it promises."""
import numpy as np
import jax
import jax.numpy as jnp
from jax_cfd.base import boundaries as B, grids as G, resize
from vlib import gen, ref
from checks.c06 import lin_np
from checks.c14 import spec2, eval2

RULE = ('random fields, anisotropic grids, coarsening factors and boundary conditions; results are compared with numpy '
        'block means, top-hat means of ghost-extended fields and direct Fourier series; distinct by (routine, shape, factor, bc)')
ASSUMPTIONS = ['float64', 'staggered velocities are sampled at the upper face of each cell (the default location)',
               'top-hat filters have the sizes the routine supports (even or one)']


def blockmean(a, fs):
  for ax, f in enumerate(fs):
    s = a.shape
    a = a.reshape(s[:ax] + (s[ax] // f, f) + s[ax + 1:]).mean(ax + 1)
  return a


def fine_of(rng, factor, nd=None, pool=None):
  nd = nd or int(rng.choice([1, 2, 2, 3]))
  dst = tuple(int(rng.integers(2, 6 if nd < 3 else 4)) for _ in range(nd))
  f = (factor,) * nd if np.isscalar(factor) else factor[:nd]
  g = gen.grid(rng, nd, tuple(a * b for a, b in zip(dst, f)))
  return g, G.Grid(dst, domain=g.domain)


def suite_staggered(rng, rec, i):
  f = int(rng.integers(1, 5))
  g, d = fine_of(rng, f)
  nd = g.ndim
  walls = rng.random() < .4
  form = gen.pick(rng, ['raw', 'array', 'variable'])
  bcs = [gen.bc(rng, nd, ('p', 'd') if walls else ('p',)) for _ in range(nd)]
  v = [gen.array(rng, g.shape) for _ in range(nd)]
  kind = gen.pick(rng, ['any', 'divfree'])
  if kind == 'divfree' and nd > 1:
    v = [np.asarray(u) for u in gen.stream_velocity(rng, g)]
  rec.case('staggered', g.shape, f, form, kind, sample={'grid': str(g), 'factor': f})
  offs = g.cell_faces
  arg = {'raw': lambda: tuple(jnp.asarray(u) for u in v),
         'array': lambda: tuple(gen.arr(u, o, g) for u, o in zip(v, offs)),
         'variable': lambda: tuple(gen.var(u, o, g, b) for u, o, b in zip(v, offs, bcs))}[form]()
  got = resize.downsample_staggered_velocity(g, d, arg)
  det = f'{g.shape}->{d.shape} {form}'
  rec.ok('one result per component', len(got) == nd, det)
  out = []
  for j, (u, w) in enumerate(zip(v, got)):
    fs = [f] * nd; fs[j] = 1
    idx = [slice(None)] * nd; idx[j] = slice(f - 1, None, f)
    want = blockmean(u[tuple(idx)], fs)
    rec.close('flux through every coarse face is the mean over its fine faces', w, want, tol=1e-11,
              scale=np.abs(u).max(), detail=f'{det} component {j}')
    if form != 'raw':
      rec.field('resampled component metadata', w, offset=offs[j], grid=d, bc=bcs[j] if form == 'variable' else None, detail=det)
    rec.eq('resampled component kind', type(w).__name__, {'raw': 'ArrayImpl', 'array': 'GridArray', 'variable': 'GridVariable'}[form], det)
    one = resize.downsample_staggered_velocity_component(jnp.asarray(u), j, f)
    rec.close('single component', one, want, tol=1e-11, scale=np.abs(u).max(), detail=det)
    out.append(np.asarray(w.data if form != 'raw' else w))
  fd, cd = ref.pdiv(v, g.step), ref.pdiv(out, d.step)
  s = sum(np.abs(u).max() / h for u, h in zip(v, g.step))
  rec.close('coarse divergence is the mean fine divergence', cd, blockmean(fd, [f] * nd), tol=1e-10, scale=s, detail=det)
  if kind == 'divfree' and nd > 1:
    rec.small('divergence-free stays divergence-free', cd, s, tol=1e-11, detail=det)
  # two-stage coarsening is the same
  if f == 4:
    mid = G.Grid(tuple(2 * n for n in d.shape), domain=g.domain)
    two = resize.downsample_staggered_velocity(mid, d, resize.downsample_staggered_velocity(g, mid, arg))
    for a, b in zip(two, out):
      rec.close('coarsening in stages', a, b, tol=1e-11, scale=max(np.abs(u).max() for u in v), detail=det)


def suite_tophat(rng, rec, i):
  nd = int(rng.choice([1, 2, 2, 3]))
  factor = tuple(int(gen.pick(rng, [1, 2, 2, 4])) for _ in range(nd))
  g, d = fine_of(rng, factor, nd)
  default = rng.random() < .5
  if default: fsz = factor
  else:
    fsz = tuple(int(gen.pick(rng, [f, f + 2 if f > 1 else 2, 4 if f <= 4 else f])) for f in factor)
    fsz = tuple(min(x, 2 * (n // 2)) if x <= n else f for x, n, f in zip(fsz, g.shape, factor))
  vs, want = [], []
  for _ in range(int(rng.integers(1, 3))):
    b = gen.bc(rng, nd, ('p', 'p', 'd', 'n') if rng.random() < .6 else ('p',))
    o = []
    for ax in range(nd):
      c = [0.5] if any(t == B.BCType.NEUMANN for t in b.types[ax]) else [0., .5, 1.]
      if factor[ax] == 1 and fsz[ax] > 1: c = [x for x in c if x != .5]
      if not c: c = [None]
      o.append(gen.pick(rng, c))
    if None in o: continue
    vs.append(gen.variable(rng, g, tuple(o), b))
  if not vs: rec.skip('no admissible offset'); rec.case('tophat none'); return
  int_arg = len(set(fsz)) == 1 and rng.random() < .5
  rec.case('tophat', g.shape, factor, fsz, [v.bc.types for v in vs], sample={'grid': str(g), 'factor': factor, 'filter': fsz})
  got = resize.top_hat_downsample(g, d, tuple(vs), None if default else (fsz[0] if int_arg else fsz))
  for v, w in zip(vs, got):
    co = tuple(.5 if s > 1 else x for x, s in zip(v.offset, fsz))
    a = lin_np(v, co)
    a = np.asarray(a)
    for ax in range(nd):
      F, fa = fsz[ax], factor[ax]
      if F == 1:
        continue  # unfiltered axis with factor 1: samples stay where they are
      vals = tuple(0. if x is None else x for x in v.bc.bc_values[ax])
      L = ref.Line(a, co[ax], g.shape[ax], g.step[ax], v.bc.types[ax], vals, ax)
      outs = []
      for k in range(d.shape[ax]):
        # position of the coarse sample on the fine faces
        face = round((k + v.offset[ax]) * fa)
        outs.append(sum(L.at(j, 'mirror') for j in range(face - F // 2, face + F // 2)) / F)
      a = np.stack(outs, ax)
    det = f'{g.shape} factor {factor} filter {fsz} offset {v.offset} bc {v.bc}'
    rec.field('top-hat mean of the ghost-extended field', w, a, v.offset, d, v.bc, tol=1e-9, scale=np.abs(np.asarray(v.data)).max() + 5, detail=det)
    if fsz == factor and all(x == .5 for x in v.offset):
      rec.close('scalar coarsening averages over coarse cells', w, blockmean(np.asarray(v.data), factor), tol=1e-10,
                scale=np.abs(np.asarray(v.data)).max(), detail=det)
      rec.close('scalar total is preserved', np.asarray(w.data).mean(), np.asarray(v.data).mean(), tol=1e-10,
                scale=np.abs(np.asarray(v.data)).max(), detail=det)
  # constants
  c = float(rng.normal())
  b = B.periodic_boundary_conditions(nd)
  offs = [tuple(0. if factor[a] == 1 and fsz[a] > 1 else .5 for a in range(nd)), (1.,) * nd]
  w = resize.top_hat_downsample(g, d, tuple(gen.var(np.full(g.shape, c), o, g, b) for o in offs), None if default else fsz)
  for x in w: rec.close('constants are unchanged', x, np.full(d.shape, c), tol=1e-12, detail=f'{factor} {fsz}')


def suite_spectral(rng, rec, i):
  n, m = int(rng.integers(6, 20)), 2 * int(rng.integers(3, 10))
  iso = rng.random() < .5
  if iso:
    k = int(rng.integers(1, 4)); n2, m2 = int(rng.integers(3, 8)), 2 * int(rng.integers(2, 5)); n, m = k * n2, k * m2
  else:
    n2, m2 = int(rng.integers(3, n + 1)), int(rng.integers(3, m + 1))
  g = gen.grid(rng, 2, (n, m)); d = G.Grid((n2, m2), domain=g.domain)
  c = np.fft.rfft2(rng.standard_normal((n, m)))
  rec.case('spectral', (n, m), (n2, m2))
  det = f'{(n, m)}->{(n2, m2)}'
  src = None if iso and rng.random() < .5 else g
  got = np.asarray(resize.downsample_spectral(src, d, jnp.asarray(c)))
  r = np.round(np.fft.fftfreq(n2) * n2).astype(int)
  want = c[np.ix_(r % n, np.arange(m2 // 2 + 1))] * (n2 * m2) / (n * m)
  rec.close('spectral coarsening keeps the retained wavenumbers and their amplitude', got, want, tol=1e-11,
            scale=np.abs(want).max(), detail=det)
  rec.close('spectral coarsening keeps the mean', got[0, 0] / (n2 * m2), c[0, 0] / (n * m), tol=1e-11, detail=det, scale=1)
  # a field resolved on both grids is the same function
  b = spec2(rng, n, m, K=(n2 - 1) // 2, J=(m2 - 1) // 2)
  w = np.asarray(resize.downsample_spectral(src, d, jnp.asarray(b)))
  x = np.fft.irfft2(w, s=(n2, m2))
  rec.close('resolved fields keep their physical values', x, eval2(g, b, n2, m2), tol=1e-10, scale=np.abs(x).max() + 1e-12, detail=det)
  if iso and n2 % 2 == 0:
    same = resize.downsample_spectral(src and d, d, jnp.asarray(got))
    rec.close('resampling to the same grid does nothing', same, got, tol=1e-13, detail=det)


def suite_reject(rng, rec, i):
  rec.case('reject', i)
  L = float(rng.uniform(1, 3))
  g = G.Grid((8, 8), domain=((0, L), (0, 2 * L)))
  b = B.periodic_boundary_conditions(2)
  mk = lambda gr: tuple(gen.var(rng.standard_normal(gr.shape), o, gr, b) for o in gr.cell_faces)
  ma = lambda gr: tuple(gen.arr(rng.standard_normal(gr.shape), o, gr) for o in gr.cell_faces)
  raw = lambda gr: tuple(jnp.asarray(rng.standard_normal(gr.shape)) for _ in range(2))
  other = G.Grid((4, 4), domain=((0, L), (0, L)))
  frac = G.Grid((6, 6), domain=g.domain)
  aniso = G.Grid((4, 2), domain=g.domain)
  aniso1 = G.Grid((4, 8), domain=g.domain)
  good = G.Grid((4, 4), domain=g.domain)
  for name, dst in (('other domain', other), ('fractional factor', frac), ('anisotropic factor', aniso), ('one axis only', aniso1)):
    for f in (mk, ma, raw):
      rec.raises('incompatible target grid rejected (staggered)', lambda: resize.downsample_staggered_velocity(g, dst, f(g)), Exception, name)
  for f in (mk, ma):
    rec.raises('field on another grid rejected', lambda: resize.downsample_staggered_velocity(g, good, f(frac)), G.InconsistentGridError, 'staggered')
  c = lambda gr, o=(.5, .5): (gen.var(rng.standard_normal(gr.shape), o, gr, b),)
  for name, dst, fs in (('other domain', other, None), ('fractional factor', frac, None), ('filter smaller than factor', aniso, 2),
                        ('odd filter', good, 3), ('not centred', aniso1, 2), ('odd factor', G.Grid((8 // 8, 8), domain=g.domain), 3)):
    rec.raises('incompatible target grid rejected (top-hat)', lambda: resize.top_hat_downsample(g, dst, c(g), fs), Exception, name)
  rec.raises('field on another grid rejected', lambda: resize.top_hat_downsample(g, good, c(frac)), G.InconsistentGridError, 'top-hat')
  rec.raises('unsupported location rejected', lambda: resize.top_hat_downsample(g, good, c(g, (.25, .5))), Exception, 'offset')


SUITES = {
    'staggered': (suite_staggered, 80, 4000),
    'tophat': (suite_tophat, 70, 3000),
    'spectral': (suite_spectral, 80, 3000),
    'reject': (suite_reject, 3, 20),
}
REQUIRED = ['flux through every coarse face is the mean over its fine faces', 'divergence-free stays divergence-free',
            'top-hat mean of the ghost-extended field', 'scalar coarsening averages over coarse cells',
            'spectral coarsening keeps the retained wavenumbers and their amplitude']
